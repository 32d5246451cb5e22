use super::traits::IsMerkleTreeBackend;

#[derive(Debug, Clone, PartialEq, Eq, Default, Hash)]
pub struct Proof<T: PartialEq + Eq> {
    pub merkle_path: Vec<T>,
}

impl<T: PartialEq + Eq> Proof<T> {
    pub fn verify<B>(&self, root_hash: &B::Node, mut index: usize, value: &B::Data) -> bool
    where
        B: IsMerkleTreeBackend<Node = T>,
    {
        let mut hashed_value = B::hash_data(value);
        for sibling in self.merkle_path.iter() {
            hashed_value = if index % 2 == 0 {
                B::hash_new_parent(&hashed_value, sibling)
            } else {
                B::hash_new_parent(sibling, &hashed_value)
            };
            index >>= 1;
        }
        root_hash == &hashed_value
    }
}
