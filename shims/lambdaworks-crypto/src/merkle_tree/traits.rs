pub trait IsMerkleTreeBackend {
    type Node: PartialEq + Eq + Clone;
    type Data;

    fn hash_data(leaf: &Self::Data) -> Self::Node;
    fn hash_leaves(unhashed_leaves: &[Self::Data]) -> Vec<Self::Node> {
        unhashed_leaves.iter().map(|leaf| Self::hash_data(leaf)).collect()
    }
    fn hash_new_parent(child_1: &Self::Node, child_2: &Self::Node) -> Self::Node;
}
