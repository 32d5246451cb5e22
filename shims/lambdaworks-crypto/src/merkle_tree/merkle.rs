use super::{proof::Proof, traits::IsMerkleTreeBackend};

pub struct MerkleTree<B: IsMerkleTreeBackend> {
    pub root: B::Node,
    nodes: Vec<B::Node>,
}

impl<B: IsMerkleTreeBackend> Clone for MerkleTree<B> {
    fn clone(&self) -> Self {
        Self { root: self.root.clone(), nodes: self.nodes.clone() }
    }
}

impl<B: IsMerkleTreeBackend> MerkleTree<B> {
    pub fn build(unhashed_leaves: &[B::Data]) -> Self {
        let mut leaves = B::hash_leaves(unhashed_leaves);
        let n = leaves.len().next_power_of_two();
        let last = leaves[leaves.len() - 1].clone();
        leaves.resize(n, last);
        let mut nodes: Vec<B::Node> = vec![leaves[0].clone(); n - 1];
        nodes.extend(leaves);
        for i in (0..n - 1).rev() {
            nodes[i] = B::hash_new_parent(&nodes[2 * i + 1], &nodes[2 * i + 2]);
        }
        Self { root: nodes[0].clone(), nodes }
    }

    pub fn get_proof_by_pos(&self, pos: usize) -> Option<Proof<B::Node>> {
        let mut i = pos.checked_add(self.nodes.len() / 2)?;
        if i >= self.nodes.len() {
            return None;
        }
        let mut merkle_path = Vec::new();
        while i != 0 {
            let sib = if i % 2 == 0 { i - 1 } else { i + 1 };
            merkle_path.push(self.nodes[sib].clone());
            i = (i - 1) / 2;
        }
        Some(Proof { merkle_path })
    }

    pub fn nodes_len(&self) -> usize {
        self.nodes.len()
    }
}
