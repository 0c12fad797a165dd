//! The interface of `petgraph` 0.6 over 0.8.
pub use petgraph_real::{graph, prelude, stable_graph, visit, Directed, Direction};
pub mod algo {
    pub use petgraph_real::algo::has_path_connecting;
    use petgraph_real::visit::{IntoNeighborsDirected, NodeCount};
    use std::collections::hash_map::RandomState;
    use std::hash::Hash;
    pub fn all_simple_paths<T, G>(g: G, a: G::NodeId, b: G::NodeId, min: usize, max: Option<usize>) -> impl Iterator<Item = T>
    where
        G: NodeCount + IntoNeighborsDirected,
        G::NodeId: Eq + Hash,
        T: FromIterator<G::NodeId>,
    {
        petgraph_real::algo::all_simple_paths::<T, G, RandomState>(g, a, b, min, max)
    }
}
