//! stand-in: no layout
pub type DefaultNodeIdx = usize;
pub struct NodeData<N> { pub x: f32, pub y: f32, pub mass: f32, pub is_anchor: bool, pub user_data: N }
pub struct Node<N> { pub data: NodeData<N> }
impl<N> Node<N> { pub fn x(&self) -> f32 { self.data.x } pub fn y(&self) -> f32 { self.data.y } }
#[derive(Default)] pub struct Params;
#[derive(Default)] pub struct EdgeData;
pub struct ForceGraph<N> { nodes: Vec<Node<N>> }
impl<N> ForceGraph<N> {
    pub fn new(_p: Params) -> Self { ForceGraph { nodes: vec![] } }
    pub fn add_node(&mut self, data: NodeData<N>) -> DefaultNodeIdx { self.nodes.push(Node { data }); self.nodes.len() - 1 }
    pub fn add_edge(&mut self, _a: usize, _b: usize, _d: EdgeData) {}
    pub fn update(&mut self, _dt: f32) {}
    pub fn visit_nodes<F: FnMut(&Node<N>)>(&self, mut f: F) { for n in &self.nodes { f(n) } }
}
