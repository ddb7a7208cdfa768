//@ common
pub fn any_node(local: NodeIdShort) -> Arc<Node> { let (n, rx) = node_with(local, Keystore::default(), any_options()); std::mem::forget(rx); Arc::new(n) }
