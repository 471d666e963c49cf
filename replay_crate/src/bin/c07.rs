use vreplay::{compsearch, Search};
fn main() { compsearch::run(Search::new(), false) }
