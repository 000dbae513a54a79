include!("../../mon/src/shapes_gen.rs");
use moncore::query::Entry;
pub fn shape(i: usize) -> &'static Entry {
    &PARTS[i % PARTS.len()][i / PARTS.len()]
}
