// written by gen_shapes.py
pub const NSINGLE: usize = 16;
pub const NGROUP: usize = 161;
pub const NQUERY: usize = 267;
pub const NSHAPES: usize = 309;
pub static PARTS: [&[moncore::query::Entry]; 5] = [shapes0::SHAPES, shapes1::SHAPES, shapes2::SHAPES, shapes3::SHAPES, shapes4::SHAPES];
