//! Stands in for imgui, of which the compiled files mention one type.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TextureId(pub usize);
