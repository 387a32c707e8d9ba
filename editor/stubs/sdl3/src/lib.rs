//! Stands in for SDL, of which the compiled files mention the following. Nothing here is ever called.
#![allow(unused_variables)]
pub mod gpu {
    use std::marker::PhantomData;
    #[derive(Debug)]
    pub struct Error;
    macro_rules! opaque { ($($n:ident)*) => { $(#[derive(Clone, Default)] pub struct $n;)* } }
    opaque!(Device Buffer Sampler SamplerCreateInfo TransferBuffer CommandBuffer CopyPass);
    pub struct Texture<'a>(PhantomData<&'a ()>);
    pub struct TextureCreateInfo;
    pub struct TextureTransferInfo;
    pub struct TextureRegion;
    pub struct TransferBufferBuilder;
    pub struct Map;
    #[allow(non_camel_case_types)]
    pub enum TextureType { _2D }
    pub enum TextureFormat { R8g8b8a8Unorm }
    pub struct TextureUsage;
    impl TextureUsage { pub const SAMPLER: TextureUsage = TextureUsage; }
    pub struct TransferBufferUsage;
    impl TransferBufferUsage { pub const UPLOAD: TransferBufferUsage = TransferBufferUsage; }
    impl SamplerCreateInfo { pub fn new() -> Self { unimplemented!() } }
    impl TextureCreateInfo {
        pub fn new() -> Self { unimplemented!() }
        pub fn with_type(self, t: TextureType) -> Self { self }
        pub fn with_format(self, t: TextureFormat) -> Self { self }
        pub fn with_usage(self, t: TextureUsage) -> Self { self }
        pub fn with_width(self, n: u32) -> Self { self }
        pub fn with_height(self, n: u32) -> Self { self }
        pub fn with_layer_count_or_depth(self, n: u32) -> Self { self }
        pub fn with_num_levels(self, n: u32) -> Self { self }
    }
    impl TextureTransferInfo {
        pub fn new() -> Self { unimplemented!() }
        pub fn with_transfer_buffer(self, b: &TransferBuffer) -> Self { self }
        pub fn with_offset(self, n: u32) -> Self { self }
    }
    impl TextureRegion {
        pub fn new() -> Self { unimplemented!() }
        pub fn with_texture(self, t: &Texture) -> Self { self }
        pub fn with_width(self, n: u32) -> Self { self }
        pub fn with_height(self, n: u32) -> Self { self }
        pub fn with_depth(self, n: u32) -> Self { self }
    }
    impl TransferBufferBuilder {
        pub fn with_usage(self, t: TransferBufferUsage) -> Self { self }
        pub fn with_size(self, n: u32) -> Self { self }
        pub fn build(self) -> Result<TransferBuffer, Error> { unimplemented!() }
    }
    impl TransferBuffer { pub fn map<T>(&self, d: &Device, cycle: bool) -> Map { unimplemented!() } }
    impl Map { pub fn mem_mut(&mut self) -> &mut [u8] { unimplemented!() } pub fn unmap(self) {} }
    impl CopyPass { pub fn upload_to_gpu_texture(&self, a: TextureTransferInfo, b: TextureRegion, cycle: bool) {} }
    impl CommandBuffer { pub fn submit(self) -> Result<(), Error> { unimplemented!() } }
    impl Device {
        pub fn create_sampler(&self, i: SamplerCreateInfo) -> Result<Sampler, Error> { unimplemented!() }
        pub fn create_texture(&self, i: TextureCreateInfo) -> Result<Texture<'static>, Error> { unimplemented!() }
        pub fn create_transfer_buffer(&self) -> TransferBufferBuilder { unimplemented!() }
        pub fn acquire_command_buffer(&self) -> Result<CommandBuffer, Error> { unimplemented!() }
        pub fn begin_copy_pass(&self, c: &CommandBuffer) -> Result<CopyPass, Error> { unimplemented!() }
        pub fn end_copy_pass(&self, c: CopyPass) {}
    }
}
