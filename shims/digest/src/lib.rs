//! Offline stand-in for the part of digest 0.8 the project uses.
pub trait Input {
    fn input<B: AsRef<[u8]>>(&mut self, data: B);
}
pub trait XofReader {
    fn read(&mut self, buffer: &mut [u8]);
}
pub trait ExtendableOutput
where
    Self: Sized,
{
    type Reader: XofReader;
    fn xof_result(self) -> Self::Reader;
}
pub trait Reset {
    fn reset(&mut self);
}
