//! Stand-in: passes bytes on as they are. Only the downloads of benchmark data go through it.
use std::io::{Read, Result};
pub struct Decoder<R>(R);
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Result<Self> {
        Ok(Decoder(r))
    }
}
impl<R: Read> Read for Decoder<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.0.read(buf)
    }
}
