//! Faulty entropy sources.
use rand_core::{CryptoRng, Error, RngCore};

/// Good entropy for the first `good` words, then the same few words over and over, until
/// `until` words were drawn (a source that is stuck for ever may make any rejection sampler
/// spin for ever, which is nobody's defect).
pub struct Stuck<R> {
    inner: R,
    good: usize,
    cycle: Vec<u64>,
    until: usize,
    drawn: usize,
}
impl<R: RngCore> Stuck<R> {
    pub fn new(mut inner: R, good: usize, period: usize) -> Self {
        let cycle = (0..period).map(|_| inner.next_u64()).collect();
        Stuck { inner, good, cycle, until: good + 4000, drawn: 0 }
    }
}
impl<R: RngCore> RngCore for Stuck<R> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.drawn += 1;
        if self.drawn <= self.good || self.drawn > self.until {
            self.inner.next_u64()
        } else {
            self.cycle[(self.drawn - self.good) % self.cycle.len()]
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<R: RngCore> CryptoRng for Stuck<R> {}

/// Repeats one word of every few.
pub struct Stutter<R> {
    pub inner: R,
    pub every: u32,
    pub n: u32,
    pub last: u64,
}
impl<R: RngCore> RngCore for Stutter<R> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.n += 1;
        if self.n % self.every != 0 {
            self.last = self.inner.next_u64();
        }
        self.last
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<R: RngCore> CryptoRng for Stutter<R> {}

/// Counts what is drawn.
pub struct Counting<R> {
    pub inner: R,
    pub bytes: u64,
}
impl<R: RngCore> RngCore for Counting<R> {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.bytes += dest.len() as u64;
        self.inner.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<R: RngCore> CryptoRng for Counting<R> {}
