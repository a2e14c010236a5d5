#![allow(static_mut_refs)]
pub mod ghost {
    /// the bytes of the next short draw
    pub static mut TOKEN: [u8; 16] = [0xc0; 16];
    pub static mut DRAWN: usize = 0;
}
pub mod distributions {
    use super::Rng;
    pub struct Standard;
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T;
    }
}
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub trait RngCore {
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
impl RngCore for ThreadRng {
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe {
            if dest.len() == 16 {
                dest.copy_from_slice(&ghost::TOKEN);
                return;
            }
            let mut i = 0;
            while i < dest.len() {
                dest[i] = 0xc0 | ghost::DRAWN as u8 & 0x3f;
                ghost::DRAWN += 1;
                i += 1;
            }
        }
    }
}
pub trait Rng: RngCore {
    fn fill(&mut self, dest: &mut [u8]) {
        self.fill_bytes(dest)
    }
}
impl<T: RngCore + ?Sized> Rng for T {}
pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    distributions::Distribution::sample(&distributions::Standard, &mut thread_rng())
}
