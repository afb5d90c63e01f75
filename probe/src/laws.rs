//! the hasher with which hashing is analysed
pub struct Hs;
impl std::hash::Hasher for Hs {
    fn finish(&self) -> u64 {
        unimplemented!()
    }
    fn write(&mut self, _: &[u8]) {
        unimplemented!()
    }
}
pub fn law_hasher(_h: Hs) {}
