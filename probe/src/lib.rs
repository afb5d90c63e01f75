//! Roots from which the exporter collects monomorphic MIR. Never executed.
pub mod flags;
pub mod laws;
pub mod pool;
pub mod query;
pub mod text;
pub mod wtf;
use coffer::clazz::Class;
use coffer::prelude::*;
use coffer::ReadWrite;

/// Outermost byte source / sink, so that they are distinguishable by type from
/// the in-memory buffers the library uses internally.
pub struct Src;
impl std::io::Read for Src {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        unimplemented!()
    }
}
pub struct Dst;
impl std::io::Write for Dst {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        unimplemented!()
    }
    fn flush(&mut self) -> std::io::Result<()> {
        unimplemented!()
    }
}

pub fn class_read(r: &mut Src) -> Result<Class> {
    <Class as ReadWrite>::read_from(r)
}
pub fn class_write(c: &Class, w: &mut Dst) -> Result<()> {
    c.write_to(w)
}
