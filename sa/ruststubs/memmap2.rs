use std::ops::Deref;
extern "C" { fn env_mmap(file: *const std::fs::File, out: *mut (*const u8, usize)) -> i32; }
#[derive(Debug)] pub struct Mmap { ptr: *const u8, len: usize }
unsafe impl Send for Mmap {} unsafe impl Sync for Mmap {}
impl Mmap { pub unsafe fn map(file: &std::fs::File) -> std::io::Result<Mmap> { let mut o = (std::ptr::null(), 0usize); if env_mmap(file, &mut o) == 0 { Ok(Mmap{ptr:o.0,len:o.1}) } else { Err(std::io::Error::from(std::io::ErrorKind::Other)) } } }
impl Deref for Mmap { type Target=[u8]; fn deref(&self)->&[u8] { unsafe { std::slice::from_raw_parts(self.ptr, self.len) } } }
