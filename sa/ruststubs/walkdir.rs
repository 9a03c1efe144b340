use std::path::{Path,PathBuf};
#[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self,_:&mut std::fmt::Formatter)->std::fmt::Result{Ok(())} } impl std::error::Error for Error {}
pub struct DirEntry(PathBuf); impl DirEntry { pub fn path(&self)->&Path{&self.0} }
pub struct WalkDir; impl WalkDir { pub fn new<P: AsRef<Path>>(_: P)->WalkDir{WalkDir} }
impl IntoIterator for WalkDir { type Item=Result<DirEntry,Error>; type IntoIter=std::vec::IntoIter<Result<DirEntry,Error>>; fn into_iter(self)->Self::IntoIter{Vec::new().into_iter()} }
impl From<Error> for std::io::Error { fn from(_:Error)->std::io::Error { std::io::Error::from(std::io::ErrorKind::Other) } }
