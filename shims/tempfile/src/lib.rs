//! Environment stub for `tempfile` in the symbolic build: anonymous/named temporary files with
//! deterministic names in the modelled filesystem (a name no harness uses).
use std::fs::{File, OpenOptions};
use std::io;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, Ordering};

static NEXT: AtomicU32 = AtomicU32::new(0);

fn fresh() -> PathBuf {
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let mut s = String::from("/tmp/.symtmp-");
    s.push((b'a' + (n / 26 % 26) as u8) as char);
    s.push((b'a' + (n % 26) as u8) as char);
    PathBuf::from(s)
}
fn open(p: &Path) -> io::Result<File> {
    OpenOptions::new().read(true).write(true).create_new(true).open(p)
}
pub fn tempfile() -> io::Result<File> {
    let p = fresh();
    let f = open(&p)?;
    std::fs::remove_file(&p)?;
    Ok(f)
}
#[derive(Debug)]
pub struct TempPath { path: PathBuf }
impl Drop for TempPath { fn drop(&mut self) { let _ = std::fs::remove_file(&self.path); } }
impl AsRef<Path> for TempPath { fn as_ref(&self) -> &Path { &self.path } }
#[derive(Debug)]
pub struct NamedTempFile { path: TempPath, file: File }
impl NamedTempFile {
    pub fn new() -> io::Result<Self> {
        let p = fresh();
        let file = open(&p)?;
        Ok(NamedTempFile { path: TempPath { path: p }, file })
    }
    pub fn as_file(&self) -> &File { &self.file }
    pub fn as_file_mut(&mut self) -> &mut File { &mut self.file }
    pub fn path(&self) -> &Path { &self.path.path }
    pub fn into_file(self) -> File { self.file }
    pub fn into_parts(self) -> (File, TempPath) { (self.file, self.path) }
}
