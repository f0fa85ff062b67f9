pub use std::fs::*;

use std::io;
use std::path::Path;

pub fn remove_file<P: AsRef<Path>>(path: P) -> io::Result<()> {
    crate::rt::point("remove a file");
    let w = crate::rt::world();
    let p = path.as_ref().to_path_buf();
    if w.paths.remove(&p) {
        w.unix.remove(&p);
        Ok(())
    } else {
        Err(io::ErrorKind::NotFound.into())
    }
}
pub fn create_dir<P: AsRef<Path>>(_: P) -> io::Result<()> {
    Ok(())
}
pub fn create_dir_all<P: AsRef<Path>>(_: P) -> io::Result<()> {
    Ok(())
}
pub fn exists<P: AsRef<Path>>(path: P) -> io::Result<bool> {
    Ok(crate::rt::world().paths.contains(path.as_ref()))
}

/// What a path leads to, as far as the controlled world knows.
pub trait Look {
    fn vmc_exists(&self) -> bool;
    fn vmc_try_exists(&self) -> io::Result<bool> {
        Ok(self.vmc_exists())
    }
    fn vmc_is_file(&self) -> bool {
        false
    }
    fn vmc_is_dir(&self) -> bool;
    fn vmc_is_symlink(&self) -> bool {
        false
    }
}
impl Look for Path {
    fn vmc_exists(&self) -> bool {
        crate::rt::point("look at a path");
        crate::rt::world().paths.contains(self) || self.vmc_is_dir()
    }
    fn vmc_is_dir(&self) -> bool {
        let w = crate::rt::world();
        w.paths.iter().chain(w.stores.keys()).any(|p| p != self && p.starts_with(self)) || w.stores.contains_key(self)
    }
}
