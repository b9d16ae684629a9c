#![allow(warnings)]
//! Stand-in for fs_extra 1.1 (not available offline).
pub mod dir {
    use std::path::Path;
    pub struct CopyOptions { pub overwrite: bool, pub skip_exist: bool, pub buffer_size: usize, pub copy_inside: bool, pub depth: u64 }
    impl CopyOptions { pub fn new() -> Self { CopyOptions { overwrite: false, skip_exist: false, buffer_size: 64000, copy_inside: false, depth: 0 } } }
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q, _o: &CopyOptions) -> std::io::Result<u64> {
        fn rec(a: &Path, b: &Path) -> std::io::Result<()> {
            std::fs::create_dir_all(b)?;
            for e in std::fs::read_dir(a)? {
                let e = e?;
                let t = b.join(e.file_name());
                if e.path().is_dir() { rec(&e.path(), &t)? } else { std::fs::copy(e.path(), t)?; }
            }
            Ok(())
        }
        let from = from.as_ref();
        rec(from, &to.as_ref().join(from.file_name().unwrap()))?;
        Ok(0)
    }
}
