#![allow(warnings)]
//! Type-level stand-in for zip 0.5 (not available offline). Reads stored entries only.
use std::io::{self, Read, Seek, SeekFrom};
use std::path::{Component, Path, PathBuf};
pub mod result {
    #[derive(Debug)]
    pub enum ZipError {
        Io(std::io::Error),
        InvalidArchive(&'static str),
        UnsupportedArchive(&'static str),
        FileNotFound,
    }
    impl std::fmt::Display for ZipError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for ZipError {}
    impl From<std::io::Error> for ZipError {
        fn from(e: std::io::Error) -> Self {
            ZipError::Io(e)
        }
    }
    pub type ZipResult<T> = Result<T, ZipError>;
}
use result::*;
#[derive(Clone, Debug, PartialEq)]
pub enum CompressionMethod {
    Stored,
    Deflated,
    Unsupported(u16),
}
#[derive(Clone, Debug)]
struct Entry {
    name: String,
    method: u16,
    csize: u64,
    size: u64,
    offset: u64,
    mode: Option<u32>,
    crc: u32,
}
#[derive(Clone, Debug)]
pub struct ZipArchive<R: Read + Seek> {
    reader: R,
    files: Vec<Entry>,
}
fn u16_at(b: &[u8], i: usize) -> u16 {
    u16::from(b[i]) | u16::from(b[i + 1]) << 8
}
fn u32_at(b: &[u8], i: usize) -> u32 {
    u32::from(u16_at(b, i)) | u32::from(u16_at(b, i + 2)) << 16
}
impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut reader: R) -> ZipResult<ZipArchive<R>> {
        let mut b = vec![];
        reader.seek(SeekFrom::Start(0))?;
        reader.read_to_end(&mut b)?;
        if b.len() < 22 {
            return Err(ZipError::InvalidArchive("Invalid zip header"));
        }
        let eocd = (0..=b.len() - 22)
            .rev()
            .find(|i| &b[*i..*i + 4] == b"PK\x05\x06")
            .ok_or(ZipError::InvalidArchive("Could not find central directory end"))?;
        let n = u16_at(&b, eocd + 10);
        let mut p = u32_at(&b, eocd + 16) as usize;
        let mut files = vec![];
        for _ in 0..n {
            if b.len() < p + 46 || &b[p..p + 4] != b"PK\x01\x02" {
                return Err(ZipError::InvalidArchive("Invalid Central Directory header"));
            }
            let (nl, el, cl) = (
                u16_at(&b, p + 28) as usize,
                u16_at(&b, p + 30) as usize,
                u16_at(&b, p + 32) as usize,
            );
            files.push(Entry {
                name: String::from_utf8_lossy(&b[p + 46..p + 46 + nl]).into_owned(),
                method: u16_at(&b, p + 10),
                crc: u32_at(&b, p + 16),
                csize: u64::from(u32_at(&b, p + 20)),
                size: u64::from(u32_at(&b, p + 24)),
                offset: u64::from(u32_at(&b, p + 42)),
                mode: Some(u32_at(&b, p + 38) >> 16),
            });
            p += 46 + nl + el + cl;
        }
        Ok(ZipArchive { reader, files })
    }
    pub fn len(&self) -> usize {
        self.files.len()
    }
    pub fn is_empty(&self) -> bool {
        self.files.is_empty()
    }
    pub fn file_names(&self) -> impl Iterator<Item = &str> {
        self.files.iter().map(|f| &*f.name)
    }
    pub fn by_name<'a>(&'a mut self, name: &str) -> ZipResult<read::ZipFile<'a>> {
        let ix = self.files.iter().position(|f| f.name == name).ok_or(ZipError::FileNotFound)?;
        self.by_index(ix)
    }
    pub fn by_index<'a>(&'a mut self, file_number: usize) -> ZipResult<read::ZipFile<'a>> {
        let e = self.files.get(file_number).cloned().ok_or(ZipError::FileNotFound)?;
        self.reader.seek(SeekFrom::Start(e.offset))?;
        let mut h = [0u8; 30];
        self.reader.read_exact(&mut h)?;
        let skip = i64::from(u16_at(&h, 26)) + i64::from(u16_at(&h, 28));
        self.reader.seek(SeekFrom::Current(skip))?;
        if e.method != 0 {
            return Err(ZipError::UnsupportedArchive("Compression method not supported"));
        }
        let take = e.csize;
        Ok(read::ZipFile { entry: e, reader: Box::new((&mut self.reader as &mut dyn Read).take(take)) })
    }
    pub fn into_inner(self) -> R {
        self.reader
    }
}
pub mod read {
    use super::*;
    pub use super::ZipArchive;
    pub struct ZipFile<'a> {
        pub(crate) entry: Entry,
        pub(crate) reader: Box<dyn Read + 'a>,
    }
    impl<'a> ZipFile<'a> {
        pub fn name(&self) -> &str {
            &self.entry.name
        }
        pub fn name_raw(&self) -> &[u8] {
            self.entry.name.as_bytes()
        }
        pub fn sanitized_name(&self) -> PathBuf {
            let no_null = match self.entry.name.find('\0') {
                Some(i) => self.entry.name[..i].to_string(),
                None => self.entry.name.clone(),
            };
            Path::new(&no_null.replace('\\', "/"))
                .components()
                .filter(|c| if let Component::Normal(_) = c { true } else { false })
                .fold(PathBuf::new(), |mut p, c| {
                    p.push(c.as_os_str());
                    p
                })
        }
        pub fn comment(&self) -> &str {
            ""
        }
        pub fn is_dir(&self) -> bool {
            self.name().chars().rev().next().map_or(false, |c| c == '/' || c == '\\')
        }
        pub fn is_file(&self) -> bool {
            !self.is_dir()
        }
        pub fn mangled_name(&self) -> PathBuf {
            self.sanitized_name()
        }
        pub fn enclosed_name(&self) -> Option<&Path> {
            let path = Path::new(self.entry.name.as_str());
            let mut depth = 0usize;
            for component in path.components() {
                match component {
                    Component::Prefix(_) | Component::RootDir => return None,
                    Component::ParentDir => depth = depth.checked_sub(1)?,
                    Component::Normal(_) => depth += 1,
                    Component::CurDir => (),
                }
            }
            Some(path)
        }
        pub fn compression(&self) -> CompressionMethod {
            CompressionMethod::Stored
        }
        pub fn compressed_size(&self) -> u64 {
            self.entry.csize
        }
        pub fn size(&self) -> u64 {
            self.entry.size
        }
        pub fn unix_mode(&self) -> Option<u32> {
            self.entry.mode
        }
        pub fn crc32(&self) -> u32 {
            self.entry.crc
        }
    }
    impl<'a> Read for ZipFile<'a> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.reader.read(buf)
        }
    }
}
