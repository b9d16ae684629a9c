#![allow(warnings)]
//! Stand-in for csv 1.0 (not available offline).
use std::io::Read;
use std::path::Path;
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error(e.to_string())
    }
}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum QuoteStyle {
    Always,
    Necessary,
    NonNumeric,
    Never,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Trim {
    None,
    Headers,
    Fields,
    All,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Terminator {
    CRLF,
    Any(u8),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct StringRecord(Vec<String>);
impl StringRecord {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get(&self, i: usize) -> Option<&str> {
        self.0.get(i).map(|s| &**s)
    }
    pub fn iter(&self) -> StringRecordIter {
        StringRecordIter(self.0.iter())
    }
}
pub struct StringRecordIter<'a>(std::slice::Iter<'a, String>);
impl<'a> Iterator for StringRecordIter<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        self.0.next().map(|s| &**s)
    }
}
impl<'a> IntoIterator for &'a StringRecord {
    type Item = &'a str;
    type IntoIter = StringRecordIter<'a>;
    fn into_iter(self) -> StringRecordIter<'a> {
        self.iter()
    }
}
impl std::ops::Index<usize> for StringRecord {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        &self.0[i]
    }
}
#[derive(Debug, Clone)]
pub struct ReaderBuilder {
    delimiter: u8,
    has_headers: bool,
    flexible: bool,
}
impl Default for ReaderBuilder {
    fn default() -> Self {
        ReaderBuilder { delimiter: b',', has_headers: true, flexible: false }
    }
}
impl ReaderBuilder {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn delimiter(&mut self, d: u8) -> &mut Self {
        self.delimiter = d;
        self
    }
    pub fn quoting(&mut self, _yes: bool) -> &mut Self {
        self
    }
    pub fn quote(&mut self, _q: u8) -> &mut Self {
        self
    }
    pub fn double_quote(&mut self, _yes: bool) -> &mut Self {
        self
    }
    pub fn escape(&mut self, _e: Option<u8>) -> &mut Self {
        self
    }
    pub fn comment(&mut self, _c: Option<u8>) -> &mut Self {
        self
    }
    pub fn trim(&mut self, _t: Trim) -> &mut Self {
        self
    }
    pub fn terminator(&mut self, _t: Terminator) -> &mut Self {
        self
    }
    pub fn buffer_capacity(&mut self, _c: usize) -> &mut Self {
        self
    }
    pub fn flexible(&mut self, yes: bool) -> &mut Self {
        self.flexible = yes;
        self
    }
    pub fn has_headers(&mut self, yes: bool) -> &mut Self {
        self.has_headers = yes;
        self
    }
    pub fn from_reader<R: Read>(&self, rdr: R) -> Reader<R> {
        Reader { rdr, conf: self.clone() }
    }
    pub fn from_path<P: AsRef<Path>>(&self, path: P) -> Result<Reader<std::fs::File>> {
        Ok(Reader { rdr: std::fs::File::open(path)?, conf: self.clone() })
    }
}
pub struct Reader<R> {
    rdr: R,
    conf: ReaderBuilder,
}
impl<R: Read> Reader<R> {
    pub fn from_reader(rdr: R) -> Reader<R> {
        ReaderBuilder::new().from_reader(rdr)
    }
    pub fn records(&mut self) -> StringRecordsIter {
        let mut out = vec![];
        let mut text = String::new();
        match self.rdr.read_to_string(&mut text) {
            Err(e) => out.push(Err(e.into())),
            Ok(_) => {
                let mut width = None;
                for line in text.lines().filter(|l| !l.is_empty()).skip(self.conf.has_headers as usize) {
                    let rec: Vec<String> =
                        line.split(self.conf.delimiter as char).map(|s| s.to_string()).collect();
                    if !self.conf.flexible && *width.get_or_insert(rec.len()) != rec.len() {
                        out.push(Err(Error("unequal lengths".into())));
                    } else {
                        out.push(Ok(StringRecord(rec)));
                    }
                }
            }
        }
        StringRecordsIter(out.into_iter())
    }
    pub fn into_records(mut self) -> StringRecordsIter {
        self.records()
    }
}
pub struct StringRecordsIter(std::vec::IntoIter<Result<StringRecord>>);
impl Iterator for StringRecordsIter {
    type Item = Result<StringRecord>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}
