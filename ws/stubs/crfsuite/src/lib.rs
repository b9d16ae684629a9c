#![allow(warnings)]
//! Type-level stand-in for crfsuite-rs 0.3.3 (not available offline).
use std::path::Path;

#[derive(Debug, Clone, PartialEq)]
pub enum CrfError {
    CreateInstanceError(String),
    Other(String),
}
impl std::fmt::Display for CrfError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for CrfError {}
pub type Result<T> = std::result::Result<T, CrfError>;

#[derive(Debug, Clone, PartialEq)]
pub struct Attribute {
    pub name: String,
    pub value: f64,
}
impl Attribute {
    pub fn new<S: Into<String>>(name: S, value: f64) -> Self {
        Attribute { name: name.into(), value }
    }
}
pub trait SimpleAttribute {
    fn get_attr(&self) -> (String, f64);
}
impl SimpleAttribute for Attribute {
    fn get_attr(&self) -> (String, f64) {
        (self.name.clone(), self.value)
    }
}
impl SimpleAttribute for (String, f64) {
    fn get_attr(&self) -> (String, f64) {
        self.clone()
    }
}
impl SimpleAttribute for (String, String) {
    fn get_attr(&self) -> (String, f64) {
        (format!("{}:{}", self.0, self.1), 1.0)
    }
}
impl SimpleAttribute for String {
    fn get_attr(&self) -> (String, f64) {
        (self.clone(), 1.0)
    }
}

/// Wraps a C object; not shareable between threads without a lock.
pub struct Tagger {
    state: std::cell::RefCell<Vec<Vec<(String, f64)>>>,
    labels: Vec<String>,
}

impl Tagger {
    pub fn create_from_file<P: AsRef<Path>>(path: P) -> Result<Tagger> {
        std::fs::File::open(path).map_err(|e| CrfError::Other(e.to_string()))?;
        Ok(Tagger { state: Default::default(), labels: vec!["Tw==".to_string()] })
    }
    pub fn create_from_memory<B: AsRef<[u8]>>(_data: B) -> Result<Tagger> {
        Ok(Tagger { state: Default::default(), labels: vec!["Tw==".to_string()] })
    }
    pub fn labels(&self) -> Result<Vec<String>> {
        Ok(self.labels.clone())
    }
    pub fn set<T: AsRef<[A]>, A: SimpleAttribute>(&self, xseq: &[T]) -> Result<()> {
        *self.state.borrow_mut() = xseq
            .iter()
            .map(|x| x.as_ref().iter().map(|a| a.get_attr()).collect())
            .collect();
        Ok(())
    }
    pub fn tag<T: AsRef<[A]>, A: SimpleAttribute>(&self, xseq: &[T]) -> Result<Vec<String>> {
        self.set(xseq)?;
        self.viterbi()
    }
    pub fn viterbi(&self) -> Result<Vec<String>> {
        Ok(self.state.borrow().iter().map(|_| "Tw==".to_string()).collect())
    }
    pub fn probability<T: AsRef<str>>(&self, _tags: &[T]) -> Result<f64> {
        Ok(1.0 / (1.0 + self.state.borrow().len() as f64))
    }
    pub fn marginal(&self, _label: &str, _position: i32) -> Result<f64> {
        Ok(0.5)
    }
}
