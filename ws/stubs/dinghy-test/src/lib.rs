#![allow(warnings)]
pub fn try_test_file_path(_: &str) -> Option<std::path::PathBuf> { None }
pub fn test_project_path() -> std::path::PathBuf { std::path::PathBuf::from(".") }
