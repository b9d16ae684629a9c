#![allow(warnings)]
//! Stand-in for maplit 1.0 (not available offline).
#[macro_export]
macro_rules! hashmap {
    ($($k:expr => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = ::std::collections::HashMap::new();
        $(m.insert($k, $v);)*
        m
    }};
}
#[macro_export]
macro_rules! hashset {
    ($($k:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = ::std::collections::HashSet::new();
        $(m.insert($k);)*
        m
    }};
}
#[macro_export]
macro_rules! btreemap {
    ($($k:expr => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = ::std::collections::BTreeMap::new();
        $(m.insert($k, $v);)*
        m
    }};
}
