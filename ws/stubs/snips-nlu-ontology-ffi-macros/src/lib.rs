#![allow(warnings)]
//! Type-level stand-in for snips-nlu-ontology-ffi-macros 0.67.1 (not available offline).
use snips_nlu_ontology::{IntentClassifierResult, IntentParserResult, Slot};
macro_rules! c_type {
    ($n:ident, $t:ty) => {
        #[repr(C)]
        #[derive(Debug)]
        pub struct $n {
            inner: Box<$t>,
        }
        impl From<$t> for $n {
            fn from(input: $t) -> Self {
                $n { inner: Box::new(input) }
            }
        }
    };
}
c_type!(CIntentParserResult, IntentParserResult);
c_type!(CSlotList, Vec<Slot>);
c_type!(CSlot, Slot);
c_type!(CIntentClassifierResult, IntentClassifierResult);
c_type!(CIntentClassifierResultArray, Vec<IntentClassifierResult>);
