#![allow(warnings)]
//! Type-level stand-in for snips-nlu-parsers 0.4.3 (not available offline).
use serde::{Deserialize, Serialize};
use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind};
use std::ops::Range;
use std::path::{Path, PathBuf};
pub type Result<T> = ::std::result::Result<T, failure::Error>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BuiltinParserMetadata {
    pub language: String,
    pub gazetteer_parser: Option<PathBuf>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GazetteerParserMetadata {
    pub parsers_metadata: Vec<EntityParserMetadata>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EntityParserMetadata {
    pub entity_identifier: String,
    pub entity_parser: PathBuf,
}
pub struct BuiltinEntityParser {
    _language: String,
}
impl BuiltinEntityParser {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let f = std::fs::File::open(path.as_ref().join("metadata.json"))?;
        let m: BuiltinParserMetadata = serde_json::from_reader(f)?;
        Ok(BuiltinEntityParser { _language: m.language })
    }
    pub fn extract_entities(
        &self,
        sentence: &str,
        filter_entity_kinds: Option<&[BuiltinEntityKind]>,
        _max_alternative_resolved_values: usize,
    ) -> Result<Vec<BuiltinEntity>> {
        let mut out = vec![];
        let ok = filter_entity_kinds.map(|k| k.contains(&BuiltinEntityKind::Number)).unwrap_or(true);
        let mut pos = 0;
        for w in sentence.split(' ') {
            let n = w.chars().count();
            let v = w.parse::<f64>().ok().or_else(|| {
                ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten"]
                    .iter().position(|x| *x == w).map(|p| p as f64)
            });
            if let (Some(value), true) = (v, ok) {
                out.push(BuiltinEntity {
                    value: w.to_string(),
                    range: pos..pos + n,
                    entity: snips_nlu_ontology::SlotValue::Number(snips_nlu_ontology::NumberValue { value }),
                    alternatives: vec![],
                    entity_kind: BuiltinEntityKind::Number,
                });
            }
            pos += n + 1;
        }
        Ok(out)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct GazetteerEntityMatch<T> {
    pub value: String,
    pub resolved_value: String,
    pub alternative_resolved_values: Vec<String>,
    pub range: Range<usize>,
    pub entity_identifier: T,
}
pub struct GazetteerParser<T> {
    parsers: Vec<(T, gazetteer_entity_parser::Parser)>,
}
impl<T: Clone + PartialEq + From<String>> GazetteerParser<T> {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let f = std::fs::File::open(path.as_ref().join("metadata.json"))?;
        let m: GazetteerParserMetadata = serde_json::from_reader(f)?;
        let parsers = m
            .parsers_metadata
            .into_iter()
            .map(|m| {
                Ok((
                    m.entity_identifier.into(),
                    gazetteer_entity_parser::Parser::from_folder(path.as_ref().join(m.entity_parser))?,
                ))
            })
            .collect::<Result<_>>()?;
        Ok(GazetteerParser { parsers })
    }
    pub fn extract_entities(
        &self,
        sentence: &str,
        filter_entity_identifiers: Option<&[T]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<GazetteerEntityMatch<T>>> {
        let mut out: Vec<GazetteerEntityMatch<T>> = vec![];
        for (id, parser) in &self.parsers {
            if filter_entity_identifiers.map(|f| f.contains(id)).unwrap_or(true) {
                for p in parser.run(sentence, max_alternative_resolved_values)? {
                    out.push(GazetteerEntityMatch {
                        value: p.matched_value,
                        resolved_value: p.resolved_value.resolved,
                        alternative_resolved_values: p.alternatives.into_iter().map(|a| a.resolved).collect(),
                        range: p.range,
                        entity_identifier: id.clone(),
                    })
                }
            }
        }
        out.sort_by_key(|m| m.range.start);
        Ok(out)
    }
}
pub mod gazetteer_entity_parser {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct EntityValue {
        pub resolved_value: String,
        pub raw_value: String,
    }
    impl EntityValue {
        pub fn into_tokenized(self) -> Self {
            self
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct ResolvedValue {
        pub resolved: String,
        pub raw_value: String,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct ParsedValue {
        pub resolved_value: ResolvedValue,
        pub alternatives: Vec<ResolvedValue>,
        pub range: Range<usize>,
        pub matched_value: String,
    }
    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct Parser {
        values: Vec<EntityValue>,
    }
    impl Parser {
        pub fn from_folder<P: AsRef<Path>>(folder_name: P) -> Result<Parser> {
            let f = folder_name.as_ref().join("values.json");
            if f.exists() {
                return Ok(Parser { values: serde_json::from_reader(std::fs::File::open(f)?)? });
            }
            if !folder_name.as_ref().join("metadata.json").exists() {
                return Err(failure::err_msg("no gazetteer parser there"));
            }
            Ok(Parser { values: vec![] })
        }
        pub fn inject_new_values(
            &mut self,
            new_values: Vec<EntityValue>,
            prepend: bool,
            from_vanilla: bool,
        ) -> Result<()> {
            if new_values.iter().any(|v| v.raw_value == "__refused__") {
                return Err(failure::err_msg("refused"));
            }
            if from_vanilla {
                self.values.clear();
            }
            if prepend {
                self.values.splice(0..0, new_values);
            } else {
                self.values.extend(new_values);
            }
            Ok(())
        }
        pub fn dump<P: AsRef<Path>>(&self, folder_name: P) -> Result<()> {
            std::fs::create_dir(folder_name.as_ref())?;
            let f = std::fs::File::create(folder_name.as_ref().join("values.json"))?;
            serde_json::to_writer(f, &self.values)?;
            Ok(())
        }
        pub fn run(&self, input: &str, max_alternatives: usize) -> Result<Vec<ParsedValue>> {
            let mut out: Vec<ParsedValue> = vec![];
            for v in &self.values {
                if let Some(b) = input.find(&*v.raw_value) {
                    let start = input[..b].chars().count();
                    let range = start..start + v.raw_value.chars().count();
                    let rv = ResolvedValue { resolved: v.resolved_value.clone(), raw_value: v.raw_value.clone() };
                    if let Some(p) = out.iter_mut().find(|p| p.range.start < range.end && range.start < p.range.end) {
                        if p.alternatives.len() < max_alternatives && p.range == range {
                            p.alternatives.push(rv);
                        }
                        continue;
                    }
                    out.push(ParsedValue { resolved_value: rv, alternatives: vec![], range, matched_value: v.raw_value.clone() });
                }
            }
            Ok(out)
        }
    }
}
