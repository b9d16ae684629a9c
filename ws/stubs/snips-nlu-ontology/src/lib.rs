#![allow(warnings)]
//! Type-level stand-in for snips-nlu-ontology 0.67.1 (not available offline).
use failure::Fail;
use serde::{Deserialize, Serialize};
use std::ops::Range;
use std::str::FromStr;

#[derive(Debug, Fail, PartialEq, Eq, Clone)]
pub enum OntologyError {
    #[fail(display = "Unknown language: {}", _0)]
    UnknownLanguage(String),
    #[fail(display = "Unknown builtin entity kind: {}", _0)]
    UnknownEntityKind(String),
}
type Result<T> = ::std::result::Result<T, failure::Error>;

#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Language {
    DE,
    EN,
    ES,
    FR,
    IT,
    JA,
    KO,
    PT_PT,
    PT_BR,
}
impl Language {
    pub fn all() -> &'static [Language] {
        &[Language::DE, Language::EN, Language::ES, Language::FR, Language::IT, Language::JA, Language::KO, Language::PT_PT, Language::PT_BR]
    }
}
impl ToString for Language {
    fn to_string(&self) -> String {
        match self {
            Language::DE => "de",
            Language::EN => "en",
            Language::ES => "es",
            Language::FR => "fr",
            Language::IT => "it",
            Language::JA => "ja",
            Language::KO => "ko",
            Language::PT_PT => "pt_pt",
            Language::PT_BR => "pt_br",
        }
        .to_string()
    }
}
impl FromStr for Language {
    type Err = failure::Error;
    fn from_str(s: &str) -> Result<Language> {
        match &*s.to_lowercase() {
            "de" => Ok(Language::DE),
            "en" => Ok(Language::EN),
            "es" => Ok(Language::ES),
            "fr" => Ok(Language::FR),
            "it" => Ok(Language::IT),
            "ja" => Ok(Language::JA),
            "ko" => Ok(Language::KO),
            "pt_pt" => Ok(Language::PT_PT),
            "pt_br" => Ok(Language::PT_BR),
            _ => Err(OntologyError::UnknownLanguage(s.to_string()).into()),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum BuiltinEntityKind {
    AmountOfMoney,
    Duration,
    Number,
    Ordinal,
    Temperature,
    Datetime,
    Date,
    Time,
    DatePeriod,
    TimePeriod,
    Percentage,
    MusicAlbum,
    MusicArtist,
    MusicTrack,
    City,
    Country,
    Region,
}
impl BuiltinEntityKind {
    pub fn all() -> &'static [BuiltinEntityKind] {
        &[BuiltinEntityKind::AmountOfMoney, BuiltinEntityKind::Duration, BuiltinEntityKind::Number, BuiltinEntityKind::Ordinal, BuiltinEntityKind::Temperature, BuiltinEntityKind::Datetime, BuiltinEntityKind::Date, BuiltinEntityKind::Time, BuiltinEntityKind::DatePeriod, BuiltinEntityKind::TimePeriod, BuiltinEntityKind::Percentage, BuiltinEntityKind::MusicAlbum, BuiltinEntityKind::MusicArtist, BuiltinEntityKind::MusicTrack, BuiltinEntityKind::City, BuiltinEntityKind::Country, BuiltinEntityKind::Region]
    }
    pub fn identifier(&self) -> &'static str {
        match self {
            BuiltinEntityKind::AmountOfMoney => "snips/amountOfMoney",
            BuiltinEntityKind::Duration => "snips/duration",
            BuiltinEntityKind::Number => "snips/number",
            BuiltinEntityKind::Ordinal => "snips/ordinal",
            BuiltinEntityKind::Temperature => "snips/temperature",
            BuiltinEntityKind::Datetime => "snips/datetime",
            BuiltinEntityKind::Date => "snips/date",
            BuiltinEntityKind::Time => "snips/time",
            BuiltinEntityKind::DatePeriod => "snips/datePeriod",
            BuiltinEntityKind::TimePeriod => "snips/timePeriod",
            BuiltinEntityKind::Percentage => "snips/percentage",
            BuiltinEntityKind::MusicAlbum => "snips/musicAlbum",
            BuiltinEntityKind::MusicArtist => "snips/musicArtist",
            BuiltinEntityKind::MusicTrack => "snips/musicTrack",
            BuiltinEntityKind::City => "snips/city",
            BuiltinEntityKind::Country => "snips/country",
            BuiltinEntityKind::Region => "snips/region",
        }
    }
    pub fn from_identifier(identifier: &str) -> Result<Self> {
        Self::all()
            .iter()
            .find(|k| k.identifier() == identifier)
            .cloned()
            .ok_or_else(|| OntologyError::UnknownEntityKind(identifier.to_string()).into())
    }
    pub fn description(&self) -> &'static str {
        self.identifier()
    }
    pub fn supported_languages(&self) -> &'static [Language] {
        Language::all()
    }
}
impl FromStr for BuiltinEntityKind {
    type Err = failure::Error;
    fn from_str(s: &str) -> Result<Self> {
        Self::from_identifier(s)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum GrammarEntityKind {
    AmountOfMoney,
    Duration,
    Number,
    Ordinal,
    Temperature,
    Datetime,
    Date,
    Time,
    DatePeriod,
    TimePeriod,
    Percentage,
}
impl GrammarEntityKind {
    pub fn all() -> &'static [GrammarEntityKind] {
        &[GrammarEntityKind::AmountOfMoney, GrammarEntityKind::Duration, GrammarEntityKind::Number, GrammarEntityKind::Ordinal, GrammarEntityKind::Temperature, GrammarEntityKind::Datetime, GrammarEntityKind::Date, GrammarEntityKind::Time, GrammarEntityKind::DatePeriod, GrammarEntityKind::TimePeriod, GrammarEntityKind::Percentage]
    }
    pub fn identifier(&self) -> &'static str {
        match self {
            GrammarEntityKind::AmountOfMoney => "snips/amountOfMoney",
            GrammarEntityKind::Duration => "snips/duration",
            GrammarEntityKind::Number => "snips/number",
            GrammarEntityKind::Ordinal => "snips/ordinal",
            GrammarEntityKind::Temperature => "snips/temperature",
            GrammarEntityKind::Datetime => "snips/datetime",
            GrammarEntityKind::Date => "snips/date",
            GrammarEntityKind::Time => "snips/time",
            GrammarEntityKind::DatePeriod => "snips/datePeriod",
            GrammarEntityKind::TimePeriod => "snips/timePeriod",
            GrammarEntityKind::Percentage => "snips/percentage",
        }
    }
    pub fn from_identifier(identifier: &str) -> Result<Self> {
        Self::all()
            .iter()
            .find(|k| k.identifier() == identifier)
            .cloned()
            .ok_or_else(|| OntologyError::UnknownEntityKind(identifier.to_string()).into())
    }
    pub fn description(&self) -> &'static str {
        self.identifier()
    }
    pub fn supported_languages(&self) -> &'static [Language] {
        Language::all()
    }
}
impl FromStr for GrammarEntityKind {
    type Err = failure::Error;
    fn from_str(s: &str) -> Result<Self> {
        Self::from_identifier(s)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum BuiltinGazetteerEntityKind {
    MusicAlbum,
    MusicArtist,
    MusicTrack,
    City,
    Country,
    Region,
}
impl BuiltinGazetteerEntityKind {
    pub fn all() -> &'static [BuiltinGazetteerEntityKind] {
        &[BuiltinGazetteerEntityKind::MusicAlbum, BuiltinGazetteerEntityKind::MusicArtist, BuiltinGazetteerEntityKind::MusicTrack, BuiltinGazetteerEntityKind::City, BuiltinGazetteerEntityKind::Country, BuiltinGazetteerEntityKind::Region]
    }
    pub fn identifier(&self) -> &'static str {
        match self {
            BuiltinGazetteerEntityKind::MusicAlbum => "snips/musicAlbum",
            BuiltinGazetteerEntityKind::MusicArtist => "snips/musicArtist",
            BuiltinGazetteerEntityKind::MusicTrack => "snips/musicTrack",
            BuiltinGazetteerEntityKind::City => "snips/city",
            BuiltinGazetteerEntityKind::Country => "snips/country",
            BuiltinGazetteerEntityKind::Region => "snips/region",
        }
    }
    pub fn from_identifier(identifier: &str) -> Result<Self> {
        Self::all()
            .iter()
            .find(|k| k.identifier() == identifier)
            .cloned()
            .ok_or_else(|| OntologyError::UnknownEntityKind(identifier.to_string()).into())
    }
    pub fn description(&self) -> &'static str {
        self.identifier()
    }
    pub fn supported_languages(&self) -> &'static [Language] {
        Language::all()
    }
}
impl FromStr for BuiltinGazetteerEntityKind {
    type Err = failure::Error;
    fn from_str(s: &str) -> Result<Self> {
        Self::from_identifier(s)
    }
}
pub trait IntoBuiltinEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind;
    fn try_from_builtin_kind(kind: BuiltinEntityKind) -> Option<Self> where Self: Sized;
}
impl IntoBuiltinEntityKind for GrammarEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind { BuiltinEntityKind::from_identifier(self.identifier()).unwrap() }
    fn try_from_builtin_kind(kind: BuiltinEntityKind) -> Option<Self> { Self::from_identifier(kind.identifier()).ok() }
}
impl IntoBuiltinEntityKind for BuiltinGazetteerEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind { BuiltinEntityKind::from_identifier(self.identifier()).unwrap() }
    fn try_from_builtin_kind(kind: BuiltinEntityKind) -> Option<Self> { Self::from_identifier(kind.identifier()).ok() }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct IntentParserResult {
    pub input: String,
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
    pub alternatives: Vec<IntentParserAlternative>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct IntentParserAlternative {
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentClassifierResult {
    pub intent_name: Option<String>,
    pub confidence_score: f32,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Slot {
    pub raw_value: String,
    pub value: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub range: Range<usize>,
    pub entity: String,
    pub slot_name: String,
    pub confidence_score: Option<f32>,
}
impl Slot {
    pub fn new_custom(value: String, range: Range<usize>, entity: String, slot_name: String, confidence_score: Option<f32>) -> Slot {
        Slot { raw_value: value.clone(), value: SlotValue::Custom(value.into()), alternatives: vec![], range, entity, slot_name, confidence_score }
    }
    pub fn with_slot_value(mut self, value: SlotValue) -> Slot { self.value = value; self }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct BuiltinEntity {
    pub value: String,
    pub range: Range<usize>,
    pub entity: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub entity_kind: BuiltinEntityKind,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum SlotValue {
    Custom(StringValue),
    Number(NumberValue),
    Ordinal(OrdinalValue),
    Percentage(PercentageValue),
    InstantTime(InstantTimeValue),
    TimeInterval(TimeIntervalValue),
    AmountOfMoney(AmountOfMoneyValue),
    Temperature(TemperatureValue),
    Duration(DurationValue),
    MusicAlbum(StringValue),
    MusicArtist(StringValue),
    MusicTrack(StringValue),
    City(StringValue),
    Country(StringValue),
    Region(StringValue),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct StringValue { pub value: String }
impl From<String> for StringValue { fn from(value: String) -> Self { StringValue { value } } }
impl<'a> From<&'a str> for StringValue { fn from(value: &'a str) -> Self { StringValue { value: value.to_string() } } }
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct NumberValue { pub value: f64 }
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct PercentageValue { pub value: f64 }
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct OrdinalValue { pub value: i64 }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TemperatureValue { pub value: f32, pub unit: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct AmountOfMoneyValue { pub value: f32, pub precision: Precision, pub unit: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct InstantTimeValue { pub value: String, pub grain: Grain, pub precision: Precision }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TimeIntervalValue { pub from: Option<String>, pub to: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DurationValue { pub years: i64, pub quarters: i64, pub months: i64, pub weeks: i64, pub days: i64, pub hours: i64, pub minutes: i64, pub seconds: i64, pub precision: Precision }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Grain { Year, Quarter, Month, Week, Day, Hour, Minute, Second }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Precision { Approximate, Exact }
