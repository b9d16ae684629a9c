#![allow(warnings)]
//! Stand-in for snips-nlu-utils 0.9.1 (not available offline).
pub mod language {
    #[allow(non_camel_case_types)]
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }
    impl Language {
        pub fn all() -> &'static [Language] {
            use Language::*;
            &[DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR]
        }
    }
    impl std::str::FromStr for Language {
        type Err = ::failure::Error;
        fn from_str(it: &str) -> Result<Language, failure::Error> {
            use Language::*;
            Ok(match &*it.to_lowercase() {
                "de" => DE, "en" => EN, "es" => ES, "fr" => FR, "it" => IT, "ja" => JA, "ko" => KO,
                "pt_pt" => PT_PT, "pt_br" => PT_BR,
                _ => return Err(failure::err_msg("Unknown language")),
            })
        }
    }
    impl ToString for Language {
        fn to_string(&self) -> String {
            format!("{:?}", self).to_lowercase()
        }
    }
}
pub mod range {
    use std::ops::Range;
    pub fn ranges_overlap<T: PartialOrd>(r1: &Range<T>, r2: &Range<T>) -> bool {
        r1.start < r2.end && r2.start < r1.end
    }
}
pub mod string {
    use std::ops::Range;
    pub fn convert_to_char_index(string: &str, byte_index: usize) -> usize {
        string.char_indices().take_while(|(b, _)| *b < byte_index).count()
    }
    pub fn convert_to_byte_index(string: &str, char_index: usize) -> usize {
        string.char_indices().nth(char_index).map(|(b, _)| b).unwrap_or_else(|| string.len())
    }
    pub fn convert_to_char_range(string: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_char_index(string, range.start)..convert_to_char_index(string, range.end)
    }
    pub fn convert_to_byte_range(string: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_byte_index(string, range.start)..convert_to_byte_index(string, range.end)
    }
    pub fn substring_with_char_range(original: String, range: &Range<usize>) -> String {
        original.chars().skip(range.start).take(range.end.saturating_sub(range.start)).collect()
    }
    pub fn suffix_from_char_index(original: String, index: usize) -> String {
        original.chars().skip(index).collect()
    }
    pub fn prefix_until_char_index(original: String, index: usize) -> String {
        original.chars().take(index).collect()
    }
    pub fn remove_diacritics(s: &str) -> String {
        const P: &[(char, &str)] = &[
            ('à', "a"), ('á', "a"), ('â', "a"), ('ä', "a"), ('é', "e"), ('è', "e"), ('ê', "e"), ('ë', "e"),
            ('í', "i"), ('î', "i"), ('ï', "i"), ('ó', "o"), ('ô', "o"), ('ö', "o"), ('ú', "u"), ('û', "u"),
            ('ü', "u"), ('ù', "u"), ('ç', "c"), ('ñ', "n"),
        ];
        s.chars()
            .map(|c| P.iter().find(|(p, _)| *p == c).map(|(_, r)| r.to_string()).unwrap_or_else(|| c.to_string()))
            .collect()
    }
    pub fn normalize(s: &str) -> String {
        remove_diacritics(&s.trim().to_lowercase())
    }
    pub fn get_shape(string: &str) -> &'static str {
        let mut first = true;
        let (mut lower, mut upper, mut title) = (true, true, true);
        if string.is_empty() {
            return "xX";
        }
        for c in string.chars() {
            lower &= c.is_lowercase();
            upper &= c.is_uppercase();
            title &= if first { c.is_uppercase() } else { c.is_lowercase() };
            first = false;
        }
        if lower { "xxx" } else if title { "Xxx" } else if upper { "XXX" } else { "xX" }
    }
    pub fn hash_str_to_i32(input: &str) -> i32 {
        hash_bytes_to_i32(input.as_bytes())
    }
    pub fn hash_bytes_to_i32(b: &[u8]) -> i32 {
        let (c1, c2) = (0xcc9e_2d51u32, 0x1b87_3593u32);
        let mut h = 0u32;
        let mix = |k: u32| k.wrapping_mul(c1).rotate_left(15).wrapping_mul(c2);
        let mut it = b.chunks_exact(4);
        for c in &mut it {
            let k = u32::from(c[0]) | u32::from(c[1]) << 8 | u32::from(c[2]) << 16 | u32::from(c[3]) << 24;
            h = (h ^ mix(k)).rotate_left(13).wrapping_mul(5).wrapping_add(0xe654_6b64);
        }
        let mut k = 0;
        for (i, c) in it.remainder().iter().enumerate() {
            k |= u32::from(*c) << (8 * i);
        }
        h ^= mix(k);
        h ^= b.len() as u32;
        h = (h ^ h >> 16).wrapping_mul(0x85eb_ca6b);
        h = (h ^ h >> 13).wrapping_mul(0xc2b2_ae35);
        (h ^ h >> 16) as i32
    }
}
pub mod token {
    use crate::language::Language;
    use std::ops::Range;
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Token {
        pub value: String,
        pub range: Range<usize>,
        pub char_range: Range<usize>,
        pub normalized_value: String,
    }
    impl Token {
        pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> Self {
            let normalized_value = crate::string::normalize(&value);
            Token { value, range, char_range, normalized_value }
        }
        pub fn normalized_value(&self) -> String {
            self.normalized_value.clone()
        }
    }
    pub fn tokenize(input: &str, _language: Language) -> Vec<Token> {
        let mut out: Vec<Token> = vec![];
        let mut cur: Option<(usize, usize, String)> = None;
        let mut flush = |cur: &mut Option<(usize, usize, String)>, out: &mut Vec<Token>| {
            if let Some((b, c, s)) = cur.take() {
                let (bl, cl) = (s.len(), s.chars().count());
                out.push(Token::new(s, b..b + bl, c..c + cl));
            }
        };
        for (ci, (bi, ch)) in input.char_indices().enumerate() {
            if ch.is_alphanumeric() || ch == '_' {
                match cur {
                    Some((_, _, ref mut s)) => s.push(ch),
                    None => cur = Some((bi, ci, ch.to_string())),
                }
            } else {
                flush(&mut cur, &mut out);
                if !ch.is_whitespace() && "?!&%$€£¥".contains(ch) {
                    out.push(Token::new(ch.to_string(), bi..bi + ch.len_utf8(), ci..ci + 1));
                }
            }
        }
        flush(&mut cur, &mut out);
        out
    }
    pub fn tokenize_light(input: &str, language: Language) -> Vec<String> {
        tokenize(input, language).into_iter().map(|t| t.value).collect()
    }
    pub fn compute_all_ngrams<'a>(tokens: &[&'a str], max_ngram_size: usize) -> Vec<(String, Vec<usize>)> {
        let mut out = vec![];
        for start in 0..tokens.len() {
            let mut last = String::new();
            let mut ixs = vec![];
            for ix in start..(start + max_ngram_size).min(tokens.len()) {
                if !last.is_empty() {
                    last.push(' ');
                }
                last.push_str(tokens[ix]);
                ixs.push(ix);
                out.push((last.clone(), ixs.clone()));
            }
        }
        out
    }
}
