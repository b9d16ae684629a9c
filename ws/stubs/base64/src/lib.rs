#![allow(warnings)]
//! Stand-in for base64 0.10 (not available offline).
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DecodeError {}
const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn encode<I: ?Sized + AsRef<[u8]>>(input: &I) -> String {
    let mut out = String::new();
    for c in input.as_ref().chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(T[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}
pub fn decode<I: ?Sized + AsRef<[u8]>>(input: &I) -> Result<Vec<u8>, DecodeError> {
    let s: Vec<u8> = input.as_ref().to_vec();
    let end = s.iter().rposition(|c| *c != b'=').map(|p| p + 1).unwrap_or(0);
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for (i, c) in s[..end].iter().enumerate() {
        let v = T.iter().position(|t| t == c).ok_or(DecodeError::InvalidByte(i, *c))? as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Ok(out)
}
