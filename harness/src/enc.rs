//! Encoders and decoders written for this harness, independent of the ones the library uses.

use serde_json::Value;

const B64URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
const B64STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn b64_with(alphabet: &[u8; 64], bytes: &[u8]) -> String {
    let mut out = String::new();
    for chunk in bytes.chunks(3) {
        let n = u32::from(chunk[0]) << 16
            | u32::from(*chunk.get(1).unwrap_or(&0)) << 8
            | u32::from(*chunk.get(2).unwrap_or(&0));
        for i in 0..=chunk.len() {
            out.push(alphabet[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    out
}

/// base64url without padding
pub fn b64url(bytes: &[u8]) -> String {
    b64_with(B64URL, bytes)
}

/// base64 without padding
pub fn b64std(bytes: &[u8]) -> String {
    b64_with(B64STD, bytes)
}

/// Strict base64url decoding (no padding, canonical trailing bits)
pub fn unb64url(text: &str) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let digits: Option<Vec<u32>> =
        text.bytes().map(|c| B64URL.iter().position(|a| *a == c).map(|p| p as u32)).collect();
    for chunk in digits?.chunks(4) {
        let mut n = 0;
        for i in 0..4 {
            n = n << 6 | chunk.get(i).copied().unwrap_or(0);
        }
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        let keep = match chunk.len() {
            4 => 3,
            3 if n & 0xff == 0 => 2,
            2 if n & 0xffff == 0 => 1,
            _ => return None,
        };
        out.extend(&bytes[..keep]);
    }
    Some(out)
}

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// base58btc
pub fn b58(bytes: &[u8]) -> String {
    let zeros = bytes.iter().take_while(|b| **b == 0).count();
    let mut digits: Vec<u8> = vec![];
    for b in &bytes[zeros..] {
        let mut carry = u32::from(*b);
        for d in &mut digits {
            carry += u32::from(*d) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let mut out = "1".repeat(zeros);
    out.extend(digits.iter().rev().map(|d| B58[*d as usize] as char));
    out
}

/// lower-case hexadecimal
pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}

/// Strict percent-decoding of a query value to text
pub fn percent_decode(text: &str) -> Option<String> {
    let bytes = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < bytes.len() {
        match bytes[i] {
            b'%' => {
                let hex = std::str::from_utf8(bytes.get(i + 1..i + 3)?).ok()?;
                if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return None;
                }
                out.push(u8::from_str_radix(hex, 16).ok()?);
                i += 3;
            }
            b => {
                out.push(b);
                i += 1;
            }
        }
    }
    String::from_utf8(out).ok()
}

/// May this character occur unescaped in the value of a query parameter (RFC 3986 `query` without the characters
/// that separate parameters or that form decoding changes)?
pub fn is_plain_query_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || "-._~!$'()*,;:@/?".contains(c)
}

/// How JSON is written
#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Style {
    /// 0: compact, 1: spaces, 2: newlines and tabs
    pub space: u8,
    /// 0: minimal escapes, 1: all non-ASCII and `/` escaped, 2: also every other ASCII letter of member values
    pub escape: u8,
}

impl Style {
    pub const PLAIN: Style = Style { space: 0, escape: 0 };

    fn gap(self) -> &'static str {
        match self.space {
            0 => "",
            1 => " ",
            _ => "\n\t\r ",
        }
    }
}

fn write_text(out: &mut String, text: &str, style: Style, is_name: bool) {
    out.push('"');
    for (i, c) in text.chars().enumerate() {
        let escape = match c {
            '"' => {
                out.push_str("\\\"");
                continue;
            }
            '\\' => {
                out.push_str("\\\\");
                continue;
            }
            '/' if style.escape > 0 => {
                out.push_str("\\/");
                continue;
            }
            '\n' if style.escape == 0 => {
                out.push_str("\\n");
                continue;
            }
            c if (c as u32) < 0x20 => true,
            c if !c.is_ascii() => style.escape > 0,
            _ => style.escape > 1 && !is_name && i % 2 == 0,
        };
        if escape {
            let mut units = [0u16; 2];
            for unit in c.encode_utf16(&mut units) {
                out.push_str(&format!("\\u{unit:04x}"));
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

/// Write a JSON value in a style
pub fn write_value(out: &mut String, value: &Value, style: Style) {
    let gap = style.gap();
    match value {
        Value::String(s) => write_text(out, s, style, false),
        Value::Array(items) => {
            out.push('[');
            for (i, v) in items.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(gap);
                write_value(out, v, style);
            }
            out.push_str(gap);
            out.push(']');
        }
        Value::Object(members) => {
            let members: Vec<(String, Value)> = members.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            out.push_str(&write_object(&members, style));
        }
        other => out.push_str(&other.to_string()),
    }
}

/// Write a JSON object with its members in the given order
pub fn write_object(members: &[(String, Value)], style: Style) -> String {
    let gap = style.gap();
    let mut out = String::from("{");
    for (i, (name, value)) in members.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(gap);
        write_text(&mut out, name, style, true);
        out.push_str(gap);
        out.push(':');
        out.push_str(gap);
        write_value(&mut out, value, style);
    }
    out.push_str(gap);
    out.push('}');
    out
}

/// Remove members that are null, recursively in objects (not inside arrays' scalar elements)
pub fn without_nulls(value: &Value) -> Value {
    match value {
        Value::Object(m) => Value::Object(
            m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), without_nulls(v))).collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(without_nulls).collect()),
        other => other.clone(),
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn codecs() {
        assert_eq!(b64url(b"\xff\xfe\xfd\xfc"), "__79_A");
        assert_eq!(unb64url("__79_A").unwrap(), b"\xff\xfe\xfd\xfc");
        assert_eq!(unb64url("__79_B"), None);
        assert_eq!(b58(b"\0\0hello world"), "11StV1DL6CwTryKyV");
        assert_eq!(percent_decode("a%20%C3%A9+"), Some("a é+".into()));
        assert_eq!(percent_decode("%+1"), None);
    }
}
