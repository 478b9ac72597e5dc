//! A dictionary for the generators, as fuzzers use them: the literals in the source of the crate under test. They only
//! steer what is generated. Literals that are not in `literals.txt` (those of the tree the checks were written for)
//! are preferred, as whatever depends on them has been looked at least.

use crate::gen::S;
use proptest::prelude::*;
use proptest::sample::select;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

const KNOWN: &str = include_str!("../literals.txt");

#[derive(Default)]
pub struct Dict {
    pub words: BTreeSet<String>,
    pub numbers: BTreeSet<u64>,
}

impl Dict {
    fn word(&mut self, w: &str) {
        if !w.is_empty() && w.chars().count() <= 80 {
            self.words.insert(w.to_owned());
        }
    }

    /// Add a string literal: as it is, and the pieces of a format string
    fn literal(&mut self, text: &str) {
        self.word(text);
        if text.contains('{') {
            for piece in text.split(['{', '}']).step_by(2) {
                self.word(piece);
            }
        }
    }

    /// Add the literals of a Rust source text
    pub fn scan(&mut self, source: &str) {
        let c: Vec<char> = source.chars().collect();
        let get = |i: usize| c.get(i).copied().unwrap_or('\0');
        let mut i = 0;
        while i < c.len() {
            match c[i] {
                '/' if get(i + 1) == '/' => {
                    while i < c.len() && c[i] != '\n' {
                        i += 1;
                    }
                }
                '/' if get(i + 1) == '*' => {
                    while i < c.len() && !(c[i] == '*' && get(i + 1) == '/') {
                        i += 1;
                    }
                    i += 2;
                }
                '"' => {
                    let (text, end) = quoted(&c, i + 1, '"');
                    self.literal(&text);
                    i = end;
                }
                'r' if get(i + 1) == '"' || (get(i + 1) == '#' && matches!(get(i + 2), '"' | '#')) => {
                    let hashes = c[i + 1..].iter().take_while(|c| **c == '#').count();
                    let start = i + 2 + hashes;
                    if get(start - 1) != '"' {
                        i += 1;
                        continue;
                    }
                    let mut end = start;
                    while end < c.len() && !(c[end] == '"' && (1..=hashes).all(|h| get(end + h) == '#')) {
                        end += 1;
                    }
                    self.literal(&c[start.min(end)..end].iter().collect::<String>());
                    i = end + 1 + hashes;
                }
                // not a lifetime
                '\'' if get(i + 1) == '\\' || get(i + 2) == '\'' => {
                    let (text, end) = quoted(&c, i + 1, '\'');
                    self.word(&text);
                    i = end;
                }
                d if d.is_ascii_digit() => {
                    let start = i;
                    while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                        i += 1;
                    }
                    if let Some(n) = parse_number(&c[start..i].iter().collect::<String>()) {
                        self.numbers.insert(n);
                    }
                }
                a if a.is_alphabetic() || a == '_' => {
                    while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                        i += 1;
                    }
                    // the prefix of a byte or raw string is looked at again
                    if i < c.len() && matches!(c[i], '"' | '#') && matches!(c[i - 1], 'r') {
                        i -= 1;
                        if !(get(i + 1) == '"' || get(i + 2) == '"') {
                            i += 1;
                        }
                    }
                }
                _ => i += 1,
            }
        }
    }
}

/// The text from `i` to the closing quote, and the position after that
fn quoted(c: &[char], mut i: usize, quote: char) -> (String, usize) {
    let mut text = String::new();
    while i < c.len() && c[i] != quote {
        if c[i] == '\\' {
            i += 1;
            match c.get(i).copied().unwrap_or('\0') {
                'n' => text.push('\n'),
                't' => text.push('\t'),
                'r' => text.push('\r'),
                '0' => text.push('\0'),
                'x' => {
                    let hex: String = c.iter().skip(i + 1).take(2).collect();
                    text.extend(u8::from_str_radix(&hex, 16).ok().map(char::from));
                    i += 2;
                }
                'u' => {
                    let hex: String = c.iter().skip(i + 2).take_while(|c| **c != '}').collect();
                    i += 2 + hex.chars().count();
                    text.extend(u32::from_str_radix(&hex.replace('_', ""), 16).ok().and_then(char::from_u32));
                }
                '\n' => {
                    while c.get(i + 1).map_or(false, |c| c.is_whitespace()) {
                        i += 1;
                    }
                }
                other => text.push(other),
            }
        } else {
            text.push(c[i]);
        }
        i += 1;
    }
    (text, i + 1)
}

fn parse_number(text: &str) -> Option<u64> {
    let t = text.replace('_', "").to_ascii_lowercase();
    for (prefix, radix) in [("0x", 16), ("0b", 2), ("0o", 8)] {
        if let Some(t) = t.strip_prefix(prefix) {
            let digits: String = t.chars().take_while(|c| c.is_digit(radix)).collect();
            return u64::from_str_radix(&digits, radix).ok();
        }
    }
    if let Some((m, e)) = t.split_once('e') {
        return Some(m.parse::<u64>().ok()?.saturating_mul(10u64.checked_pow(e.parse().ok()?)?));
    }
    t.chars().take_while(char::is_ascii_digit).collect::<String>().parse().ok()
}

fn read(dir: &Path, d: &mut Dict) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let path = e.path();
        if path.is_dir() {
            if e.file_name() != "target" {
                read(&path, d);
            }
        } else if path.extension().map_or(false, |e| e == "rs") {
            d.scan(&std::fs::read_to_string(&path).unwrap_or_default());
        }
    }
}

/// What is in the source now
pub fn scan_repo() -> Dict {
    let mut d = Dict::default();
    read(Path::new(concat!("/repo", "/crates")), &mut d);
    d
}

/// One line for every literal
pub fn list(d: &Dict) -> String {
    let words = d.words.iter().map(|w| serde_json::to_string(w).expect("text"));
    let numbers = d.numbers.iter().map(u64::to_string);
    words.chain(numbers).map(|l| l + "\n").collect()
}

pub struct Loaded {
    pub words: Vec<String>,
    pub numbers: Vec<u64>,
    /// Whether there is something that is not in the list
    pub new_words: bool,
    pub new_numbers: bool,
}

pub fn loaded() -> &'static Loaded {
    static LOADED: OnceLock<Loaded> = OnceLock::new();
    LOADED.get_or_init(|| {
        let d = scan_repo();
        let known: BTreeSet<&str> = KNOWN.lines().collect();
        let fresh: Vec<String> =
            d.words.iter().filter(|w| !known.contains(serde_json::to_string(w).expect("text").as_str())).cloned().collect();
        let fresh_numbers: Vec<u64> =
            d.numbers.iter().filter(|n| !known.contains(n.to_string().as_str())).copied().collect();
        Loaded {
            new_words: !fresh.is_empty(),
            new_numbers: !fresh_numbers.is_empty(),
            words: if fresh.is_empty() { d.words.into_iter().collect() } else { fresh },
            numbers: if fresh_numbers.is_empty() { d.numbers.into_iter().collect() } else { fresh_numbers },
        }
    })
}

/// How often words are used: `many` if there are new ones, and else `few`
pub fn weight(few: u32, many: u32) -> u32 {
    if loaded().words.is_empty() {
        0
    } else if loaded().new_words {
        many
    } else {
        few
    }
}

pub fn number_weight(few: u32, many: u32) -> u32 {
    if loaded().numbers.is_empty() {
        0
    } else if loaded().new_numbers {
        many
    } else {
        few
    }
}

pub fn word() -> S<String> {
    let mut words = loaded().words.clone();
    if words.is_empty() {
        words.push(String::new());
    }
    select(words).boxed()
}

/// A number that occurs in the source, or one next to it
pub fn number() -> S<u64> {
    let mut numbers = loaded().numbers.clone();
    if numbers.is_empty() {
        numbers.push(0);
    }
    (select(numbers), -1i8..=1)
        .prop_map(|(n, d)| match d {
            -1 => n.saturating_sub(1),
            0 => n,
            _ => n.saturating_add(1),
        })
        .boxed()
}

/// Like `number`, but at most `max`
pub fn number_upto(max: u64) -> S<u64> {
    let mut numbers: Vec<u64> = loaded().numbers.iter().copied().filter(|n| *n < max).collect();
    if numbers.is_empty() {
        numbers.push(0);
    }
    (select(numbers), -1i8..=1)
        .prop_map(|(n, d)| match d {
            -1 => n.saturating_sub(1),
            0 => n,
            _ => n + 1,
        })
        .boxed()
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn literals() {
        let mut d = Dict::default();
        d.scan("a(\"x\\ny\", 'c', '\\'', r#\"q\"q\"#, 1_000u32, 0xff, b\"z\") // \"no\" 77\n fn f<'a>(x: &'a str) { f!(\"p{x}q\") } br\"w\" r\"v\" 1.5");
        let words: Vec<&str> = d.words.iter().map(String::as_str).collect();
        assert_eq!(words, ["'", "c", "p", "p{x}q", "q", "q\"q", "v", "w", "x\ny", "z"]);
        assert_eq!(d.numbers.into_iter().collect::<Vec<_>>(), [1, 5, 255, 1000]);
    }
}
