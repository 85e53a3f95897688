//! Reference lexer: longest match wins, ties go to the earlier rule; text no rule accepts becomes
//! an ERROR token that extends to the next place where a rule applies.
use crate::langs::Lang;
use crate::refeng::Tok;
use regex::Regex;

pub type Ext = fn(&str) -> Option<usize>;

pub struct RefLexer {
    pub rules: Vec<(usize, Regex, Option<Ext>)>,
}

/// `r`, hashes, quote ... quote, the same hashes
pub fn raw_string(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let n = b[1..].iter().take_while(|&&c| c == b'#').count();
    let mut i = 1 + n + 1;
    while i + 1 + n <= b.len() {
        if b[i] == b'"' && b[i + 1..i + 1 + n].iter().all(|&c| c == b'#') {
            return Some(i + 1 + n);
        }
        i += 1;
    }
    None
}

/// nested, unterminated ones extend to the end of the text
pub fn block_comment(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let (mut depth, mut i) = (0, 0);
    while i < b.len() {
        if b[i..].starts_with(b"/*") {
            depth += 1;
            i += 2;
        } else if b[i..].starts_with(b"*/") {
            depth -= 1;
            i += 2;
            if depth == 0 {
                break;
            }
        } else {
            i += 1;
        }
    }
    Some(i)
}

impl RefLexer {
    pub fn of(rules: &[(usize, String, Option<Ext>)]) -> RefLexer {
        RefLexer { rules: rules.iter().map(|r| (r.0, Regex::new(&format!("\\A(?:{})", r.1)).unwrap(), r.2)).collect() }
    }

    fn valid(&self, s: &str) -> Option<(usize, usize)> {
        let mut best: Option<(usize, usize)> = None;
        for (i, r) in self.rules.iter().enumerate() {
            if let Some(m) = r.1.find(s) {
                if best.map_or(true, |b| m.end() > b.1) {
                    best = Some((i, m.end()));
                }
            }
        }
        let (i, len) = best?;
        let len = match self.rules[i].2 {
            Some(f) => f(s)?,
            None => len,
        };
        Some((self.rules[i].0, len))
    }

    pub fn lex(&self, text: &str) -> Vec<Tok> {
        let mut out = Vec::new();
        let mut at = 0;
        while at < text.len() {
            let (ty, len) = match self.valid(&text[at..]) {
                Some(t) => t,
                None => {
                    let mut len = 0;
                    for c in text[at..].chars() {
                        len += c.len_utf8();
                        if self.valid(&text[at + len..]).is_some() {
                            break;
                        }
                    }
                    (0, len)
                }
            };
            out.push(Tok { ty, start: at, end: at + len });
            at += len;
        }
        out
    }
}

impl Lang {
    pub fn ref_lex(&self, text: &str) -> Vec<Tok> {
        self.lexer.lex(text)
    }
    pub fn is_ws(&self, ty: usize) -> bool {
        self.types[ty].1
    }
}
