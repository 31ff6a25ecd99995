//! Constants of the code under exploration (see runner/lexicon.py), as additions to the enumerated alphabets.
use crate::model::MAX;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Lex {
    pub ints: Vec<u32>,
    pub strings: Vec<String>,
}

pub fn lex() -> &'static Lex {
    static L: OnceLock<Lex> = OnceLock::new();
    L.get_or_init(|| {
        let mut l = Lex::default();
        let text = std::env::var("VERIF_LEXICON").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for line in text.lines() {
            match line.split_at_checked(2) {
                Some(("i ", n)) => l.ints.extend(n.parse::<u32>()),
                Some(("s ", h)) => {
                    let bytes: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                    l.strings.extend(String::from_utf8(bytes));
                }
                _ => {}
            }
        }
        l
    })
}

fn around(values: impl Iterator<Item = u32>, limit: u32) -> Vec<u32> {
    let mut v: Vec<u32> = values.flat_map(|x| [x.wrapping_sub(1), x, x.wrapping_add(1)]).filter(|&x| x <= limit).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Every harvested number and its neighbours.
pub fn numbers() -> Vec<u32> {
    around(lex().ints.iter().copied(), u32::MAX)
}

/// Code points: harvested numbers and neighbours, with the fixed limits; 0..=33 thinned (they are in other suites).
pub fn codepoints() -> Vec<u32> {
    let stock = [0, 65, 127, 255, 0xD800, 0xDFFF, 0xFFFF, MAX];
    around(lex().ints.iter().copied().filter(|&x| x > 32).chain(stock), MAX)
}

/// Lengths up to a limit.
pub fn lengths(limit: u32) -> Vec<usize> {
    around(lex().ints.iter().copied(), limit).into_iter().map(|x| x as usize).collect()
}
