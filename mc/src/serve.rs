//! What the core library answers, for the explorers of the Python binding: one request per line.
//!
//! `Q version include exclude min max include-chars exclude-chars` (tab separated; `-` for not given; categories joined
//! with commas; characters as hexadecimal code points joined with commas), `N version`, `G version names...`, `V`.
use std::io::{BufRead, BufWriter, Write};
use unicode_intervals::{as_general_categories, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

fn set(s: &str) -> Option<UnicodeCategorySet> {
    (s != "-").then(|| {
        let mut out = UnicodeCategorySet::new();
        for n in s.split(',').filter(|n| !n.is_empty()) {
            out |= n.parse::<UnicodeCategory>().expect("category");
        }
        out
    })
}
fn chars(s: &str) -> String {
    s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| char::from_u32(u32::from_str_radix(x, 16).expect("hex")).expect("char")).collect()
}

pub fn answer(line: &str) -> String {
    let f: Vec<&str> = line.split('\t').collect();
    let version = |s: &str| if s == "-" { UnicodeVersion::latest() } else { s.parse().expect("version") };
    match f[0] {
        "Q" => {
            let mut b = version(f[1]).query();
            if let Some(s) = set(f[2]) {
                b = b.include_categories(s);
            }
            if let Some(s) = set(f[3]) {
                b = b.exclude_categories(s);
            }
            if f[4] != "-" {
                b = b.min_codepoint(f[4].parse().expect("min"));
            }
            if f[5] != "-" {
                b = b.max_codepoint(f[5].parse().expect("max"));
            }
            let (i, e) = (chars(f[6]), chars(f[7]));
            match b.include_characters(&i).exclude_characters(&e).intervals() {
                Ok(l) => l.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(" "),
                Err(e) => format!("E {e:?}"),
            }
        }
        "N" => version(f[1]).normalized_categories().iter().map(|c| c.as_str()).collect::<Vec<_>>().join(" "),
        "G" => match as_general_categories(&f[2..], version(f[1])) {
            Ok(l) => l.iter().map(|c| c.as_str()).collect::<Vec<_>>().join(" "),
            Err(e) => format!("E {e:?}"),
        },
        "V" => {
            let mut l: Vec<&str> = UnicodeVersion::ALL.iter().map(|v| v.as_str()).collect();
            l.push(UnicodeVersion::latest().as_str());
            l.join(" ")
        }
        _ => "?".into(),
    }
}

pub fn serve() {
    let out = std::io::stdout();
    let mut out = BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let _ = writeln!(out, "{}", {
            let line = line.expect("request");
            crate::engine::guard(|| answer(&line)).unwrap_or_else(|_| "P".into())
        });
    }
}
