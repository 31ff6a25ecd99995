//! C07 (tables against the Unicode data) and C08 (partition, stability), both complete; C15.
use crate::engine::{guard, hash_words, Suite};
use crate::model::*;
use crate::queries::{all_versions, M};

/// Which categories contain each code point, by one route.
fn lists(m: &Model, ver: usize, route: usize) -> Result<Vec<Vec<Iv>>, String> {
    let v = m.vers[ver].v;
    let name = m.vers[ver].name;
    (0..30)
        .map(|i| {
            let c = CATS[i].2;
            let call = ["table()[c as usize]", "intervals_for(c)", "query().include_categories(c).intervals()"][route];
            guard(|| match route {
                0 => v.table()[c as usize].to_vec(),
                1 => v.intervals_for(c).to_vec(),
                _ => v.query().include_categories(c).intervals().expect("valid query"),
            })
            .map_err(|p| format!("{name}: {call} for {}: {p}", CATS[i].0))
        })
        .collect()
}

pub fn c07(m: &M) -> Vec<Suite> {
    let m = m.clone();
    let n = m.vers.len();
    vec![Suite::new(
        "code-points",
        "every code point 0..=0x10FFFF x every category x every version x 3 routes (table, intervals_for, query): complete",
        n * 3 * 16,
        move |u, ctx| {
            let (chunk, rest) = ((u % 16) as u32, u / 16);
            let (ver, route) = (rest % n, rest / n);
            let Some(reference) = &m.vers[ver].reference else { return Ok(()) };
            let lists = lists(&m, ver, route)?;
            if route == 0 && m.vers[ver].v.table().len() != 30 {
                return Err(format!("{}: table() has {} lists", m.vers[ver].name, m.vers[ver].v.table().len()));
            }
            let mut cells = vec![0u32; 0x11000];
            let base = chunk * 0x11000;
            for (i, l) in lists.iter().enumerate() {
                for &(a, b) in l {
                    if b > MAX || a > b {
                        return Err(format!("{}: {} lists ({a:#X}, {b:#X})", m.vers[ver].name, CATS[i].0));
                    }
                    for cp in a.max(base)..=b.min(base + 0x10FFF) {
                        cells[(cp - base) as usize] |= 1 << i;
                    }
                }
            }
            for (k, &cell) in cells.iter().enumerate() {
                ctx.step();
                let cp = base + k as u32;
                let want = reference.mask_at(cp);
                if k == 0 || cell != cells[k - 1] {
                    ctx.outcome(hash_words([ver as u64, u64::from(cp), u64::from(want)]));
                }
                if cell != want {
                    return Err(format!(
                        "Unicode {}: U+{cp:04X} is listed under [{}] through {}, the Unicode Character Database says {}",
                        m.vers[ver].name,
                        mask_names(cell),
                        ["table()", "intervals_for(category)", "a single-category query"][route],
                        mask_names(want)
                    ));
                }
            }
            ctx.sample(|| format!("Unicode {} route {route}: U+{base:04X}.. is {}", m.vers[ver].name, mask_names(cells[0])));
            Ok(())
        },
    )]
}

pub fn c08(m: &M) -> Vec<Suite> {
    let n = m.vers.len();
    let mut out = vec![];
    {
        let m = m.clone();
        out.push(Suite::new("partition", "every version: 30 canonical lists, every code point in exactly one: complete", n, move |ver, ctx| {
            let name = m.vers[ver].name;
            let table = guard(|| m.vers[ver].v.table()).map_err(|p| format!("{name}: {p}"))?;
            if table.len() != 30 {
                return Err(format!("{name}: table() has {} lists", table.len()));
            }
            for (i, l) in table.iter().enumerate() {
                ctx.step();
                ctx.outcome(hash_list(l));
                if let Some(p) = canonical_problem(l) {
                    return Err(format!("{name}: list {i}: {p}"));
                }
            }
            let mut owner = vec![255u8; MAX as usize + 1];
            for (i, l) in table.iter().enumerate() {
                for &(a, b) in *l {
                    for cp in a..=b {
                        if owner[cp as usize] != 255 {
                            return Err(format!("{name}: U+{cp:04X} is in lists {} and {i}", owner[cp as usize]));
                        }
                        owner[cp as usize] = i as u8;
                    }
                }
            }
            for (cp, &o) in owner.iter().enumerate() {
                ctx.step();
                if o == 255 {
                    return Err(format!("{name}: U+{cp:04X} is in no list"));
                }
            }
            ctx.sample(|| format!("{name}: U+0041 in list {}", owner[0x41]));
            Ok(())
        }));
    }
    {
        let m = m.clone();
        let stable: u32 = ["Cc", "Cs", "Co"].iter().map(|x| 1 << CATS.iter().position(|c| c.0 == *x).unwrap()).sum();
        let cn: u32 = 1 << CATS.iter().position(|c| c.0 == "Cn").unwrap();
        out.push(Suite::new("stability", "every ordered pair of versions (older, newer) x every code point: complete", n * n, move |u, ctx| {
            let (old, new) = (u % n, u / n);
            if old >= new {
                return Ok(());
            }
            let (a, b) = (&m.vers[old], &m.vers[new]);
            // Both run lists in lockstep; every code point is in one step.
            let (mut i, mut j) = (0, 0);
            while i < a.own.runs.len() && j < b.own.runs.len() {
                let (ra, rb) = (a.own.runs[i], b.own.runs[j]);
                let (lo, hi) = (ra.0.max(rb.0), ra.1.min(rb.1));
                ctx.step();
                ctx.outcome(hash_words([u64::from(ra.2) << 32 | u64::from(rb.2), u64::from(lo)]));
                if ra.2 & cn == 0 && ra.2 != 0 && rb.2 & cn != 0 {
                    return Err(format!("U+{lo:04X} is {} in {} but unassigned in {}", mask_names(ra.2), a.name, b.name));
                }
                if ra.2 & stable != rb.2 & stable {
                    return Err(format!("U+{lo:04X} is {} in {} but {} in {}", mask_names(ra.2), a.name, mask_names(rb.2), b.name));
                }
                if ra.1 == hi {
                    i += 1;
                }
                if rb.1 == hi {
                    j += 1;
                }
            }
            ctx.sample(|| format!("{} -> {}", a.name, b.name));
            Ok(())
        }));
    }
    out
}

pub fn c15(m: &M) -> Vec<Suite> {
    let n = all_versions(m).len();
    let m = m.clone();
    vec![Suite::new("versions", "every version, evaluated three times and through a reference: complete", n, move |ver, ctx| {
        let x = &m.vers[ver];
        let mut want: Vec<usize> = (0..30).filter(|&i| CATS[i].0 != "Cc" && CATS[i].0 != "Cs").collect();
        // CATS is in alphabetical order, so a stable sort leaves ties alphabetical.
        want.sort_by_key(|&i| x.v.table()[CATS[i].2 as usize].len());
        want.push(CATS.iter().position(|c| c.0 == "Cc").unwrap());
        want.push(CATS.iter().position(|c| c.0 == "Cs").unwrap());
        ctx.outcome(hash_words(want.iter().map(|&i| i as u64)));
        for _ in 0..3 {
            let got = guard(|| x.v.normalized_categories()).map_err(|p| format!("{}: normalized_categories(): {p}", x.name))?;
            let got: Vec<usize> = got.iter().map(|c| cat_index(*c)).collect();
            for k in 0..30 {
                ctx.step();
                if got.get(k) != want.get(k) {
                    let names = |v: &[usize]| v.iter().map(|&i| CATS[i].0).collect::<Vec<_>>().join(" ");
                    return Err(format!("{}: normalized_categories() is\n  {}\n  expected\n  {}", x.name, names(&got), names(&want)));
                }
            }
        }
        ctx.sample(|| format!("{}: {}", x.name, want.iter().map(|&i| CATS[i].0).collect::<Vec<_>>().join(" ")));
        Ok(())
    })]
}
