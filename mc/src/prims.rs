//! C23: the interval helpers behind the crate's `__benchmark_internals` feature.
#![cfg(feature = "internals")]
use crate::engine::{guard, Ctx, Suite};
use crate::model::*;
use unicode_intervals::internals::intervals as prims;

/// The helpers are called through these, so that it does not matter how they take and give back their lists.
struct By<const K: u8>;

trait Merge<K> {
    fn call(&self, list: &[Iv]) -> Vec<Iv>;
}
impl<F: Fn(&mut Vec<Iv>)> Merge<By<0>> for F {
    fn call(&self, list: &[Iv]) -> Vec<Iv> {
        let mut v = list.to_vec();
        self(&mut v);
        v
    }
}
impl<F: Fn(Vec<Iv>) -> Vec<Iv>> Merge<By<1>> for F {
    fn call(&self, list: &[Iv]) -> Vec<Iv> {
        self(list.to_vec())
    }
}
impl<F: Fn(&[Iv]) -> Vec<Iv>> Merge<By<2>> for F {
    fn call(&self, list: &[Iv]) -> Vec<Iv> {
        self(list)
    }
}
impl<F: Fn(&mut Vec<Iv>) -> &mut Vec<Iv>> Merge<By<3>> for F {
    fn call(&self, list: &[Iv]) -> Vec<Iv> {
        let mut v = list.to_vec();
        self(&mut v).to_vec()
    }
}

trait Subtract<K> {
    fn call(&self, a: &[Iv], b: &[Iv]) -> Vec<Iv>;
}
impl<F: Fn(Vec<Iv>, &[Iv]) -> Vec<Iv>> Subtract<By<0>> for F {
    fn call(&self, a: &[Iv], b: &[Iv]) -> Vec<Iv> {
        self(a.to_vec(), b)
    }
}
impl<F: Fn(&[Iv], &[Iv]) -> Vec<Iv>> Subtract<By<1>> for F {
    fn call(&self, a: &[Iv], b: &[Iv]) -> Vec<Iv> {
        self(a, b)
    }
}
impl<F: Fn(Vec<Iv>, Vec<Iv>) -> Vec<Iv>> Subtract<By<2>> for F {
    fn call(&self, a: &[Iv], b: &[Iv]) -> Vec<Iv> {
        self(a.to_vec(), b.to_vec())
    }
}
impl<F: Fn(&mut Vec<Iv>, &[Iv])> Subtract<By<3>> for F {
    fn call(&self, a: &[Iv], b: &[Iv]) -> Vec<Iv> {
        let mut v = a.to_vec();
        self(&mut v, b);
        v
    }
}

fn merged<K>(f: &impl Merge<K>, list: &[Iv]) -> Vec<Iv> {
    f.call(list)
}

fn subtracted<K>(f: &impl Subtract<K>, a: &[Iv], b: &[Iv]) -> Vec<Iv> {
    f.call(a, b)
}

fn check_merge(list: &[Iv], ctx: &mut Ctx) -> Result<(), String> {
    let want = normalise(list);
    ctx.step();
    ctx.outcome(hash_list(&want));
    let got = guard(|| merged(&prims::merge, list)).map_err(|p| format!("merge({}): {p}", show(list)))?;
    if got != want {
        return Err(format!("merge({}) = {}, expected {}", show(list), show(&got), show(&want)));
    }
    Ok(())
}

fn check_subtract(a: &[Iv], b: &[Iv], want: &[Iv], ctx: &mut Ctx) -> Result<(), String> {
    ctx.step();
    let got = guard(|| subtracted(&prims::subtract, a, b)).map_err(|p| format!("subtract({}, {}): {p}", show(a), show(b)))?;
    if got != want {
        return Err(format!("subtract({}, {}) = {}, expected {}", show(a), show(b), show(&got), show(want)));
    }
    Ok(())
}

fn check_str(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let mut p: Vec<u32> = s.chars().map(u32::from).collect();
    p.sort_unstable();
    p.dedup();
    let want = from_points(p);
    ctx.step();
    ctx.outcome(hash_list(&want));
    let got = guard(|| Vec::<Iv>::from(prims::from_str(s))).map_err(|p| format!("from_str({}): {p}", short(s)))?;
    if got != want {
        return Err(format!("from_str({}) = {}, expected {}", short(s), show(&got), show(&want)));
    }
    Ok(())
}

/// The canonical list of the bits of `k` laid out from `base`.
fn of_bits(k: u64, base: u32) -> Vec<Iv> {
    from_points((0..64).filter(|i| k >> i & 1 == 1).map(|i| base + i as u32))
}

pub fn c23(thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    let bases = |w: u32| vec![0, 250, 0xD7FC, MAX + 1 - w];
    // (domain, list length)
    for (dom, len) in if thorough { vec![(12u32, 3usize), (8, 4), (5, 5), (4, 6), (3, 7)] } else { vec![(10, 3), (6, 4), (4, 5), (3, 6)] } {
        let mut ivs: Vec<Iv> = vec![];
        for a in 0..dom {
            for b in a..dom {
                ivs.push((a, b));
            }
        }
        let bs = bases(dom);
        let n = ivs.len();
        out.push(Suite::new(
            &format!("merge-{dom}-{len}"),
            &format!("all lists of up to {len} of the {n} intervals over {dom} points, in every order, at {} positions", bs.len()),
            n * bs.len(),
            move |u, ctx| {
                let base = bs[u / n];
                let sh: Vec<Iv> = ivs.iter().map(|x| (x.0 + base, x.1 + base)).collect();
                if u % n == 0 {
                    check_merge(&[], ctx)?;
                }
                let mut list = vec![sh[u % n]];
                fn go(list: &mut Vec<Iv>, sh: &[Iv], left: usize, ctx: &mut Ctx) -> Result<(), String> {
                    check_merge(list, ctx)?;
                    if left > 0 {
                        for &x in sh {
                            list.push(x);
                            go(list, sh, left - 1, ctx)?;
                            list.pop();
                        }
                    }
                    Ok(())
                }
                go(&mut list, &sh, len - 1, ctx)?;
                ctx.sample(|| format!("merge({:X?})", [sh[u % n], sh[0], sh[n - 1]]));
                Ok(())
            },
        ));
    }
    {
        let w = if thorough { 14u32 } else { 12 };
        let bs = bases(w);
        out.push(Suite::new(
            "subtract",
            &format!("all pairs of canonical lists over {w} points (2^{w} each), at {} positions", bs.len()),
            bs.len() << w,
            move |u, ctx| {
                let (base, a) = (bs[u >> w], (u & ((1 << w) - 1)) as u64);
                let la = of_bits(a, base);
                for b in 0..1u64 << w {
                    let want = of_bits(a & !b, base);
                    check_subtract(&la, &of_bits(b, base), &want, ctx)?;
                }
                ctx.outcome(hash_list(&la));
                ctx.sample(|| format!("subtract({}, ..)", show(&la)));
                Ok(())
            },
        ));
    }
    {
        // Wide intervals and long lists: ends far apart, every alignment of a short list against a long one.
        let mut lens: Vec<usize> = (0..=130).collect();
        lens.extend(crate::lex::lengths(3000).into_iter().filter(|&x| x > 130));
        out.push(Suite::new("long-lists", "regular lists of every length 0..=130 and around the constants of the sources (runs 1..4, gaps 1..4), merged in 6 orders; subtracted from each other with offset 0..8", lens.len() * 16, move |u, ctx| {
            let (n, run, gap) = (lens[u / 16], (u % 4 + 1) as u32, (u / 4 % 4 + 1) as u32);
            let mk = |n: usize, run: u32, gap: u32, off: u32| -> Vec<Iv> { (0..n as u32).map(|i| (off + i * (run + gap), off + i * (run + gap) + run - 1)).collect() };
            let a = mk(n, run, gap, 8);
            let mut rev = a.clone();
            rev.reverse();
            let twice: Vec<Iv> = a.iter().chain(a.iter()).copied().collect();
            let mut inter: Vec<Iv> = a.iter().step_by(2).copied().collect();
            inter.extend(a.iter().skip(1).step_by(2));
            let filled: Vec<Iv> = a.iter().copied().chain(a.iter().map(|x| (x.1 + 1, x.1 + gap))).collect();
            let mut nested = a.clone();
            nested.push((0, MAX));
            nested.rotate_right(n / 2);
            for l in [&a, &rev, &twice, &inter, &filled, &nested] {
                check_merge(l, ctx)?;
            }
            for m in [0usize, 1, 2, 3, n / 2, n, n + 1, 2 * n + 1] {
                for off in 0..8u32 {
                    let b = mk(m, gap, run, off);
                    // Expected by points.
                    let inb = |p: u32| p >= off && (p - off) / (run + gap) < m as u32 && (p - off) % (run + gap) < gap;
                    let want = from_points(a.iter().flat_map(|&(x, y)| x..=y).filter(|&p| !inb(p)));
                    check_subtract(&a, &b, &want, ctx)?;
                }
            }
            // Right-hand lists of other periods.
            let period = run + gap;
            if n <= 70 || n % 10 == 0 {
                for k in 2..=5u32 {
                    for brun in [1, period] {
                        for off in 0..period + 2 {
                            let m = (n as u32 / k + 1).min(40) as usize;
                            let b = mk(m, brun, k * period - brun, 8 + off);
                            let inb = |p: u32| p >= 8 + off && (p - 8 - off) / (k * period) < m as u32 && (p - 8 - off) % (k * period) < brun;
                            let want = from_points(a.iter().flat_map(|&(x, y)| x..=y).filter(|&p| !inb(p)));
                            check_subtract(&a, &b, &want, ctx)?;
                            let want = from_points(b.iter().flat_map(|&(x, y)| x..=y).filter(|&p| !(p >= 8 && (p - 8) / period < n as u32 && (p - 8) % period < run)));
                            check_subtract(&b, &a, &want, ctx)?;
                        }
                    }
                }
            }
            check_subtract(&a, &[(0, MAX)], &[], ctx)?;
            let want: Vec<Iv> = {
                let mut v = vec![(0, MAX)];
                for &(x, y) in &a {
                    for p in x..=y {
                        set_member(&mut v, p, false);
                    }
                }
                v
            };
            check_subtract(&[(0, MAX)], &a, &want, ctx)
        }));
    }
    {
        // More intervals than 16 bits count, and nearly as many as there can be.
        let lens: Vec<usize> = if thorough { vec![32_767, 32_768, 65_535, 65_536, 65_537, 131_071, 131_073, 262_145, 370_000, 524_289] } else { vec![32_768, 65_535, 65_536, 65_537, 131_073, 370_000] };
        let orders = 5usize;
        out.push(Suite::new("huge-lists", &format!("regular lists of {lens:?} intervals (runs and gaps 1..2 as far as they fit) merged in {orders} orders and with every gap filled; subtracted from and by the whole range and lists of other periods; strings of as many characters"), lens.len() * 4, move |u, ctx| {
            let (n, run, gap) = (lens[u / 4], (u % 2 + 1) as u32, (u / 2 % 2 + 1) as u32);
            let mk = |run: u32, period: u32, off: u32| -> Vec<Iv> { (0..n as u32).map(|i| (off + i * period, off + i * period + run - 1)).take_while(|x| x.1 <= MAX).collect() };
            let a = mk(run, run + gap, 0);
            let n = a.len();
            for k in 0..orders {
                let l: Vec<Iv> = match k {
                    0 => a.clone(),
                    1 => a.iter().rev().copied().collect(),
                    2 => a.iter().step_by(2).chain(a.iter().skip(1).step_by(2)).copied().collect(),
                    // A fixed permutation (or, where the stride divides the length, a list with repetitions and holes).
                    3 => (0..n).map(|i| a[i * 40_503 % n]).collect(),
                    _ => a.iter().chain(a.iter()).copied().collect(),
                };
                check_merge(&l, ctx)?;
            }
            let filled: Vec<Iv> = a.iter().copied().chain(a.iter().map(|x| (x.1 + 1, x.1 + gap))).collect();
            check_merge(&filled, ctx)?;
            let mut bits = vec![false; MAX as usize + 1];
            let mut less = |x: &[Iv], y: &[Iv]| -> Vec<Iv> {
                bits.fill(false);
                for (l, v) in [(x, true), (y, false)] {
                    for &(p, q) in l {
                        bits[p as usize..=q as usize].fill(v);
                    }
                }
                from_points((0..=MAX).filter(|&p| bits[p as usize]))
            };
            let all = vec![(0, MAX)];
            let ends = vec![(0, 0), (MAX, MAX)];
            for b in [all, ends, mk(1, 2, 0), mk(1, 2, 1), mk(1, 3, 2), mk(2, 5, 1), mk(3, 4, 3), mk(1, 100, 50), vec![(a[n / 2].0, a[n / 2].1)], vec![a[n - 1]], a.clone(), a[1..].to_vec()] {
                let want = less(&a, &b);
                check_subtract(&a, &b, &want, ctx)?;
                let want = less(&b, &a);
                check_subtract(&b, &a, &want, ctx)?;
            }
            let s: Vec<char> = (0..=MAX).step_by((u % 4).max(1)).filter_map(char::from_u32).take(n).collect();
            check_str(&s.iter().collect::<String>(), ctx)?;
            check_str(&s.iter().rev().collect::<String>(), ctx)?;
            check_str(&(0..s.len()).map(|i| s[i * 40_503 % s.len()]).collect::<String>(), ctx)
        }));
    }
    {
        // Every small problem in the middle of a long one.
        let w = if thorough { 10u32 } else { 8 };
        let pads = [(0usize, 20usize), (20, 0), (20, 20), (0, 70), (70, 0), (70, 70), (300, 5), (5, 300)];
        let places = 3usize;
        let block = 1usize << (w - 2);
        out.push(Suite::new(
            "embedded",
            &format!("all pairs of canonical lists over {w} points (subtract), and all orders of 2 intervals over 6 points (merge), before, in the middle of and after {} paddings of 0..300 intervals on either side", pads.len()),
            pads.len() * places * 4,
            move |u, ctx| {
                let (q, rest) = (u % 4, u / 4);
                let ((na, nb), place) = (pads[rest % pads.len()], rest / pads.len());
                let base = 2000u32;
                // Paddings far from the window, alternating with each other in different ways.
                let side = |n: usize, step: u32, run: u32| -> (Vec<Iv>, Vec<Iv>) {
                    let (lo, hi) = match place {
                        0 => (0, n),
                        1 => (n / 2, n - n / 2),
                        _ => (n, 0),
                    };
                    let before = (0..lo as u32).map(|i| (i * step, i * step + run)).collect();
                    let after = (0..hi as u32).map(|i| (base + 100 + i * step, base + 100 + i * step + run)).collect();
                    (before, after)
                };
                let (ab, aa) = side(na, 6, 1);
                let (bb, ba) = side(nb, 6, 0);
                let outer = |x: &[Iv], y: &[Iv]| -> Vec<Iv> {
                    from_points(x.iter().flat_map(|&(p, q)| p..=q).filter(|p| !y.iter().any(|&(l, r)| l <= *p && *p <= r)))
                };
                let (wb, wa) = (outer(&ab, &bb), outer(&aa, &ba));
                let lists: Vec<Vec<Iv>> = (0..1u64 << w).map(|k| of_bits(k, base)).collect();
                let join = |x: &[Iv], m: &[Iv], y: &[Iv]| -> Vec<Iv> { [x, m, y].concat() };
                let bs: Vec<Vec<Iv>> = lists.iter().map(|l| join(&bb, l, &ba)).collect();
                for a in q * block..(q + 1) * block {
                    let la = join(&ab, &lists[a], &aa);
                    for (b, lb) in bs.iter().enumerate() {
                        check_subtract(&la, lb, &join(&wb, &lists[a & !b], &wa), ctx)?;
                    }
                    ctx.outcome(hash_list(&la));
                }
                let mut ivs: Vec<Iv> = vec![];
                for x in 0..6 {
                    for y in x..6 {
                        ivs.push((base + x, base + y));
                    }
                }
                for (i, &x) in ivs.iter().enumerate() {
                    if i % 4 != q {
                        continue;
                    }
                    for &y in &ivs {
                        let all = join(&ab, &[], &aa);
                        for k in [0, all.len() / 2, all.len()] {
                            let mut l = all.clone();
                            l.insert(k, x);
                            l.push(y);
                            check_merge(&l, ctx)?;
                            l.reverse();
                            check_merge(&l, ctx)?;
                        }
                        check_merge(&join(&ab, &[x, y], &aa), ctx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let alpha: Vec<char> = [0x41u32, 0x42, 0x43, 0, 0x7F, 0x80, 0xFF, 0x100, 0xD7FF, 0xE000, 0xFFFF, 0x10000, MAX - 1, MAX].iter().map(|&x| char::from_u32(x).unwrap()).collect();
        let n = alpha.len();
        let depth = if thorough { 6 } else { 5 };
        out.push(Suite::new("from_str", &format!("all strings of length <={depth} over {n} boundary characters; every single character; every length to 600 in three orders"), n + 2, move |u, ctx| {
            if u == n {
                check_str("", ctx)?;
                for ch in (0..=MAX).filter_map(char::from_u32) {
                    check_str(ch.encode_utf8(&mut [0; 4]), ctx)?;
                }
                return Ok(());
            }
            if u == n + 1 {
                for start in [0u32, 0xF0, 0xD700, 0x10_FD00] {
                    for len in 0..600usize {
                        let a: String = (start..).filter_map(char::from_u32).take(len).collect();
                        check_str(&a, ctx)?;
                        check_str(&a.chars().rev().collect::<String>(), ctx)?;
                        check_str(&a.chars().step_by(2).chain(a.chars()).collect::<String>(), ctx)?;
                    }
                }
                return Ok(());
            }
            fn go(s: &mut String, alpha: &[char], left: usize, ctx: &mut Ctx) -> Result<(), String> {
                check_str(s, ctx)?;
                if left > 0 {
                    for &c in alpha {
                        s.push(c);
                        go(s, alpha, left - 1, ctx)?;
                        s.pop();
                    }
                }
                Ok(())
            }
            go(&mut alpha[u].to_string(), &alpha, depth - 1, ctx)
        }));
    }
    out
}
