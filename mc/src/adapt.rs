//! Every provided iterator method that an implementation may replace, against the same method of a slice iterator.
use crate::engine::{guard, Ctx};
use std::cmp::Ordering;
use std::fmt::Debug;

macro_rules! same {
    ($ctx:expr, $here:expr, $name:expr, $got:expr, $want:expr) => {{
        $ctx.step();
        let got = guard(|| $got).map_err(|p| format!("{}.{}: {p}", $here(), $name))?;
        let want = $want;
        if got != want {
            return Err(format!("{}.{} = {got:X?}, expected {want:X?}", $here(), $name));
        }
    }};
}

/// Positions worth stopping at: all of a short list, the ends and the middle of a long one, and never.
fn stops(n: usize) -> Vec<usize> {
    if n <= 6 {
        (0..=n).collect()
    } else {
        vec![0, 1, n / 2, n - 2, n - 1, n]
    }
}

/// `make()` starts an iteration whose items have the keys `want` (all different).
pub fn forward<T: Copy + Eq + Debug, I: Iterator<Item = T>, K: Copy + Ord + Debug>(
    make: &dyn Fn() -> I,
    want: &[K],
    key: fn(T) -> K,
    here: &dyn Fn() -> String,
    ctx: &mut Ctx,
) -> Result<(), String> {
    let n = want.len();
    let cap = n + 8;
    let ks = |v: Vec<T>| v.into_iter().map(key).collect::<Vec<_>>();
    let rest = |i: I| i.take(cap).map(key).collect::<Vec<K>>();
    for k in stops(n) {
        let at = want.get(k).copied();
        let after = want.get(k + 1..).unwrap_or(&[]).to_vec();
        let is = |x: T| Some(key(x)) == at;
        same!(ctx, here, format!("find(item {k}), then the rest"), { let mut i = make(); let f = i.find(|x| is(*x)); (f.map(key), rest(i)) }, (at, after.clone()));
        same!(ctx, here, format!("position(item {k}), then the rest"), { let mut i = make(); let f = i.position(is); (f, rest(i)) }, (at.map(|_| k), after.clone()));
        same!(ctx, here, format!("any(item {k}), then the rest"), { let mut i = make(); let f = i.any(is); (f, rest(i)) }, (k < n, after.clone()));
        same!(ctx, here, format!("all(not item {k}), then the rest"), { let mut i = make(); let f = i.all(|x| !is(x)); (f, rest(i)) }, (k >= n, after.clone()));
        same!(ctx, here, format!("find_map(item {k}), then the rest"), { let mut i = make(); let f = i.find_map(|x| is(x).then(|| key(x))); (f, rest(i)) }, (at, after.clone()));
        same!(ctx, here, format!("try_fold to item {k}, then the rest"), {
            let mut i = make();
            let f = i.try_fold(0usize, |c, x| if is(x) { Err(c) } else { Ok(c + 1) });
            (f, rest(i))
        }, (if k < n { Err(k) } else { Ok(n) }, after.clone()));
        same!(ctx, here, format!("try_for_each to item {k}, then the rest"), { let mut i = make(); let f = i.try_for_each(|x| if is(x) { Err(()) } else { Ok(()) }); (f.is_err(), rest(i)) }, (k < n, after.clone()));
        same!(ctx, here, format!("nth({k}), then the rest"), { let mut i = make(); let f = i.nth(k); (f.map(key), rest(i)) }, (at, after.clone()));
        same!(ctx, here, format!("by_ref().take({k}), then the rest"), { let mut i = make(); let f = ks(i.by_ref().take(k).collect()); (f, rest(i)) }, (want[..k].to_vec(), want[k..].to_vec()));
        same!(ctx, here, format!("take_while(not item {k})"), ks(make().take_while(|x| !is(*x)).collect()), want[..k].to_vec());
        same!(ctx, here, format!("skip_while(not item {k})"), ks(make().skip_while(|x| !is(*x)).take(cap).collect()), want[k..].to_vec());
        same!(ctx, here, format!("map_while(not item {k})"), make().map_while(|x| (!is(x)).then(|| key(x))).collect::<Vec<_>>(), want[..k].to_vec());
        same!(ctx, here, format!("skip({k})"), ks(make().skip(k).take(cap).collect()), want[k..].to_vec());
        same!(ctx, here, format!("take({k})"), ks(make().take(k).collect()), want[..k].to_vec());
        same!(ctx, here, format!("take({k}).count()"), make().take(k).count(), k);
        same!(ctx, here, format!("step_by({})", k + 1), ks(make().step_by(k + 1).take(cap).collect()), want.iter().copied().step_by(k + 1).collect::<Vec<_>>());
        same!(ctx, here, format!("skip({k}).step_by(2)"), ks(make().skip(k).step_by(2).take(cap).collect()), want.iter().copied().skip(k).step_by(2).collect::<Vec<_>>());
        same!(ctx, here, format!("step_by({}).nth(1)", k + 1), { let mut i = make().step_by(k + 1); (i.nth(1).map(key), i.next().map(key)) }, { let mut i = want.iter().copied().step_by(k + 1); (i.nth(1), i.next()) });
        same!(ctx, here, format!("filter(not item {k})"), ks(make().filter(|x| !is(*x)).take(cap).collect()), want.iter().copied().filter(|x| Some(*x) != at).collect::<Vec<_>>());
        same!(ctx, here, format!("partition(item {k})"), { let (a, b): (Vec<T>, Vec<T>) = make().take(cap).partition(|x| is(*x)); (ks(a), ks(b)) }, want.iter().copied().partition::<Vec<K>, _>(|x| Some(*x) == at));
        same!(ctx, here, format!("zip(0..{k}), both ways round"), (make().zip(0..k).map(|p| (key(p.0), p.1)).collect::<Vec<_>>(), (0..k).zip(make()).map(|p| (key(p.1), p.0)).collect::<Vec<_>>()), { let v: Vec<_> = want.iter().copied().zip(0..k).collect(); (v.clone(), v) });
        same!(ctx, here, format!("peekable(), {k} steps"), {
            let mut p = make().peekable();
            let mut v = vec![];
            for _ in 0..k {
                v.push((p.peek().map(|x| key(*x)), p.next().map(key)));
            }
            (v, p.map(key).take(cap).collect::<Vec<_>>())
        }, (want[..k].iter().map(|x| (Some(*x), Some(*x))).collect::<Vec<_>>(), want[k..].to_vec()));
        same!(ctx, here, format!("for loop left after {k}, then the rest"), {
            let mut i = make();
            let mut v = vec![];
            if k > 0 {
                for x in i.by_ref() {
                    v.push(key(x));
                    if v.len() == k {
                        break;
                    }
                }
            }
            (v, rest(i))
        }, (want[..k].to_vec(), want[k..].to_vec()));
        same!(ctx, here, format!("cmp with the first {k}"), (make().map(key).cmp(want[..k].iter().copied()), make().map(key).partial_cmp(want[..k].iter().copied())), (n.cmp(&k), Some(n.cmp(&k))));
    }
    // Counts that do not fit in fewer bits.
    for big in [1usize << 8, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX] {
        if big <= n {
            continue;
        }
        same!(ctx, here, format!("nth({big}), then the rest"), { let mut i = make(); let f = i.nth(big); (f.map(key), rest(i)) }, (None, vec![]));
        same!(ctx, here, format!("take({big})"), ks(make().take(big).collect()), want.to_vec());
        same!(ctx, here, format!("skip({big}).count()"), make().skip(big).count(), 0);
        same!(ctx, here, format!("step_by({big})"), ks(make().step_by(big).collect()), want.iter().copied().take(1).collect::<Vec<_>>());
    }
    same!(ctx, here, "count()", make().count(), n);
    same!(ctx, here, "last()", make().last().map(key), want.last().copied());
    same!(ctx, here, "fold", make().fold(vec![], |mut v, x| { v.push(key(x)); v }), want.to_vec());
    same!(ctx, here, "for_each", { let mut v = vec![]; make().for_each(|x| v.push(key(x))); v }, want.to_vec());
    same!(ctx, here, "reduce (last)", make().reduce(|_, x| x).map(key), want.last().copied());
    same!(ctx, here, "reduce (first)", make().reduce(|x, _| x).map(key), want.first().copied());
    same!(ctx, here, "enumerate()", make().enumerate().map(|(i, x)| (i, key(x))).take(cap).collect::<Vec<_>>(), want.iter().copied().enumerate().collect::<Vec<_>>());
    same!(ctx, here, "scan", make().scan(0usize, |c, x| { *c += 1; Some((*c, key(x))) }).take(cap).collect::<Vec<_>>(), want.iter().copied().enumerate().map(|(i, x)| (i + 1, x)).collect::<Vec<_>>());
    same!(ctx, here, "chain(itself)", ks(make().chain(make()).take(2 * cap).collect()), [want, want].concat());
    same!(ctx, here, "chain(itself).count()", make().chain(make()).count(), 2 * n);
    same!(ctx, here, "flat_map(twice)", make().flat_map(|x| [key(x), key(x)]).take(2 * cap).collect::<Vec<_>>(), want.iter().flat_map(|x| [*x, *x]).collect::<Vec<_>>());
    same!(ctx, here, "filter_map", make().filter_map(|x| Some(key(x))).take(cap).collect::<Vec<_>>(), want.to_vec());
    same!(ctx, here, "inspect", { let mut v = vec![]; let c = make().inspect(|x| v.push(key(*x))).count(); (c, v) }, (n, want.to_vec()));
    same!(ctx, here, "unzip", make().map(|x| (key(x), ())).unzip::<K, (), Vec<_>, Vec<_>>().0, want.to_vec());
    same!(ctx, here, "fuse, on after the end", { let mut i = make().fuse(); let c = i.by_ref().count(); (c, i.next().is_none(), i.count()) }, (n, true, 0));
    same!(ctx, here, "min_by_key, max_by_key", (make().min_by_key(|x| key(*x)).map(key), make().max_by_key(|x| key(*x)).map(key)), (want.iter().min().copied(), want.iter().max().copied()));
    same!(ctx, here, "min_by_key, max_by_key of equal keys", (make().min_by_key(|_| 0).map(key), make().max_by_key(|_| 0).map(key)), (want.first().copied(), want.last().copied()));
    let cmp = |a: &T, b: &T| key(*a).cmp(&key(*b));
    same!(ctx, here, "min_by, max_by", (make().min_by(cmp).map(key), make().max_by(cmp).map(key)), (want.iter().min().copied(), want.iter().max().copied()));
    same!(ctx, here, "min_by, max_by of the reverse order", (make().min_by(|a, b| cmp(b, a)).map(key), make().max_by(|a, b| cmp(b, a)).map(key)), (want.iter().max().copied(), want.iter().min().copied()));
    same!(ctx, here, "is_sorted_by_key", (make().is_sorted_by_key(key), make().is_sorted_by_key(|x| std::cmp::Reverse(key(x)))), (want.is_sorted(), n < 2 || want.iter().rev().is_sorted()));
    same!(ctx, here, "is_sorted_by", (make().is_sorted_by(|a, b| key(*a) < key(*b)), make().is_sorted_by(|_, _| false)), (want.is_sorted(), n < 2));
    // Items compared as such.
    let all: Vec<T> = guard(|| make().take(cap).collect()).map_err(|p| format!("{}.collect(): {p}", here()))?;
    same!(ctx, here, "collect()", ks(all.clone()), want.to_vec());
    same!(ctx, here, "eq and ne with its items", (make().eq(all.iter().copied()), make().ne(all.iter().copied())), (true, false));
    if n > 0 {
        same!(ctx, here, "eq and ne with fewer and other items", (make().eq(all[1..].iter().copied()), make().ne(all[..n - 1].iter().copied()), make().eq(all.iter().rev().copied())), (false, true, n == 1));
        let dup: Vec<T> = all.iter().copied().chain([all[0]]).collect();
        same!(ctx, here, "eq with one more item", make().eq(dup.iter().copied()), false);
    }
    Ok(())
}

/// Methods that need an order on the items themselves.
pub fn ordered<I: Iterator<Item = u32> + DoubleEndedIterator + Clone>(it: &I, want: &[u32], here: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    let n = want.len();
    same!(ctx, here, "max(), min()", (it.clone().max(), it.clone().min()), (want.iter().max().copied(), want.iter().min().copied()));
    same!(ctx, here, "is_sorted()", it.clone().is_sorted(), want.is_sorted());
    same!(ctx, here, "rev().is_sorted()", it.clone().rev().is_sorted(), n < 2);
    // The sum as u64 (overflow of u32 sums is the caller's), and as u32 where it fits.
    let sum: u64 = want.iter().map(|&x| u64::from(x)).sum();
    if let Ok(s) = u32::try_from(sum) {
        same!(ctx, here, "sum()", it.clone().sum::<u32>(), s);
    }
    same!(ctx, here, "map(wide).sum()", it.clone().map(u64::from).sum::<u64>(), sum);
    if let Some(p) = want.iter().try_fold(1u32, |p, &x| p.checked_mul(x)) {
        same!(ctx, here, "product()", it.clone().product::<u32>(), p);
    }
    for k in stops(n) {
        let mut others = vec![want[..k].to_vec()];
        if k < n {
            let mut o = want.to_vec();
            o[k] += 1;
            others.push(o.clone());
            o[k] = o[k].saturating_sub(2);
            others.push(o);
        }
        for o in others {
            let c = want.cmp(&o);
            same!(ctx, here, format!("comparisons with {o:X?}"), {
                let (a, b) = (|| it.clone(), || o.iter().copied());
                (a().cmp(b()), a().partial_cmp(b()), a().eq(b()), a().ne(b()), a().lt(b()), a().le(b()), a().gt(b()), a().ge(b()))
            }, (c, Some(c), c == Ordering::Equal, c != Ordering::Equal, c == Ordering::Less, c != Ordering::Greater, c == Ordering::Greater, c != Ordering::Less));
        }
        // From the back.
        let at = want.get(k).copied();
        let before = if k < n { want[..k].to_vec() } else { vec![] };
        same!(ctx, here, format!("rfind(item {k}), then the rest"), { let mut i = it.clone(); let f = i.rfind(|x| Some(*x) == at); (f, i.take(n + 8).collect::<Vec<_>>()) }, (at, before.clone()));
        same!(ctx, here, format!("try_rfold to item {k}, then the rest"), {
            let mut i = it.clone();
            let f = i.try_rfold(0usize, |c, x| if Some(x) == at { Err(c) } else { Ok(c + 1) });
            (f, i.take(n + 8).collect::<Vec<_>>())
        }, (if k < n { Err(n - 1 - k) } else { Ok(n) }, before.clone()));
        same!(ctx, here, format!("rev().find(item {k}), then the rest from the front"), { let mut i = it.clone(); let f = i.by_ref().rev().find(|x| Some(*x) == at); (f, i.take(n + 8).collect::<Vec<_>>()) }, (at, before.clone()));
        same!(ctx, here, format!("find(item {k}), then the rest from the back"), { let mut i = it.clone(); let f = i.find(|x| Some(*x) == at); (f, i.rev().take(n + 8).collect::<Vec<_>>()) }, (at, want.get(k + 1..).unwrap_or(&[]).iter().rev().copied().collect::<Vec<_>>()));
        same!(ctx, here, format!("nth({k}), nth_back({k}), then the rest"), { let mut i = it.clone(); (i.nth(k), i.nth_back(k), i.take(n + 8).collect::<Vec<_>>()) }, { let mut i = want.iter().copied(); (i.nth(k), i.nth_back(k), i.collect::<Vec<_>>()) });
        same!(ctx, here, format!("rev().step_by({})", k + 1), it.clone().rev().step_by(k + 1).take(n + 8).collect::<Vec<_>>(), want.iter().rev().copied().step_by(k + 1).collect::<Vec<_>>());
        same!(ctx, here, format!("rev().skip({k})"), it.clone().rev().skip(k).take(n + 8).collect::<Vec<_>>(), want.iter().rev().copied().skip(k).collect::<Vec<_>>());
    }
    for big in [1usize << 8, 1 << 16, 1 << 32, (1 << 32) + 1, usize::MAX] {
        if big > n {
            same!(ctx, here, format!("nth_back({big}), then the rest"), { let mut i = it.clone(); (i.nth_back(big), i.next(), i.next_back()) }, (None, None, None));
        }
    }
    same!(ctx, here, "rfold", it.clone().rfold(vec![], |mut v, x| { v.push(x); v }), want.iter().rev().copied().collect::<Vec<_>>());
    same!(ctx, here, "rev().last(), rev().count()", (it.clone().rev().last(), it.clone().rev().count()), (want.first().copied(), n));
    same!(ctx, here, "cycle().take(2n+1)", it.clone().cycle().take(2 * n + 1).collect::<Vec<_>>(), want.iter().copied().cycle().take(2 * n + 1).collect::<Vec<_>>());
    // What is left of a partly consumed clone does not touch the other.
    same!(ctx, here, "a clone consumed", { let (mut a, b) = (it.clone(), it.clone()); while a.next_back().is_some() {} b.take(n + 8).collect::<Vec<_>>() }, want.to_vec());
    Ok(())
}
