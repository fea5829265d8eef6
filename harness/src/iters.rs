//! Every way to use an iterator, against the same on a vector of numbers.

use crate::gen;

/// Uses of an iterator after which it can be used on.
pub const STEPS: [&str; 18] = [
    "next()",
    "nth(0)",
    "nth(1)",
    "nth(2)",
    "by_ref().take(2).collect()",
    "by_ref().skip(1).next()",
    "find(odd)",
    "position(odd)",
    "any(odd)",
    "all(even)",
    "by_ref().step_by(2).take(2)",
    "by_ref().take_while(even)",
    "by_ref().peekable().peek()",
    "by_ref().take(0)",
    "find_map(odd)",
    "try_fold to an odd one",
    "nth(5)",
    "by_ref().skip_while(odd).next()",
];

/// Uses of an iterator that consume it.
pub const ENDS: [&str; 20] = [
    "drop", "collect", "count", "last", "fold", "max", "min", "partition", "for_each", "skip(1)", "zip(1..)", "max_by_key", "min_by_key", "reduce", "filter(odd)",
    "filter_map(odd)", "eq", "unzip", "enumerate and chain", "next() to the end and beyond",
];

/// Does step `k` to an iterator of numbers; what it observed.
fn step(i: &mut std::vec::IntoIter<usize>, k: usize) -> Vec<usize> {
    let odd = |x: &usize| x % 2 == 1;
    match k {
        0 => i.next().into_iter().collect(),
        1 => i.nth(0).into_iter().collect(),
        2 => i.nth(1).into_iter().collect(),
        3 => i.nth(2).into_iter().collect(),
        4 => i.by_ref().take(2).collect(),
        5 => i.by_ref().skip(1).next().into_iter().collect(),
        6 => i.find(odd).into_iter().collect(),
        7 => i.position(|x| odd(&x)).into_iter().collect(),
        8 => vec![usize::from(i.any(|x| odd(&x)))],
        9 => vec![usize::from(i.all(|x| !odd(&x)))],
        10 => i.by_ref().step_by(2).take(2).collect(),
        11 => i.by_ref().take_while(|x| !odd(x)).collect(),
        12 => i.by_ref().peekable().peek().copied().into_iter().collect(),
        13 => i.by_ref().take(0).collect(),
        14 => i.find(odd).into_iter().collect(),
        15 => {
            let mut v = vec![];
            for x in i.by_ref() {
                v.push(x);
                if odd(&x) {
                    break;
                }
            }
            v
        }
        16 => i.nth(5).into_iter().collect(),
        _ => i.by_ref().skip_while(odd).next().into_iter().collect(),
    }
}

/// The same on the implementation's own iterator type, so that its own methods are called. `id` numbers
/// the items.
fn real_step<I: Iterator>(i: &mut I, k: usize, id: &dyn Fn(&I::Item) -> usize) -> Vec<usize> {
    let odd = |x: &I::Item| id(x) % 2 == 1;
    match k {
        0 => i.next().map(|x| id(&x)).into_iter().collect(),
        1 => i.nth(0).map(|x| id(&x)).into_iter().collect(),
        2 => i.nth(1).map(|x| id(&x)).into_iter().collect(),
        3 => i.nth(2).map(|x| id(&x)).into_iter().collect(),
        4 => i.by_ref().take(2).map(|x| id(&x)).collect(),
        5 => i.by_ref().skip(1).next().map(|x| id(&x)).into_iter().collect(),
        6 => i.find(odd).map(|x| id(&x)).into_iter().collect(),
        7 => i.position(|x| odd(&x)).into_iter().collect(),
        8 => vec![usize::from(i.any(|x| odd(&x)))],
        9 => vec![usize::from(i.all(|x| !odd(&x)))],
        10 => i.by_ref().step_by(2).take(2).map(|x| id(&x)).collect(),
        11 => i.by_ref().map(|x| id(&x)).take_while(|x| x % 2 == 0).collect(),
        12 => {
            let mut p = i.by_ref().peekable();
            let seen = p.peek().is_some();
            let n = p.next().map(|x| id(&x));
            assert_eq!(seen, n.is_some());
            n.into_iter().collect()
        }
        13 => i.by_ref().take(0).map(|x| id(&x)).collect(),
        14 => i.find_map(|x| Some(id(&x)).filter(|n| n % 2 == 1)).into_iter().collect(),
        15 => {
            let mut v = vec![];
            let _ = i.try_fold((), |(), x| {
                v.push(id(&x));
                if odd(&x) { Err(()) } else { Ok(()) }
            });
            v
        }
        16 => i.nth(5).map(|x| id(&x)).into_iter().collect(),
        _ => i.by_ref().skip_while(odd).next().map(|x| id(&x)).into_iter().collect(),
    }
}

fn end_model(i: &mut std::vec::IntoIter<usize>, k: usize) -> Vec<usize> {
    let v: Vec<usize> = i.collect();
    match k {
        0 => vec![],
        2 => vec![v.len()],
        3 => v.last().copied().into_iter().collect(),
        5 => v.iter().max().copied().into_iter().collect(),
        6 => v.iter().min().copied().into_iter().collect(),
        7 => {
            let (a, b): (Vec<usize>, Vec<usize>) = v.into_iter().partition(|x| x % 2 == 1);
            [a, vec![usize::MAX], b].concat()
        }
        9 => v.into_iter().skip(1).collect(),
        // the last of the greatest, the first of the smallest
        11 => v.into_iter().max_by_key(|x| x % 3).into_iter().collect(),
        12 => v.into_iter().min_by_key(|x| x % 3).into_iter().collect(),
        13 => v.into_iter().reduce(|a, b| a * 7 + b).into_iter().collect(),
        14 | 15 => v.into_iter().filter(|x| x % 2 == 1).collect(),
        16 => vec![1, 0, 0],
        18 => v.iter().enumerate().map(|(i, x)| i * 100 + x).chain([7]).collect(),
        _ => v,
    }
}

fn end_real<I: Iterator>(mut i: I, k: usize, id: &dyn Fn(&I::Item) -> usize) -> Vec<usize> {
    match k {
        0 => vec![],
        1 => i.collect::<Vec<_>>().into_iter().map(|x| id(&x)).collect(),
        2 => vec![i.count()],
        3 => i.last().map(|x| id(&x)).into_iter().collect(),
        4 => i.fold(vec![], |mut v, x| {
            v.push(id(&x));
            v
        }),
        5 => i.map(|x| id(&x)).max().into_iter().collect(),
        6 => i.map(|x| id(&x)).min().into_iter().collect(),
        7 => {
            let (a, b): (Vec<usize>, Vec<usize>) = i.map(|x| id(&x)).partition(|x| x % 2 == 1);
            [a, vec![usize::MAX], b].concat()
        }
        8 => {
            let mut v = vec![];
            i.for_each(|x| v.push(id(&x)));
            v
        }
        9 => i.skip(1).map(|x| id(&x)).collect(),
        10 => i.zip(1..).map(|(x, _)| id(&x)).collect(),
        11 => i.max_by_key(|x| id(x) % 3).map(|x| id(&x)).into_iter().collect(),
        12 => i.min_by_key(|x| id(x) % 3).map(|x| id(&x)).into_iter().collect(),
        13 => i.map(|x| id(&x)).reduce(|a, b| a * 7 + b).into_iter().collect(),
        14 => i.filter(|x| id(x) % 2 == 1).map(|x| id(&x)).collect(),
        15 => i.filter_map(|x| Some(id(&x)).filter(|n| n % 2 == 1)).collect(),
        16 => {
            let v: Vec<usize> = i.map(|x| id(&x)).collect();
            let n = v.len();
            let w = || v.iter().copied();
            vec![usize::from(w().eq(v.clone())), usize::from(w().ne(v.clone())), usize::from(w().count() != n)]
        }
        17 => i.map(|x| (id(&x), ())).unzip::<_, _, Vec<usize>, Vec<()>>().0,
        18 => i.enumerate().map(|(n, x)| n * 100 + id(&x)).chain([7]).collect(),
        _ => {
            let mut v = vec![];
            while let Some(x) = i.next() {
                v.push(id(&x));
            }
            for _ in 0..5 {
                assert_eq!(i.size_hint().0, 0, "a lower bound above zero once exhausted");
                if let Some(x) = i.next() {
                    v.push(1000 + id(&x));
                }
            }
            v
        }
    }
}

/// Runs one script of steps and an end against the model.
pub fn script<I: Iterator>(mut i: I, want: &[usize], steps: &[usize], end: usize, id: &dyn Fn(&I::Item) -> usize) -> Result<(), String> {
    let mut m = want.to_vec().into_iter();
    let hint = |i: &I, left: usize, at: usize| {
        let (lo, hi) = i.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint() is {:?} after {at} steps with {left} items left", (lo, hi)));
        }
        Ok(())
    };
    hint(&i, m.len(), 0)?;
    for (n, s) in steps.iter().enumerate() {
        let w = step(&mut m, *s);
        let g = real_step(&mut i, *s, id);
        if w != g {
            return Err(format!("step {n}, {}: {g:?}, expected {w:?}", STEPS[*s]));
        }
        hint(&i, m.len(), n + 1)?;
    }
    let w = end_model(&mut m, end);
    let g = end_real(i, end, id);
    if w != g {
        return Err(format!("{}: {g:?}, expected {w:?}", ENDS[end]));
    }
    Ok(())
}

/// All scripts of `len` steps on fresh iterators made by `mk`.
pub fn scripts<I: Iterator>(mk: &dyn Fn() -> I, want: &[usize], len: usize, id: &dyn Fn(&I::Item) -> usize) -> Result<u64, String> {
    let mut n = 0;
    for l in 0..=len {
        for i in 0..gen::pow(STEPS.len(), l) {
            let w = gen::word(STEPS.len(), l, i);
            for e in 0..ENDS.len() {
                n += 1;
                script(mk(), want, &w, e, id).map_err(|x| {
                    let s: Vec<&str> = w.iter().map(|s| STEPS[*s]).collect();
                    format!("{x} (after {})", s.join(", "))
                })?;
            }
        }
    }
    Ok(n)
}

