//! Models of std functions, written in Rust: the analyser interprets these bodies in place of
//! the (raw-pointer) bodies of the standard library.
#![allow(clippy::all)]
#![feature(core_intrinsics)]
#![allow(internal_features)]
use std::collections::HashMap;
use std::hash::Hash;

pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn pair_next<A: Iterator, B: Iterator>(a: &mut A, b: &mut B) -> Option<(A::Item, B::Item)> {
    let x = a.next()?;
    let y = b.next()?;
    Some((x, y))
}
pub fn zip_other<U: IntoIterator>(u: U) -> U::IntoIter {
    u.into_iter()
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_x) = it.next() {
        n += 1;
    }
    n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if i == n {
            return Some(x);
        }
        i += 1;
    }
    None
}
pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut best = match it.next() {
        None => return None,
        Some(x) => x,
    };
    while let Some(x) = it.next() {
        if x < best {
            best = x;
        }
    }
    Some(best)
}
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut best = match it.next() {
        None => return None,
        Some(x) => x,
    };
    while let Some(x) = it.next() {
        if x >= best {
            best = x;
        }
    }
    Some(best)
}
pub fn iter_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() {
        None => return None,
        Some(x) => x,
    };
    let mut bk = f(&best);
    while let Some(x) = it.next() {
        let k = f(&x);
        if k >= bk {
            best = x;
            bk = k;
        }
    }
    Some(best)
}
pub fn iter_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() {
        None => return None,
        Some(x) => x,
    };
    let mut bk = f(&best);
    while let Some(x) = it.next() {
        let k = f(&x);
        if k < bk {
            best = x;
            bk = k;
        }
    }
    Some(best)
}
pub fn iter_partition<I: Iterator, B, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    let mut n = 0;
    loop {
        // each went one way
        if a.len() + b.len() != n {
            unsafe { core::intrinsics::unreachable() };
        }
        let Some(x) = it.next() else { break };
        if f(&x) {
            a.push(x);
        } else {
            b.push(x);
        }
        n += 1;
    }
    (a, b)
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn collect_map<I: Iterator<Item = (K, V)>, K: Eq + Hash, V>(mut it: I) -> HashMap<K, V> {
    let mut m = HashMap::new();
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
    m
}
pub fn collect_result<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn collect_option<I: Iterator<Item = Option<T>>, T>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn vec_extend<T, I: IntoIterator>(v: &mut Vec<T>, it: I)
where
    I::Item: Into<T>,
{
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x.into());
    }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn map_retain<K: Eq + Hash, V, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V>, mut f: F) {
    let old = std::mem::take(m);
    let mut it = old.into_iter();
    while let Some((k, v)) = it.next() {
        let mut v = v;
        if f(&k, &mut v) {
            m.insert(k, v);
        }
    }
}
