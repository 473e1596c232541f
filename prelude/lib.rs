//! What some functions of the standard library do, as loops the engine summarises like any other.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;

pub fn reduce<T, I: Iterator<Item = T>, F: FnMut(T, T) -> T>(mut it: I, mut f: F) -> Option<T> {
    let mut acc = match it.next() {
        None => return None,
        Some(x) => x,
    };
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    Some(acc)
}

pub fn try_fold_option<T, B, I: Iterator<Item = T>, F: FnMut(B, T) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            None => return None,
            Some(y) => acc = y,
        }
    }
    Some(acc)
}

pub fn try_fold_result<T, B, E, I: Iterator<Item = T>, F: FnMut(B, T) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Err(e) => return Err(e),
            Ok(y) => acc = y,
        }
    }
    Ok(acc)
}

pub fn try_for_each_option<T, I: Iterator<Item = T>, F: FnMut(T) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        if f(x).is_none() {
            return None;
        }
    }
    Some(())
}

pub fn try_for_each_result<T, E, I: Iterator<Item = T>, F: FnMut(T) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        if let Err(e) = f(x) {
            return Err(e);
        }
    }
    Ok(())
}

pub fn collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match x {
            None => return None,
            Some(y) => out.push(y),
        }
    }
    Some(out)
}

pub fn collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Err(e) => return Err(e),
            Ok(y) => out.push(y),
        }
    }
    Ok(out)
}

pub fn collect_unit_result<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> {
    while let Some(x) = it.next() {
        if let Err(e) = x {
            return Err(e);
        }
    }
    Ok(())
}

pub fn sum_option<T: std::ops::Add<Output = T>, I: Iterator<Item = Option<T>>>(mut it: I, zero: T) -> Option<T> {
    let mut acc = zero;
    while let Some(x) = it.next() {
        match x {
            None => return None,
            Some(y) => acc = acc + y,
        }
    }
    Some(acc)
}

pub fn collect_map<K: Eq + Hash, V, I: Iterator<Item = (K, V)>>(mut it: I) -> HashMap<K, V> {
    let mut out = HashMap::new();
    while let Some((k, v)) = it.next() {
        out.insert(k, v);
    }
    out
}

pub fn collect_btree<K: Ord, V, I: Iterator<Item = (K, V)>>(mut it: I) -> BTreeMap<K, V> {
    let mut out = BTreeMap::new();
    while let Some((k, v)) = it.next() {
        out.insert(k, v);
    }
    out
}

pub fn collect_set<K: Eq + Hash, I: Iterator<Item = K>>(mut it: I) -> HashSet<K> {
    let mut out = HashSet::new();
    while let Some(k) = it.next() {
        out.insert(k);
    }
    out
}

pub fn collect_btreeset<K: Ord, I: Iterator<Item = K>>(mut it: I) -> BTreeSet<K> {
    let mut out = BTreeSet::new();
    while let Some(k) = it.next() {
        out.insert(k);
    }
    out
}

pub fn unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
    let mut left = Vec::new();
    let mut right = Vec::new();
    while let Some((a, b)) = it.next() {
        left.push(a);
        right.push(b);
    }
    (left, right)
}

pub fn partition<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut it: I, mut f: F) -> (Vec<T>, Vec<T>) {
    let mut left = Vec::new();
    let mut right = Vec::new();
    while let Some(x) = it.next() {
        if f(&x) {
            left.push(x);
        } else {
            right.push(x);
        }
    }
    (left, right)
}

pub fn flat_map<T, U, J: IntoIterator<Item = U>, I: Iterator<Item = T>, F: FnMut(T) -> J>(mut it: I, mut f: F) -> Vec<U> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        for y in f(x) {
            out.push(y);
        }
    }
    out
}

pub fn flatten<U, J: IntoIterator<Item = U>, I: Iterator<Item = J>>(mut it: I) -> Vec<U> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        for y in x {
            out.push(y);
        }
    }
    out
}

pub fn scan<T, S, U, I: Iterator<Item = T>, F: FnMut(&mut S, T) -> Option<U>>(mut it: I, init: S, mut f: F) -> Vec<U> {
    let mut state = init;
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match f(&mut state, x) {
            None => break,
            Some(y) => out.push(y),
        }
    }
    out
}

pub fn map_while<T, U, I: Iterator<Item = T>, F: FnMut(T) -> Option<U>>(mut it: I, mut f: F) -> Vec<U> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match f(x) {
            None => break,
            Some(y) => out.push(y),
        }
    }
    out
}

pub fn find_map<T, U, I: Iterator<Item = T>, F: FnMut(T) -> Option<U>>(it: &mut I, mut f: F) -> Option<U> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn max<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    let mut acc = match it.next() {
        None => return None,
        Some(x) => x,
    };
    while let Some(x) = it.next() {
        if x >= acc {
            acc = x;
        }
    }
    Some(acc)
}

pub fn min<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    let mut acc = match it.next() {
        None => return None,
        Some(x) => x,
    };
    while let Some(x) = it.next() {
        if x < acc {
            acc = x;
        }
    }
    Some(acc)
}

pub fn max_by_key<T, K: Ord, I: Iterator<Item = T>, F: FnMut(&T) -> K>(mut it: I, mut f: F) -> Option<T> {
    let mut acc = match it.next() {
        None => return None,
        Some(x) => x,
    };
    let mut key = f(&acc);
    while let Some(x) = it.next() {
        let k = f(&x);
        if k >= key {
            acc = x;
            key = k;
        }
    }
    Some(acc)
}

pub fn min_by_key<T, K: Ord, I: Iterator<Item = T>, F: FnMut(&T) -> K>(mut it: I, mut f: F) -> Option<T> {
    let mut acc = match it.next() {
        None => return None,
        Some(x) => x,
    };
    let mut key = f(&acc);
    while let Some(x) = it.next() {
        let k = f(&x);
        if k < key {
            acc = x;
            key = k;
        }
    }
    Some(acc)
}

pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old {
        if f(&x) {
            v.push(x);
        }
    }
}

pub fn resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    if n <= v.len() {
        v.truncate(n);
    } else {
        for _ in v.len()..n {
            v.push(f());
        }
    }
}

pub fn iter_eq<T: PartialEq<U>, U, I: Iterator<Item = T>, J: Iterator<Item = U>>(mut a: I, mut b: J) -> bool {
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => {
                if x != y {
                    return false;
                }
            }
            _ => return false,
        }
    }
}

pub fn from_fn<T, F: FnMut() -> Option<T>>(mut f: F) -> Vec<T> {
    let mut out = Vec::new();
    while let Some(x) = f() {
        out.push(x);
    }
    out
}

pub fn successors<T: Clone, F: FnMut(&T) -> Option<T>>(first: Option<T>, n: usize, mut f: F) -> Vec<T> {
    let mut out = Vec::new();
    let mut next = first;
    while let Some(x) = next {
        if out.len() == n {
            break;
        }
        next = f(&x);
        out.push(x);
    }
    out
}
