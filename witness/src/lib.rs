//! Traits of other shapes than the library's own, made delegatable by its attribute. The generated forwarding code is
//! analysed, never run. That this compiles is part of the witness.
#![allow(dead_code, clippy::all)]

use jester_sharing_proc::delegatable_protocol;

pub struct Delegate;

// several methods, equally typed arguments, plain results
#[delegatable_protocol]
pub trait Arith<T, S, P>
where
    T: Clone,
    S: 'static,
{
    fn first(protocol: &mut P, a: &S, b: &S, c: &S) -> S;
    fn second(protocol: &mut P, a: &S, b: &S, c: &S) -> S;
    fn third(a: u64, b: u64, c: u64, d: u64) -> u64;
    fn nothing();
}

// trailing commas, method generics, lifetimes, owned arguments
#[delegatable_protocol]
pub trait Lifetimes<T, S, P,>
where
    T: Clone,
{
    fn pick<'a, R>(rng: &'a mut R, left: &'a S, right: &'a S) -> &'a S
    where
        R: Iterator;

    fn owned<F>(f: F, items: Vec<S>, more: Vec<S>) -> (Vec<S>, Vec<S>)
    where
        F: Fn(&S) -> T;
}

// an unrelated bound
#[delegatable_protocol]
pub trait Bare<T, S, P>
where
    Vec<u8>: Clone,
{
    fn swap(x: T, y: T) -> (T, T);
    fn mix(t: T, s: S, n: usize, m: usize) -> S;
}

// one method, many arguments of one type; crate visibility
#[delegatable_protocol]
pub(crate) trait Wide<T, S, P>
where
    S: Clone,
{
    fn wide(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32) -> u32;
}

// the protocol type is not the last parameter
#[delegatable_protocol]
pub trait Order<P, T, S, Q>
where
    P: Send,
    Q: Sync,
{
    fn one(protocol: &P, first: &Q, second: &Q, scalar: &T) -> Option<S>;
    fn two(protocol: &P, first: &Q, second: &Q, scalar: &T) -> Option<S>;
    fn three(protocol: &P, first: &Q, second: &Q, scalar: &T) -> Option<S>;
}
