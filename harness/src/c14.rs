//! C14: the parallel iterators of the in-memory and disk stores.
use crate::common::*;
use crate::rt;
use merkletree::store::{DiskStoreProducer, VecStoreProducer};
use rayon::iter::plumbing::Producer;
use rayon::prelude::*;

const EACH: &str = "iteration yields exactly the elements, in order";
const LEN: &str = "the reported length is the number of elements left";
pub trait Made: Store<El> + Sized {
    fn made(its: &[El], named: bool) -> Self;
}
fn made<S: Store<El>>(its: &[El], named: bool) -> S {
    let m = "a store over a slice is made";
    let b = to_bytes(its);
    if named {
        rt::get(S::new_from_slice_with_config(its.len(), 2, &b, cfg("c14", 0)), m)
    } else {
        rt::get(S::new_from_slice(its.len(), &b), m)
    }
}
/// Consume an iterator from both ends, in an order the solver chooses; it covers exactly `want`.
fn drain<I: Iterator<Item = El> + DoubleEndedIterator + ExactSizeIterator>(mut it: I, want: &[El]) {
    let (mut a, mut b) = (0, want.len());
    loop {
        rt::check(it.len() == b - a, LEN);
        let back = flag("back");
        let e = if back { it.next_back() } else { it.next() };
        if a == b {
            rt::check(e.is_none(), EACH);
            rt::check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, EACH);
            return;
        }
        match e {
            None => rt::check(false, EACH),
            Some(e) => {
                same1(&e, &want[if back { b - 1 } else { a }], EACH);
                if back {
                    b -= 1
                } else {
                    a += 1
                }
            }
        }
    }
}
/// Split a producer `depth` times at positions the solver chooses, then drain every piece.
fn pieces<P: Producer<Item = El>>(p: P, want: &[El], depth: usize)
where
    P::IntoIter: ExactSizeIterator,
{
    if depth == 0 || flag("whole") {
        drain(p.into_iter(), want);
        return;
    }
    let i = rt::pick("split", 0, want.len() as u64) as usize;
    let (l, r) = p.split_at(i);
    if flag("right_first") {
        pieces(r, &want[i..], depth - 1);
        pieces(l, &want[..i], depth - 1);
    } else {
        pieces(l, &want[..i], depth - 1);
        pieces(r, &want[i..], depth - 1);
    }
}
macro_rules! producer_of {
    ($f:ident, $s:ty, $p:ident) => {
        fn $f(n: usize, depth: usize, named: bool) {
            let its = items("value", n);
            let s: $s = made(&its, named);
            let a = rt::pick("from", 0, n as u64) as usize;
            let b = rt::pick("to", a as u64, n as u64) as usize;
            let p = $p::new(a, b, &s);
            rt::check(p.len() == b - a && p.is_empty() == (a == b), LEN);
            pieces(p, &its[a..b], depth);
            rt::reach("producer");
        }
    };
}
producer_of!(vec_producer, VecStore<El>, VecStoreProducer);
producer_of!(disk_producer, DiskStore<El>, DiskStoreProducer);
/// Whole-store iteration through rayon's adapters.
macro_rules! par_of {
    ($f:ident, $s:ty) => {
        fn $f(n: usize, named: bool) {
            let its = items("value", n);
            let s: $s = made(&its, named);
            rt::check(IndexedParallelIterator::len(&(&s)) == n && (&s).into_par_iter().opt_len() == Some(n), LEN);
            let all = |v: Vec<El>| same(&v, &its, EACH);
            match rt::pick("adapter", 0, 8) {
                0 => all((&s).into_par_iter().collect()),
                1 => {
                    let mut v: Vec<El> = (&s).into_par_iter().rev().collect();
                    v.reverse();
                    all(v)
                }
                2 => {
                    let v: Vec<(usize, El)> = (&s).into_par_iter().enumerate().collect();
                    rt::check(v.iter().enumerate().all(|(i, x)| i == x.0), EACH);
                    all(v.iter().map(|x| x.1).collect())
                }
                3 => all((&s).into_par_iter().filter(|_| true).collect()), // unindexed
                4 => {
                    let k = if n <= 64 { rt::pick("cut", 0, n as u64) as usize } else { [0, 1, n / 2, n - 1, n][rt::pick("cut", 0, 4) as usize] };
                    let mut v: Vec<El> = (&s).into_par_iter().take(k).collect();
                    v.extend((&s).into_par_iter().skip(k).collect::<Vec<_>>());
                    all(v)
                }
                5 => {
                    let v: Vec<Vec<El>> = (&s).into_par_iter().chunks(3).collect();
                    all(v.concat())
                }
                6 => {
                    let v: Vec<(El, El)> = (&s).into_par_iter().zip((&s).into_par_iter()).collect();
                    rt::check(v.iter().all(|x| x.0 == x.1), EACH);
                    all(v.iter().map(|x| x.0).collect())
                }
                7 => all((&s).into_par_iter().with_max_len(1).collect()),
                _ => {
                    rt::check(IndexedParallelIterator::len(&s) == n && s.opt_len() == Some(n), LEN);
                    let v: Vec<El> = if flag("unindexed") { s.into_par_iter().filter(|_| true).collect() } else { s.into_par_iter().collect() };
                    all(v)
                }
            }
            rt::reach("par");
        }
    };
}
par_of!(vec_par, VecStore<El>);
par_of!(disk_par, DiskStore<El>);
/// A failed read ends an iterator; it never yields an element outside its range or twice.
fn failed() {
    let n = 4;
    let its = items("value", n);
    let s: DiskStore<El> = made(&its, true);
    let a = rt::pick("from", 0, n as u64) as usize;
    let b = rt::pick("to", a as u64, n as u64) as usize;
    let mut it = DiskStoreProducer::new(a, b, &s).into_iter();
    rt::faults(rt::F_READ, 1);
    let (mut i, mut j) = (a, b);
    for _ in 0..n + 2 {
        let back = flag("back");
        let r = rt::no_panic("iterating never panics", || if back { it.next_back() } else { it.next() });
        if let Some(e) = r {
            rt::check(i < j, EACH);
            if i == j {
                return;
            }
            same1(&e, &its[if back { j - 1 } else { i }], EACH);
            if back {
                j -= 1
            } else {
                i += 1
            }
        }
    }
    rt::check(i == j || rt::faults_hit() > 0, EACH);
    rt::reach("failed");
}
fn go_producer() {
    let (n, d, named) = (rt::param("n", 4) as usize, rt::param("depth", 2) as usize, rt::param("named", 0) == 1);
    if rt::param("store", 0) == 0 {
        vec_producer(n, d, named)
    } else {
        disk_producer(n, d, named)
    }
}
fn go_par() {
    let (n, named) = (rt::param("n", 4) as usize, rt::param("named", 0) == 1);
    rt::sched(rt::param("mode", 0), rt::param("budget", 0), rt::param("threads", 4));
    if rt::param("store", 0) == 0 {
        vec_par(n, named)
    } else {
        disk_par(n, named)
    }
}
/// Pieces of a store of more than 4 GiB.
fn far() {
    let n = pow(2, 33) + 5;
    let mut edges = vec![0, n - 3];
    for b in 28..34 {
        edges.extend([pow(2, b) - 3, pow(2, b)]);
    }
    let at = edges[rt::pick("index", 0, edges.len() as u64 - 1) as usize];
    let its = items("value", 3);
    let mut s: DiskStore<El> = rt::get(DiskStore::<El>::new_with_config(n, 2, cfg("c14f", 0)), "an empty store is made");
    rt::get(s.write_at(El::default(), n - 1), "a write within the capacity succeeds");
    rt::get(s.copy_from_slice(&to_bytes(&its), at), "a write within the capacity succeeds");
    rt::check(IndexedParallelIterator::len(&(&s)) == n && (&s).into_par_iter().opt_len() == Some(n), LEN);
    let p = DiskStoreProducer::new(0, n, &s);
    let (l, r) = p.split_at(at);
    rt::check(l.len() == at && r.len() == n - at, LEN);
    rt::check(l.into_iter().len() == at, LEN);
    let (m, r) = r.split_at(3);
    rt::check(r.len() == n - at - 3 && r.into_iter().len() == n - at - 3, LEN);
    drain(m.into_iter(), &its);
    // and from the ends of a long piece
    let mut it = DiskStoreProducer::new(at, n, &s).into_iter();
    for e in &its {
        rt::check(it.next() == Some(*e), EACH);
    }
    let mut it = DiskStoreProducer::new(0, at + 3, &s).into_iter();
    for e in its.iter().rev() {
        rt::check(it.next_back() == Some(*e), EACH);
    }
    rt::check(it.len() == at, LEN);
    rt::reach("far");
}
entries! { h_far14 => far, h_producer => go_producer, h_par => go_par, h_failed => failed }
