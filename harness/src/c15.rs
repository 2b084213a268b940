//! C15: what the library feeds to the hash function.
use crate::common::*;
use crate::rt;
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::{Element, MerkleTree};
use std::hash::Hasher;

/// Records every byte written.
#[derive(Default, Clone)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn of<T: ?Sized + Hashable<Rec>>(x: &T) -> Vec<u8> {
    let mut r = Rec(vec![0xa5]);
    x.hash(&mut r);
    rt::check(!r.0.is_empty() && r.0[0] == 0xa5, "hashing a value only appends to the hasher's input");
    r.0[1..].to_vec()
}
fn of_slice<T: Hashable<Rec>>(x: &[T]) -> Vec<u8> {
    let mut r = Rec::default();
    T::hash_slice(x, &mut r);
    r.0
}
fn sym_bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    rt::bytes(&format!("{}{}", name, n), &mut v);
    v
}
/// Numbers of values around those at which code may change its ways.
const LONG: [usize; 14] = [5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 256, 257];
macro_rules! ints {
    ($($t:ident $n:literal),*) => {$({
        let m = concat!(stringify!($t), " is hashed as its complete native encoding");
        let b: [[u8; $n]; 3] = {
            let v = sym_bytes("value", 3 * $n);
            let mut b = [[0; $n]; 3];
            for i in 0..3 {
                b[i].copy_from_slice(&v[i * $n..i * $n + $n]);
            }
            b
        };
        let x: Vec<$t> = b.iter().map(|b| <$t>::from_ne_bytes(*b)).collect();
        rt::check_eq(&of(&x[0]), &b[0], m);
        rt::check_eq(&of(&&x[1]), &b[1], m);
        for n in 0..4 {
            let all = b[..n].concat();
            rt::check_eq(&of(&x[..n]), &all, m);
            rt::check_eq(&of_slice(&x[..n]), &all, m);
        }
        for n in LONG {
            let v = sym_bytes("many", n * $n);
            let x: Vec<$t> = v.chunks($n).map(|c| <$t>::from_ne_bytes(c.try_into().unwrap())).collect();
            rt::check_eq(&of(&x[..]), &v, m);
            rt::check_eq(&of_slice(&x), &v, m);
        }
        let pair: &[($t, bool)] = &[(x[0], true), (x[1], false)];
        rt::check_eq(&of(pair), &[&b[0][..], &[1], &b[1], &[0]].concat(), m);
    })*};
}
fn ints() {
    ints!(u8 1, u16 2, u32 4, u64 8, u128 16, usize 8, i8 1, i16 2, i32 4, i64 8, i128 16, isize 8);
    rt::reach("ints");
}
fn arrays<const N: usize>() {
    let v = sym_bytes("array", N * 3);
    let mut x = [[0u8; N]; 3];
    for i in 0..3 {
        x[i].copy_from_slice(&v[i * N..i * N + N]);
    }
    let m = "a byte array is hashed as its bytes";
    rt::check_eq(&of(&x[0]), &v[..N], m);
    for n in 0..4 {
        rt::check_eq(&of(&x[..n]), &v[..n * N], m);
        rt::check_eq(&of_slice(&x[..n]), &v[..n * N], m);
    }
}
fn texts() {
    arrays::<0>();
    arrays::<1>();
    arrays::<3>();
    arrays::<8>();
    arrays::<16>();
    arrays::<32>();
    arrays::<33>();
    let more = [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097];
    let n = match rt::pick("length", 0, 40 + more.len() as u64) as usize {
        n if n <= 40 => n,
        n => more[n - 41],
    };
    let v = sym_bytes("bytes", n);
    rt::check_eq(&of(&v), &v, "a byte vector is hashed as its bytes");
    rt::check_eq(&of(&v[..]), &v, "a byte slice is hashed as its bytes");
    rt::check_eq(&of(&[v.clone(), v.clone()][..]), &[&v[..], &v[..]].concat(), "byte vectors are hashed as their bytes");
    // any text: the bytes stay symbolic, the library looks at none of them
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    rt::check_eq(&of(s), &v, "a string is hashed as its UTF-8 bytes");
    rt::check_eq(&of(&s), &v, "a string is hashed as its UTF-8 bytes");
    rt::check_eq(&of(&String::from(s)), &v, "a string is hashed as its UTF-8 bytes");
    rt::check_eq(&of(&[s, s][..]), &[&v[..], &v[..]].concat(), "strings are hashed as their UTF-8 bytes");
    let b = rt::any("bool") & 1 == 1;
    rt::check_eq(&of(&b), &[b as u8], "a boolean is hashed as 0 or 1");
    rt::check_eq(&of(&[b, !b, true][..]), &[b as u8, !b as u8, 1], "booleans are hashed as 0 or 1");
    let c = rt::range("char", 0, 0x10ffff) as u32;
    rt::assume(!(0xd800..0xe000).contains(&c));
    let c = unsafe { char::from_u32_unchecked(c) };
    rt::check_eq(&of(&c), &(c as u32).to_ne_bytes(), "a character is hashed as its 32-bit code");
    rt::check_eq(&of(&[c, 'x'][..]), &[(c as u32).to_ne_bytes(), ('x' as u32).to_ne_bytes()].concat(), "characters are hashed as their 32-bit code");
    rt::reach("texts");
}
fn tuples() {
    let b = sym_bytes("fields", 12);
    let m = "a tuple is hashed as its fields in order";
    rt::check(of(&()).is_empty(), m);
    let f = |i: usize| b[i];
    rt::check_eq(&of(&(f(0),)), &b[..1], m);
    rt::check_eq(&of(&(f(0), f(1))), &b[..2], m);
    rt::check_eq(&of(&(f(0), f(1), f(2))), &b[..3], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3))), &b[..4], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4))), &b[..5], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4), f(5))), &b[..6], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4), f(5), f(6))), &b[..7], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7))), &b[..8], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8))), &b[..9], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9))), &b[..10], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10))), &b[..11], m);
    rt::check_eq(&of(&(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11))), &b[..12], m);
    let (x, y) = (rt::any("word"), rt::any("half") as u16);
    rt::check_eq(&of(&(x, &b[..3], y, (f(3), "ab"))), &[&x.to_ne_bytes()[..], &b[..3], &y.to_ne_bytes(), &b[3..4], b"ab"].concat(), m);
    let ts = [(f(0), y), (f(1), y)];
    rt::check_eq(&of(&ts[..]), &[&b[..1], &y.to_ne_bytes()[..], &b[1..2], &y.to_ne_bytes()[..]].concat(), m);
    let mut z = x;
    rt::check_eq(&of(&&mut z), &x.to_ne_bytes(), "a reference is hashed as what it refers to");
    rt::check_eq(&of(&&&x), &x.to_ne_bytes(), "a reference is hashed as what it refers to");
    let p = &b[0] as *const u8;
    rt::check_eq(&of(&p), &(p as usize).to_ne_bytes(), "a pointer is hashed as its address");
    rt::check_eq(&of(&(p as *mut u8)), &(p as usize).to_ne_bytes(), "a pointer is hashed as its address");
    let q = &b[..5] as *const [u8];
    rt::check_eq(&of(&q), &[(p as usize).to_ne_bytes(), 5usize.to_ne_bytes()].concat(), "a slice pointer is hashed as its address and length");
    rt::check_eq(&of(&(q as *mut [u8])), &[(p as usize).to_ne_bytes(), 5usize.to_ne_bytes()].concat(), "a slice pointer is hashed as its address and length");
    rt::reach("tuples");
}
/// The trait's default leaf and node methods.
fn default_methods() {
    let k = match rt::pick("children", 0, 9 + LONG.len() as u64 - 4) as usize {
        n if n <= 9 => n,
        n => LONG[n - 10 + 4],
    };
    let c = items("child", k);
    let (l, r) = (item("left"), item("right"));
    let h = rt::any("height") as usize;
    let mut a = AlD::default();
    if flag("used") {
        a.write(&sym_bytes("before", 3));
        a.reset();
        rt::check(a.0.is_empty(), "reset() returns the hasher to its initial state");
    }
    let input = |a: &AlD, e: &El, want: &[u8], m: &str| {
        rt::check_eq(&a.0, want, m);
        same1(e, &r_hash(want), m);
    };
    match rt::pick("method", 0, 2) {
        0 => {
            let e = a.leaf(l);
            input(&a, &e, &[&[0], &l.0[..]].concat(), "a leaf is hashed as 0 and the leaf");
        }
        1 => {
            let e = a.node(l, r, h);
            input(&a, &e, &[&[1], &l.0[..], &r.0[..]].concat(), "a node is hashed as 1 and its children");
            let mut b = AlD::default();
            same1(&b.multi_node(&[l, r], h), &e, "both node methods agree for two children");
        }
        _ => {
            let e = a.multi_node(&c, h);
            input(&a, &e, &[&[1], &to_bytes(&c)[..]].concat(), "a node is hashed as 1 and its children in order");
        }
    }
    rt::reach("defaults");
}
fn d_leaf(x: &El) -> El {
    r_hash(&[&[0], &x.0[..]].concat())
}
fn d_rows(leaves: Vec<El>, a: usize) -> Vec<Vec<El>> {
    let mut rows = vec![leaves];
    while rows[rows.len() - 1].len() > 1 {
        let up = rows[rows.len() - 1].chunks(a).map(|c| r_hash(&[&[1], &to_bytes(c)[..]].concat())).collect();
        rows.push(up);
    }
    rows
}
/// A tree hashed with the default methods: domain separation and reset inside the library.
fn tree<S: Store<El>, U: Unsigned>(n: usize) {
    use rayon::prelude::*;
    use merkletree::merkle::FromIndexedParallelIterator;
    type D<S, U> = MerkleTree<El, AlD, S, U, U0, U0>;
    let a = U::to_usize();
    let its = items("leaf", n);
    let m = "building a tree over arity^k leaves succeeds";
    let c = cfg("c15", 0);
    let (t, leaves): (D<S, U>, Vec<El>) = match rt::pick("constructor", 0, 4) {
        0 => (rt::get(D::<S, U>::try_from_iter(its.iter().map(|x| Ok(*x))), m), its.iter().map(d_leaf).collect()),
        1 => (rt::get(D::<S, U>::from_par_iter_with_config(its.to_vec().into_par_iter(), c), m), its.iter().map(d_leaf).collect()),
        2 => (rt::get(D::<S, U>::from_data(its.iter().map(|x| (x.0[0], x.0)).collect::<Vec<_>>()), m), its.iter().map(|x| d_leaf(&r_hash(&[&x.0[..1], &x.0[..]].concat()))).collect()),
        3 => (rt::get(D::<S, U>::from_data_with_config(its.iter().map(|x| x.0.to_vec()).collect::<Vec<_>>(), c), m), its.iter().map(|x| d_leaf(&r_hash(&x.0))).collect()),
        _ => (rt::get(D::<S, U>::from_byte_slice(&to_bytes(&its)), m), its.to_vec()),
    };
    let rows = d_rows(leaves, a);
    let f = flat(&rows);
    same(&rt::get(t.read_range(0, f.len()), "read_range of the whole tree succeeds"), &f, "leaves are hashed with prefix 0, interior nodes with prefix 1, each from a fresh state");
    let i = pick_index("proof", n, a);
    let p = rt::get(t.gen_proof(i), "a proof of a leaf is generated");
    rt::check(rt::get(p.validate::<AlD>(), "validation of a generated proof is not an error"), "a generated proof validates");
    rt::reach("tree");
}
/// Elements of 32 bytes convert without loss, through every store.
fn element() {
    let v = sym_bytes("element", 32 * 4);
    let m = "an element converts to and from bytes without loss";
    let e: Vec<[u8; 32]> = v.chunks(32).map(<[u8; 32] as Element>::from_slice).collect();
    rt::check(<[u8; 32] as Element>::byte_len() == 32, m);
    for (i, x) in e.iter().enumerate() {
        rt::check_eq(x.as_ref(), &v[i * 32..i * 32 + 32], m);
        let mut b = [0; 32];
        x.copy_to_slice(&mut b);
        rt::check_eq(&b, &v[i * 32..i * 32 + 32], m);
    }
    fn through<S: Store<[u8; 32]>>(v: &[u8], m: &str) {
        let s = rt::get(S::new_from_slice(4, v), "a store over a slice is made");
        for i in 0..4 {
            let mut b = [0; 32];
            rt::check_eq(&rt::get(s.read_at(i), m), &v[i * 32..i * 32 + 32], m);
            rt::get(s.read_into(i, &mut b), m);
            rt::check_eq(&b, &v[i * 32..i * 32 + 32], m);
        }
        rt::check_eq(&rt::get(s.read_range(0..4), m).concat(), v, m);
    }
    through::<VecStore<[u8; 32]>>(&v, m);
    through::<DiskStore<[u8; 32]>>(&v, m);
    through::<MmapStore<[u8; 32]>>(&v, m);
    let n = rt::pick("length", 0, 64) as usize;
    if n != 32 {
        rt::check(rt::attempt(|| <[u8; 32] as Element>::from_slice(&v[..n])).is_none(), "a slice of another length is not an element");
    }
    rt::reach("element");
}
fn go_tree() {
    let (s, a, k) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1));
    let n = pow(a as usize, k as usize);
    by_arity!(a, by_store3, s, tree, (n))
}
entries! { h_ints => ints, h_texts => texts, h_tuples => tuples, h_defaults => default_methods, h_tree15 => go_tree, h_element => element }
