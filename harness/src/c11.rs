//! C11: size arithmetic agrees with the shape of perfect trees.
use crate::common::*;
use crate::rt;
use merkletree::merkle::{
    get_merkle_proof_lemma_len, get_merkle_tree_cache_size, get_merkle_tree_leafs, get_merkle_tree_len, get_merkle_tree_len_generic, get_merkle_tree_row_count,
    is_merkle_tree_size_valid, log2_pow2, next_pow2,
};

const TOP: usize = 48;
/// Reference: length of the perfect tree over a^k leaves.
fn r_len(a: usize, k: usize) -> usize {
    let (mut s, mut p) = (1, 1);
    for _ in 0..k {
        p *= a;
        s += p;
    }
    s
}
fn bits(a: usize) -> usize {
    let mut b = 0;
    while (1 << b) < a {
        b += 1;
    }
    b
}
/// Every k: the functions of a leaf count, on the tree with a^k leaves.
fn of_leafs(a: usize) {
    let k = rt::pick("k", 1, (TOP / bits(a)) as u64) as usize;
    let n = pow(a, k);
    rt::check(rt::get(get_merkle_tree_len(n, a), "the length of a perfect tree is defined") == r_len(a, k), "the tree length is the number of nodes of the perfect tree");
    rt::check(rt::get(get_merkle_tree_leafs(r_len(a, k), a), "the length of a perfect tree is recognised") == n, "the leaf count is recovered from the length");
    rt::check(get_merkle_tree_row_count(n, a) == k + 1, "the row count is that of the perfect tree");
    rt::check(is_merkle_tree_size_valid(n, a), "a power of the arity is a valid leaf count");
    rt::check(get_merkle_proof_lemma_len(k + 1, a) == 2 + k * (a - 1), "a proof has one sibling less than the arity per row, and leaf and root");
    let d = StoreConfig::default_rows_to_discard(n, a);
    let cap = match a {
        2 => 7,
        4 => 5,
        _ => 2,
    };
    rt::check(d == if k - 1 < cap { k - 1 } else { cap }, "the default discards the documented number of rows, but never the root");
    // cache size for every 64-bit number of rows
    let r = rt::any("rows");
    let r = if r < k as u64 { rt::conc(r) } else { r };
    let c = rt::no_panic("size arithmetic never panics", || get_merkle_tree_cache_size(n, a, r as usize));
    if r < k as u64 {
        // the rows 1..=r above the base are gone
        let c = rt::get(c, "the cache size of a legal discard count is defined");
        let mut want = 0;
        for j in 0..k {
            if ((j as u64) + r) < k as u64 {
                want += pow(a, j);
            }
        }
        rt::check(c == want, "the cache is the rows above the discarded ones");
        rt::reach("legal");
    } else {
        rt::check(c.is_err(), "discarding every row above the base is refused");
        rt::reach("illegal");
    }
}
/// Every 48-bit leaf count: valid exactly if a power of the arity.
fn valid(a: usize) {
    let n = rt::range("leafs", 0, 1 << TOP) as usize;
    let mut power = false;
    let mut p = 1usize;
    while p <= 1 << TOP {
        power |= n == p;
        p *= a;
    }
    rt::check(is_merkle_tree_size_valid(n, a) == power, "a leaf count is valid exactly if it is a power of the arity");
    rt::reach("valid");
}
/// Every 48-bit length: accepted exactly if some perfect tree has it.
fn lens(a: usize) {
    let l = rt::range("len", 0, 1 << TOP) as usize;
    let mut want = 0usize;
    let (mut p, mut s) = (1usize, 1usize);
    while s <= 1 << TOP {
        if l == s {
            want = p;
        }
        p *= a;
        s += p;
    }
    match rt::no_panic("size arithmetic never panics", || get_merkle_tree_leafs(l, a)) {
        Ok(n) => rt::check((n == want) & (want != 0), "only the length of a perfect tree has a leaf count, and it is that tree's"),
        Err(_) => rt::check(want <= 1, "the length of a perfect tree has a leaf count"),
    }
    rt::reach("lens");
}
/// Every leaf count below the arity is refused; for arity 2 so is every leaf count that is no power.
fn refused(a: usize) {
    let n = rt::range("leafs", 0, 1 << TOP) as usize;
    rt::assume((n < a) | (a == 2));
    let r = rt::no_panic("size arithmetic never panics", || get_merkle_tree_len(n, a));
    if n < a {
        rt::check(r.is_err(), "fewer leaves than the arity have no length");
        rt::reach("few");
    } else if a == 2 && n & (n - 1) != 0 {
        rt::check(r.is_err(), "a leaf count that is no power of two has no length");
        rt::reach("odd");
    }
}
/// Every arity below 2^16 that is no power of two is refused.
fn arities() {
    let a = rt::range("arity", 0, 1 << 16) as usize;
    rt::assume(a & a.wrapping_sub(1) != 0);
    let n = rt::range("leafs", 0, 1 << TOP) as usize;
    rt::check(rt::no_panic("size arithmetic never panics", || get_merkle_tree_len(n, a)).is_err(), "an arity that is no power of two is refused");
    rt::check(rt::no_panic("size arithmetic never panics", || get_merkle_tree_leafs(n, a)).is_err(), "an arity that is no power of two is refused");
    rt::check(!rt::no_panic("size arithmetic never panics", || is_merkle_tree_size_valid(n, a)), "an arity that is no power of two is refused");
    rt::check(n < 2 || !rt::no_panic("size arithmetic never panics", || is_merkle_tree_size_valid(n, 1)), "no tree of several leaves has arity one");
    rt::reach("arities");
}
/// Proof length for every row count and arity.
fn lemmas() {
    let a = rt::range("arity", 2, 1 << 10) as usize;
    let rows = rt::range("rows", 1, 64) as usize;
    rt::check(get_merkle_proof_lemma_len(rows, a) == (rows - 1) * a + 3 - rows, "a proof has one sibling less than the arity per row, and leaf and root");
    rt::reach("lemmas");
}
/// The powers of two themselves.
fn powers() {
    let n = rt::range("number", 0, 1 << 62) as usize;
    let p = rt::no_panic("size arithmetic never panics", || next_pow2(n));
    rt::check((p & p.wrapping_sub(1) == 0) & (p >= n) & (p >= 1) & (p == 1 || p / 2 < n), "next_pow2 is the least power of two that is not less");
    let e = rt::pick("exponent", 0, 63) as usize;
    rt::check(log2_pow2(1 << e) == e, "log2_pow2 is the logarithm of a power of two");
    rt::reach("powers");
}
fn gen<U: Unsigned, V: Unsigned, W: Unsigned>() {
    let a = U::to_usize();
    let k = rt::pick("k", 1, (TOP / bits(a)) as u64) as usize;
    let n = pow(a, k);
    let l = rt::get(get_merkle_tree_len_generic::<U, V, W>(n), "the length of a compound tree is defined");
    let (v, w) = (V::to_usize(), W::to_usize());
    let mut want = r_len(a, k);
    if v > 0 {
        want = want * v + 1;
    }
    if w > 0 {
        want = want * w + 1;
    }
    rt::check(l == want, "the length of a compound tree is that of its components and the roots above");
    rt::reach("generic");
}
fn generic() {
    match rt::pick("shape", 0, 7) {
        0 => gen::<U2, U0, U0>(),
        1 => gen::<U2, U3, U0>(),
        2 => gen::<U4, U2, U0>(),
        3 => gen::<U8, U8, U0>(),
        4 => gen::<U2, U2, U2>(),
        5 => gen::<U2, U3, U5>(),
        6 => gen::<U4, U4, U2>(),
        _ => gen::<U8, U8, U2>(),
    }
}
fn a() -> usize {
    rt::param("arity", 2) as usize
}
entries! { h_leafs => || of_leafs(a()), h_valid => || valid(a()), h_lens => || lens(a()), h_refused11 => || refused(a()),
h_arities => arities, h_lemmas => lemmas, h_generic => generic, h_powers => powers }
