//! C12: input that denotes no tree, node or proof is an error: no panic, no result.
use crate::common::*;
use crate::huge::*;
use crate::rt;
use merkletree::merkle::FromIndexedParallelIterator;
use merkletree::proof::Proof;
use rayon::prelude::*;

const BUILD: &str = "building never panics";
const READ: &str = "reading never panics";
const LIMIT: u64 = 1 << 48;
/// Any base constructor over `n` leaves; true if it refused.
fn refused<S: Store<El>, U: Unsigned>(how: u64, its: &[El], id: &str) -> bool {
    match how {
        0 => rt::no_panic(BUILD, || T::<S, U>::new(its.to_vec())).is_err(),
        1 => rt::no_panic(BUILD, || T::<S, U>::new_with_config(its.to_vec(), cfg(id, 0))).is_err(),
        2 => rt::no_panic(BUILD, || T::<S, U>::from_data(its.to_vec())).is_err(),
        3 => rt::no_panic(BUILD, || T::<S, U>::from_data_with_config(its.to_vec(), cfg(id, 0))).is_err(),
        4 => rt::no_panic(BUILD, || T::<S, U>::from_par_iter(its.to_vec().into_par_iter())).is_err(),
        5 => rt::no_panic(BUILD, || T::<S, U>::from_par_iter_with_config(its.to_vec().into_par_iter(), cfg(id, 0))).is_err(),
        6 => rt::no_panic(BUILD, || T::<S, U>::from_byte_slice(&to_bytes(its))).is_err(),
        7 => rt::no_panic(BUILD, || T::<S, U>::from_byte_slice_with_config(&to_bytes(its), cfg(id, 0))).is_err(),
        8 => rt::no_panic(BUILD, || T::<S, U>::try_from_iter(its.iter().map(|x| Ok(*x)))).is_err(),
        _ => rt::no_panic(BUILD, || T::<S, U>::try_from_iter_with_config(its.iter().map(|x| Ok(*x)), cfg(id, 0))).is_err(),
    }
}
/// Leaf counts that are no power of the arity; a second attempt under the same name as well.
fn counts<S: Store<El>, U: Unsigned>(top: u64) {
    let how = rt::pick("constructor", 0, 9);
    let n = rt::pick("leaves", 0, top) as usize;
    rt::assume(n <= 1 || log(n, U::to_usize()).is_none());
    let its = items("leaf", n);
    rt::check(refused::<S, U>(how, &its, "c12"), "a leaf count that is no power of the arity is refused");
    rt::check(refused::<S, U>(how, &its, "c12"), "a leaf count that is no power of the arity is refused again");
    rt::reach("counts");
}
/// Byte slices of leaves whose length is no multiple of the element size.
fn ragged<S: Store<El>, U: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let its = items("leaf", n + 1);
    let b = to_bytes(&its);
    let l = rt::pick("bytes", 0, b.len() as u64) as usize;
    rt::assume(l != n * EL);
    rt::assume(log(l / EL, U::to_usize()).is_none() || l % EL != 0 || l / EL == 1);
    rt::check(rt::no_panic(BUILD, || T::<S, U>::from_byte_slice(&b[..l])).is_err(), "a byte slice of the wrong length is refused");
    rt::check(rt::no_panic(BUILD, || T::<S, U>::from_byte_slice_with_config(&b[..l], cfg("c12", 0))).is_err(), "a byte slice of the wrong length is refused");
    rt::reach("ragged");
}
/// Whole trees of the wrong length, or with the wrong leaf count.
fn slices<S: Store<El>, U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let f = flat(&r_rows(&items("leaf", n), a));
    let len = f.len();
    let how = rt::pick("how", 0, 3);
    let mut b = to_bytes(&f);
    b.extend_from_slice(&[0; 2 * EL]);
    let elems = rt::pick("elements", 0, len as u64 + 2) as usize;
    let extra = if elems < len + 2 { [0, 1, 7][rt::pick("extra", 0, 2) as usize] } else { 0 };
    let l = elems * EL + extra;
    // leaf counts around the right one; a tree of another legal shape is not ours to refuse
    let leafs = match rt::pick("leafs", 0, 7) {
        0 => 0,
        1 => 1,
        2 => n - 1,
        3 => n,
        4 => n + 1,
        5 => 2 * n,
        6 => n * a,
        _ => n / 2,
    };
    let legal = leafs > 1 && log(leafs, a).is_some();
    rt::assume(!(legal && l == flat_len(leafs, a) * EL));
    let bad = match how {
        0 => rt::no_panic(BUILD, || T::<S, U>::from_tree_slice(&b[..l], leafs)).is_err(),
        1 => rt::no_panic(BUILD, || T::<S, U>::from_tree_slice_with_config(&b[..l], leafs, cfg("c12", 0))).is_err(),
        2 => {
            // a store whose capacity does not fit its data, or that is no tree of that many leaves
            match rt::no_panic(BUILD, || S::new_from_slice(len, &b[..l])) {
                Ok(s) => {
                    rt::check((l % EL == 0) & (l <= len * EL), "data beyond a store's capacity is refused");
                    rt::no_panic(BUILD, || T::<S, U>::from_data_store(s, leafs)).is_err()
                }
                Err(_) => {
                    rt::check((l % EL != 0) | (l > len * EL), "data that fits a store is accepted");
                    true
                }
            }
        }
        _ => match rt::no_panic(BUILD, || S::new_from_slice_with_config(len, a, &b[..l], cfg("c12s", 0))) {
            Ok(s) => {
                rt::check((l % EL == 0) & (l <= len * EL), "data beyond a store's capacity is refused");
                rt::no_panic(BUILD, || T::<S, U>::from_data_store(s, leafs)).is_err()
            }
            Err(_) => {
                rt::check((l % EL != 0) | (l > len * EL), "data that fits a store is accepted");
                true
            }
        },
    };
    rt::check(bad, "tree data of the wrong length or leaf count is refused");
    rt::reach("slices");
}
pub fn flat_len(leafs: usize, a: usize) -> usize {
    let (mut s, mut w) = (0, leafs);
    while w > 1 {
        s += w;
        w /= a;
    }
    s + w
}
/// Positions outside the tree, for every reader.
fn reads<S: Store<El>, U: Unsigned>(k: usize, ranges_into: bool) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let t = mk::<S, U>(&its, "c12");
    let len = flat_len(n, a);
    let m = "reading outside the tree is an error";
    match rt::pick("reader", 0, 6) {
        0 => {
            let i = rt::range("index", len as u64, LIMIT) as usize;
            rt::check(rt::no_panic(READ, || t.read_at(i)).is_err(), m);
        }
        1 => {
            let i = rt::range("index", len as u64, LIMIT) as usize;
            let mut b = [0; EL];
            rt::check(rt::no_panic(READ, || t.read_into(i, &mut b)).is_err(), m);
        }
        2 => {
            let s = rt::range("start", 0, LIMIT) as usize;
            let e = rt::range("end", 0, LIMIT) as usize;
            rt::assume((s >= e) | (e > len));
            rt::check(rt::no_panic(READ, || t.read_range(s, e)).is_err(), m);
        }
        3 => {
            let i = rt::any("index") as usize;
            rt::assume(i >= n);
            rt::check(rt::no_panic(READ, || t.gen_proof(i)).is_err(), "a proof for no leaf is an error");
        }
        4 => {
            let i = rt::any("index") as usize;
            rt::assume(i >= n);
            let r = rt::pick("rows", 0, 1);
            let rows = if r == 0 { None } else { Some(rt::any("number") as usize) };
            rt::check(rt::no_panic(READ, || t.gen_cached_proof(i, rows)).is_err(), "a proof for no leaf is an error");
        }
        5 if ranges_into => {
            let s = rt::range("start", 0, LIMIT) as usize;
            let e = rt::range("end", 0, LIMIT) as usize;
            rt::assume((s >= e) | (e > len));
            let mut b = vec![0; len * EL];
            rt::check(rt::no_panic(READ, || t.read_range_into(s, e, &mut b)).is_err(), m);
        }
        _ => {
            // the store itself, beyond what it holds
            let d = t.data().unwrap();
            let i = rt::range("index", len as u64, LIMIT) as usize;
            rt::check(rt::no_panic(READ, || d.read_at(i)).is_err(), m);
            let e = rt::range("end", len as u64 + 1, LIMIT) as usize;
            let s = rt::range("start", 0, LIMIT) as usize;
            rt::assume(s < e);
            rt::check(rt::no_panic(READ, || d.read_range(s..e)).is_err(), m);
        }
    }
    rt::reach("reads");
}
/// Proofs of any shape: construction or validation refuses all but the right one.
fn shapes<U: Unsigned>() {
    let a = U::to_usize();
    let (l, p) = (rt::pick("lemma", 0, 3 * (a as u64 - 1) + 3) as usize, rt::pick("path", 0, 4) as usize);
    let path: Vec<usize> = (0..p).map(|_| rt::any("step") as usize).collect();
    rt::assume(l != p * (a - 1) + 2 || p == 0);
    let r = rt::no_panic("making a proof never panics", || Proof::<El, U>::new::<U0, U0>(None, items("lemma", l), path));
    if let Ok(q) = r {
        let v = rt::no_panic("validation never panics", || q.validate::<Al>());
        rt::check(!matches!(v, Ok(true)), "a proof of the wrong shape is not accepted");
    }
    rt::reach("shapes");
}
/// A base proof whose lemma was lengthened or shortened afterwards.
fn resized<U: Unsigned>() {
    let a = U::to_usize();
    let p = rt::pick("path", 1, 3) as usize;
    let path: Vec<usize> = (0..p).map(|_| rt::range("step", 0, a as u64 - 1) as usize).collect();
    let mut q = rt::get(Proof::<El, U>::new::<U0, U0>(None, items("lemma", p * (a - 1) + 2), path), "a proof of the right shape is made");
    let l = rt::pick("lemma", 1, p as u64 * (a as u64 - 1) + 5) as usize;
    rt::assume(l != p * (a - 1) + 2);
    q.lemma_mut().resize(l, El::default());
    let v = rt::no_panic("validation never panics", || q.validate::<Al>());
    rt::check(!matches!(v, Ok(true)), "a proof of the wrong shape is not accepted");
    rt::reach("resized");
}
/// Compound proofs with layers of any shape, or without the inner proof.
fn layers<V: Unsigned, W: Unsigned>() {
    let leaf = item("leaf");
    let mk_base = || rt::get(Proof::<El, U2>::new::<U0, U0>(None, vec![leaf, leaf, r_node(&[leaf, leaf], 0)], vec![0]), "a proof of the right shape is made");
    let arity = if W::to_usize() > 0 { W::to_usize() } else { V::to_usize() };
    let l = rt::pick("lemma", 0, arity as u64 + 2) as usize;
    let p = rt::pick("path", 0, 2) as usize;
    let inner = rt::pick("inner", 0, 1) == 1;
    rt::assume(l != arity || p != 1 || !inner);
    let path: Vec<usize> = (0..p).map(|_| rt::any("step") as usize).collect();
    let sub = if !inner {
        None
    } else if W::to_usize() > 0 && V::to_usize() > 0 {
        let v = V::to_usize();
        let b = mk_base();
        let roots = vec![b.root(); v];
        let mut lem = roots[1..].to_vec();
        lem.push(r_over(&roots));
        Some(Box::new(rt::get(Proof::<El, U2>::new::<U0, V>(Some(Box::new(b)), lem, vec![0]), "a proof of the right shape is made")))
    } else {
        Some(Box::new(mk_base()))
    };
    let r = rt::no_panic("making a proof never panics", || Proof::<El, U2>::new::<W, V>(sub, items("lemma", l), path));
    if let Ok(q) = r {
        let v = rt::no_panic("validation never panics", || q.validate::<Al>());
        rt::check(!matches!(v, Ok(true)), "a proof of the wrong shape is not accepted");
    }
    rt::reach("layers");
}
/// Operations on the wrong kind of tree.
fn kinds() {
    let its = items("leaf", 4);
    let f = to_bytes(&flat(&r_rows(&its, 2)));
    type S = DiskStore<El>;
    let st = || rt::get(S::new_from_slice(7, &f), "a store over a full tree opens");
    let e = "a tree of the wrong kind is refused";
    match rt::pick("what", 0, 9) {
        0 => rt::check(rt::no_panic(BUILD, || Ts::<S, U2, U2>::from_data_store(st(), 4)).is_err(), e),
        1 => rt::check(rt::no_panic(BUILD, || Tt::<S, U2, U2, U2>::from_data_store(st(), 4)).is_err(), e),
        2 => rt::check(rt::no_panic(BUILD, || Ts::<S, U2, U2>::from_tree_slice(&f, 4)).is_err(), e),
        3 => rt::check(rt::no_panic(BUILD, || Ts::<S, U2, U2>::from_tree_slice_with_config(&f, 4, cfg("c12", 0))).is_err(), e),
        4 => rt::check(rt::no_panic(BUILD, || T::<S, U2>::from_trees(vec![])).is_err(), e),
        5 => rt::check(rt::no_panic(BUILD, || Ts::<S, U2, U2>::from_sub_trees(vec![])).is_err(), e),
        6 => rt::check(rt::no_panic(BUILD, || Ts::<S, U2, U2>::from_sub_trees_as_trees(vec![])).is_err(), e),
        7 => rt::check(rt::no_panic(BUILD, || Ts::<S, U2, U2>::from_sub_tree_store_configs(4, &[])).is_err(), e),
        h => {
            let (ts, _, _) = bases::<S, U2>(2, 4);
            let mut t = rt::get(Ts::<S, U2, U2>::from_trees(ts), "a compound tree of equal trees is built");
            let e = "a compound tree has no store of its own";
            if h == 8 {
                let mut b = [0; EL];
                rt::check(rt::no_panic(READ, || t.read_range(0, 1)).is_err(), e);
                rt::check(rt::no_panic(READ, || t.read_into(0, &mut b)).is_err(), e);
                rt::check(rt::no_panic(READ, || t.read_range_into(0, 1, &mut b)).is_err(), e);
            } else {
                rt::check(rt::no_panic("compacting never panics", || t.compact(cfg("base-a", 1), 1)).is_err(), e);
                rt::check(rt::no_panic("reinit never panics", || t.reinit()).is_err(), e);
            }
        }
    }
    rt::reach("kinds");
}
/// Base arities that are no power of two.
fn arity<U: Unsigned>() {
    let how = rt::pick("constructor", 0, 9);
    let n = rt::pick("leaves", 0, 9) as usize;
    let its = items("leaf", n);
    rt::check(refused::<DiskStore<El>, U>(how, &its, "c12"), "an arity that is no power of two above one is refused");
    rt::check(rt::no_panic(BUILD, || T::<VecStore<El>, U>::from_tree_slice(&to_bytes(&its), n)).is_err(), "an arity that is no power of two above one is refused");
    rt::reach("arity");
}
/// Iterators that do not say how many leaves they hold, or hold fewer than they say.
struct Hint {
    left: usize,
    say: Option<usize>,
}
impl Iterator for Hint {
    type Item = anyhow::Result<El>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(Ok(item("leaf")))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.say)
    }
}
fn hints<S: Store<El>, U: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let left = rt::pick("yields", 0, n as u64 + 2) as usize;
    let say = if flag("silent") { None } else { Some(n) };
    rt::assume(left != n || say.is_none());
    let e = "an iterator without or with a wrong number of leaves is refused";
    if flag("named") {
        let c = cfg("c12", 0);
        rt::check(rt::no_panic(BUILD, || T::<S, U>::try_from_iter_with_config(Hint { left, say }, c)).is_err(), e);
    } else {
        rt::check(rt::no_panic(BUILD, || T::<S, U>::try_from_iter(Hint { left, say })).is_err(), e);
    }
    rt::reach("hints");
}
/// Configs, replica offsets and slices in differing numbers.
fn lists() {
    let e = "lists of differing lengths are refused";
    let c = rt::pick("configs", 0, 5) as usize;
    let o = rt::pick("offsets", 0, 5) as usize;
    rt::assume(c != o);
    let its = items("leaf", 4);
    let p = write_file("c12.replica", &to_bytes(&its));
    let cs: Vec<_> = (0..c).map(|i| cfg(&name_of(i), 0)).collect();
    for i in 0..c {
        compacted::<U2>(&its, &name_of(i), 0, 2);
    }
    let r = ReplicaConfig::new(&p, vec![0; o]);
    match rt::pick("what", 0, 3) {
        0 => rt::check(rt::no_panic(BUILD, || Ts::<Lc, U2, U2>::from_store_configs_and_replica(4, &cs, &r)).is_err(), e),
        1 => rt::check(rt::no_panic(BUILD, || Tt::<Lc, U2, U2, U2>::from_sub_tree_store_configs_and_replica(4, &cs, &r)).is_err(), e),
        2 => {
            let f = to_bytes(&flat(&r_rows(&its, 2)));
            let sl = vec![&f[..]; o];
            rt::check(rt::no_panic(BUILD, || Ts::<VecStore<El>, U2, U2>::from_slices_with_configs(&sl, 4, &cs)).is_err(), e)
        }
        _ => {
            let i = rt::range("at", o as u64, u64::MAX) as usize;
            rt::check(rt::no_panic(BUILD, || ExternalReader::new_from_config(&r, i)).is_err(), "a reader without an offset is refused")
        }
    }
    rt::reach("lists");
}
/// Leaf positions outside compound trees.
fn compound() {
    let (ts, _, _) = bases::<DiskStore<El>, U2>(6, 4);
    let e = "a leaf position outside a compound tree is an error";
    let i = rt::any("index") as usize;
    let rows = if flag("rows") { None } else { Some(rt::any("number") as usize) };
    if flag("top") {
        let t = rt::get(Tt::<DiskStore<El>, U2, U3, U2>::from_sub_trees_as_trees(ts), "a compound tree of equal trees is built");
        rt::assume(i >= 24);
        rt::check(rt::no_panic(READ, || t.read_at(i)).is_err(), e);
        rt::check(rt::no_panic(READ, || t.gen_proof(i)).is_err(), e);
        rt::check(rt::no_panic(READ, || t.gen_cached_proof(i, rows)).is_err(), e);
    } else {
        let t = rt::get(Ts::<DiskStore<El>, U2, U6>::from_trees(ts), "a compound tree of equal trees is built");
        rt::assume(i >= 24);
        rt::check(rt::no_panic(READ, || t.read_at(i)).is_err(), e);
        rt::check(rt::no_panic(READ, || t.gen_proof(i)).is_err(), e);
        rt::check(rt::no_panic(READ, || t.gen_cached_proof(i, rows)).is_err(), e);
    }
    rt::reach("compound");
}
/// Level-cache stores: positions outside the tree, and leaf counts that are no power of the arity.
fn cached<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let t = compacted::<U>(&its, "c12", d, rt::pick("version", 1, 2) as u32);
    let len = flat_len(n, a);
    let m = "reading outside the tree is an error";
    let i = rt::range("index", len as u64, LIMIT) as usize;
    let mut b = [0; EL];
    rt::check(rt::no_panic(READ, || t.read_at(i)).is_err(), m);
    rt::check(rt::no_panic(READ, || t.read_into(i, &mut b)).is_err(), m);
    let s = rt::range("start", 0, LIMIT) as usize;
    let e = rt::range("end", 0, LIMIT) as usize;
    rt::assume((s >= e) | (e > len));
    rt::check(rt::no_panic(READ, || t.read_range(s, e)).is_err(), m);
    let mut b = vec![0; len * EL];
    rt::check(rt::no_panic(READ, || t.read_range_into(s, e, &mut b)).is_err(), m);
    let i = rt::any("leafidx") as usize;
    rt::assume(i >= n);
    rt::check(rt::no_panic(READ, || t.gen_proof(i)).is_err(), m);
    rt::check(rt::no_panic(READ, || t.gen_cached_proof(i, Some(rt::any("number") as usize))).is_err(), m);
    rt::reach("cached");
}
fn cached_counts<U: Unsigned>(top: u64) {
    let how = [1u64, 3, 5, 7, 9][rt::pick("constructor", 0, 4) as usize];
    let n = rt::pick("leaves", 0, top) as usize;
    rt::assume(n <= 1 || log(n, U::to_usize()).is_none());
    let its = items("leaf", n);
    rt::check(refused::<Lc, U>(how, &its, "c12"), "a leaf count that is no power of the arity is refused");
    rt::check(refused::<Lc, U>(how, &its, "c12"), "a leaf count that is no power of the arity is refused again");
    rt::reach("cached_counts");
}
fn go_cached() {
    by_arity1!(rt::param("arity", 2), cached, [], (k()))
}
fn go_cached_counts() {
    by_arity1!(rt::param("arity", 2), cached_counts, [], (rt::param("top", 12)))
}
fn k() -> usize {
    rt::param("k", 1) as usize
}
fn go_counts() {
    by_arity!(rt::param("arity", 2), by_store3, rt::param("store", 0), counts, (rt::param("top", 12)))
}
fn go_ragged() {
    by_arity!(rt::param("arity", 2), by_store3, rt::param("store", 0), ragged, (k()))
}
fn go_slices() {
    by_arity!(rt::param("arity", 2), by_store3, rt::param("store", 0), slices, (k()))
}
fn go_reads() {
    let s = rt::param("store", 0);
    by_arity!(rt::param("arity", 2), by_store3, s, reads, (k(), s == 1))
}
fn go_hints() {
    by_arity!(rt::param("arity", 2), by_store3, rt::param("store", 0), hints, (k()))
}
fn go_shapes() {
    by_arity1!(rt::param("arity", 2), shapes, [], ())
}
fn go_resized() {
    by_arity1!(rt::param("arity", 2), resized, [], ())
}
fn go_layers() {
    match rt::param("shape", 0) {
        0 => layers::<U2, U0>(),
        1 => layers::<U3, U0>(),
        2 => layers::<U2, U2>(),
        3 => layers::<U2, U3>(),
        _ => layers::<U0, U2>(),
    }
}
fn go_arity() {
    match rt::param("arity", 3) {
        0 => arity::<U0>(),
        1 => arity::<U1>(),
        3 => arity::<U3>(),
        _ => arity::<U5>(),
    }
}
/// Indices and ranges outside a tree too large to build, in a sparse file.
fn large<S: Store<El>, U: Unsigned>(k: usize, e: usize) {
    let h = Huge::new(U::to_usize(), k, 0, e, "node");
    let c = cfg("c12g", 0);
    h.full(&c);
    let t = open::<S, U>(&h, &c);
    let i = rt::range("leaf", h.leafs as u64, LIMIT) as usize;
    let m = "a proof for no leaf is an error";
    rt::check(rt::no_panic(READ, || t.gen_proof(i)).is_err(), m);
    rt::check(rt::no_panic(READ, || t.gen_cached_proof(i, Some(e - 1))).is_err(), m);
    let i = rt::range("node", h.len as u64, LIMIT) as usize;
    let m = "reading no node is an error";
    let mut b = [0; 2 * EL];
    rt::check(rt::no_panic(READ, || t.read_at(i)).is_err(), m);
    rt::check(rt::no_panic(READ, || t.read_into(i, &mut b[..EL])).is_err(), m);
    rt::check(rt::no_panic(READ, || t.read_range(i, i + 1)).is_err(), m);
    rt::check(rt::no_panic(READ, || t.read_range(h.len - 1, i + 1)).is_err(), m);
    rt::check(rt::no_panic(READ, || t.read_range(i, 1)).is_err(), m);
    // stores of another length, shapes of another leaf count
    let (len, n) = (h.len, h.leafs);
    drop(t);
    let m = "a store that is no tree of this shape is refused";
    for (l, x) in [(len, n / U::to_usize()), (len, n * U::to_usize()), (len, n - 1), (len, n + 1), (len, n % (1 << 32)), (len, n + (1 << 32))] {
        let s = rt::get(S::new_from_disk(l, U::to_usize(), &c), "a store of this size opens");
        rt::check(rt::no_panic(BUILD, || T::<S, U>::from_data_store(s, x)).is_err(), m);
    }
    rt::reach("large");
}
fn go_large() {
    let (s, a, k, e) = (rt::param("store", 1), rt::param("arity", 2), rt::param("k", 33) as usize, rt::param("height", 3) as usize);
    by_arity!(a, by_files, s, large, (k, e))
}
entries! { h_large12 => go_large, h_counts => go_counts, h_ragged => go_ragged, h_slices => go_slices, h_reads => go_reads, h_shapes => go_shapes, h_resized => go_resized,
h_layers => go_layers, h_kinds => kinds, h_arity => go_arity, h_hints => go_hints, h_lists => lists, h_compound12 => compound, h_cached => go_cached, h_cached_counts => go_cached_counts }
