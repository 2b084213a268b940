//! C05: a proof of the tree's shape that validates against the tree's root proves a real leaf.
//! The hash is injective (collision free) in this property.
use crate::common::*;
use crate::huge::*;
use crate::rt;
use merkletree::proof::Proof;

/// A base-layer proof whose lemma and path are all symbolic.
fn any_base<U: Unsigned>(k: usize, root: El) -> Proof<El, U> {
    let mut lemma = items("lemma", 1 + k * (U::to_usize() - 1));
    lemma.push(root);
    let path: Vec<usize> = (0..k).map(|_| rt::any("path") as usize).collect();
    rt::get(Proof::<El, U>::new::<U0, U0>(None, lemma, path), "a proof of the tree's shape can be represented")
}
/// validate() of an arbitrary proof: no crash, and only proofs of real leaves pass.
fn accepted<U: Unsigned>(p: &Proof<El, U>) -> bool {
    match rt::no_panic("validation never panics", || p.validate::<Al>()) {
        Ok(b) => b,
        Err(_) => false,
    }
}
/// The position a path denotes; the path of an accepted proof must be one.
fn index_of<U: Unsigned>(p: &Proof<El, U>) -> usize {
    let a = U::to_usize();
    let (mut i, mut w) = (0, 1);
    for x in p.path() {
        rt::check(*x < a, "an accepted proof names an existing branch on each level");
        i += rt::conc(*x as u64) as usize * w;
        w *= a;
    }
    i
}
fn base<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let its = items("leaf", pow(a, k));
    let t = mk::<VecStore<El>, U>(&its, "c05");
    let rows = r_rows(&its, a);
    let p = any_base::<U>(k, t.root());
    if accepted(&p) {
        let i = index_of(&p);
        same1(&p.item(), &its[i], "an accepted proof proves the leaf at its path");
        let (lemma, _) = r_lemma(&rows, a, i);
        same(p.lemma(), &lemma, "an accepted proof is the leaf's authentication path");
        rt::reach("accepted");
    } else {
        rt::reach("rejected");
    }
}
fn over<U: Unsigned, Top: Unsigned, V: Unsigned>(inner: Proof<El, U>, n: usize, root: El) -> Proof<El, U> {
    let mut lemma = items("lemma", n - 1);
    lemma.push(root);
    let path = vec![rt::any("path") as usize];
    rt::get(Proof::<El, U>::new::<Top, V>(Some(Box::new(inner)), lemma, path), "a proof of the tree's shape can be represented")
}
fn sub<U: Unsigned, V: Unsigned>(k: usize) {
    let (a, v) = (U::to_usize(), V::to_usize());
    let n = pow(a, k);
    let (ts, leaves, rows) = bases::<VecStore<El>, U>(v, n);
    let t = rt::get(Ts::<VecStore<El>, U, V>::from_trees(ts), "a compound tree of equal trees is built");
    let p = over::<U, U0, V>(any_base::<U>(k, item("root")), v, t.root());
    if accepted(&p) {
        let b = p.path()[0];
        rt::check(b < v, "an accepted proof names an existing tree");
        let b = rt::conc(b as u64) as usize;
        let q = p.sub_tree_proof.as_ref().unwrap();
        let i = b * n + index_of(q);
        same1(&p.item(), &leaves[i], "an accepted proof proves the leaf at its path");
        check_sub_proof(&p, &rows, i);
        rt::reach("accepted");
    } else {
        rt::reach("rejected");
    }
}
fn top<U: Unsigned, V: Unsigned, W: Unsigned>(k: usize) {
    let (a, v, w) = (U::to_usize(), V::to_usize(), W::to_usize());
    let n = pow(a, k);
    let (ts, leaves, rows) = bases::<VecStore<El>, U>(v * w, n);
    let t = rt::get(Tt::<VecStore<El>, U, V, W>::from_sub_trees_as_trees(ts), "a compound tree of equal trees is built");
    let p = over::<U, W, V>(over::<U, U0, V>(any_base::<U>(k, item("root")), v, item("root")), w, t.root());
    if accepted(&p) {
        let g = p.path()[0];
        rt::check(g < w, "an accepted proof names an existing sub-tree");
        let g = rt::conc(g as u64) as usize;
        let q = p.sub_tree_proof.as_ref().unwrap();
        let b = q.path()[0];
        rt::check(b < v, "an accepted proof names an existing tree");
        let b = rt::conc(b as u64) as usize;
        let i = (g * v + b) * n + index_of(q.sub_tree_proof.as_ref().unwrap());
        same1(&p.item(), &leaves[i], "an accepted proof proves the leaf at its path");
        check_top_proof(&p, &rows, v, i);
        rt::reach("accepted");
    } else {
        rt::reach("rejected");
    }
}
fn go_base() {
    by_arity1!(rt::param("arity", 2), base, [], (rt::param("k", 1) as usize))
}
fn go_sub() {
    let (a, v) = (rt::param("arity", 2), rt::param("sub", 2));
    let k = rt::param("k", 1) as usize;
    match v {
        2 => by_arity1!(a, sub, [U2], (k)),
        3 => by_arity1!(a, sub, [U3], (k)),
        8 => sub::<U2, U8>(k),
        _ => panic!("harness: bad shape"),
    }
}
fn go_top() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2), rt::param("top", 2)) {
        (2, 2, 2) => top::<U2, U2, U2>(k),
        (2, 3, 2) => top::<U2, U3, U2>(k),
        (4, 2, 2) => top::<U4, U2, U2>(k),
        (2, 2, 4) => top::<U2, U2, U4>(k),
        _ => panic!("harness: bad shape"),
    }
}
/// Proofs of trees of many rows, along the path of one leaf: any leaf, any siblings.
fn large<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let i = pick_index("index", pow(a, k), a);
    let h = Huge::new(a, k, i, 1, "node");
    let mut lemma = items("lemma", 1 + k * (a - 1));
    lemma.push(h.root);
    let mut path = h.path.clone();
    // one step of the path may lead nowhere
    let off = rt::pick("astray", 0, k as u64) as usize;
    if off < k {
        path[off] = rt::range("branch", a as u64, u64::MAX) as usize;
    }
    let p = rt::get(Proof::<El, U>::new::<U0, U0>(None, lemma, path), "a proof of the tree's shape can be represented");
    if accepted(&p) {
        rt::check(off == k, "an accepted proof names an existing branch on each level");
        same(p.lemma(), &h.lemma, "an accepted proof is the leaf's authentication path");
        rt::reach("accepted");
    }
    rt::reach("large");
}
fn go_large() {
    by_arity1!(rt::param("arity", 2), large, [], (rt::param("k", 33) as usize))
}
entries! { h_large5 => go_large, h_base => go_base, h_sub5 => go_sub, h_top5 => go_top }
