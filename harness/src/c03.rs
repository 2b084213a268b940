//! C03: the proof generated for a leaf is that leaf's authentication path and validates.
use crate::c01::build;
use crate::common::*;
use crate::huge::*;
use crate::rt;

fn proof_lc<U: Unsigned>(how: u64, n: usize) {
    proof::<Lc, U>(how, n)
}
fn proof<S: Store<El>, U: Unsigned>(how: u64, n: usize) {
    let its = items("leaf", n);
    let (t, leaves) = build::<S, U>(how, &its, "c03");
    let rows = r_rows(&leaves, U::to_usize());
    let i = pick_index("index", n, U::to_usize());
    let p = rt::get(t.gen_proof(i), "a proof is generated for every leaf");
    let (lemma, path) = r_lemma(&rows, U::to_usize(), i);
    check_proof_is(&p, &lemma, &path, "the proof holds the leaf, its siblings bottom-up and the root, and the leaf's path");
    same1(&p.item(), &leaves[i], "item() is the leaf");
    same1(&p.root(), &t.root(), "the proof's root is the tree's root");
    rt::check(p.sub_tree_proof.is_none() && p.top_layer_nodes() == 0 && p.sub_layer_nodes() == 0, "a base proof has no layers above");
    let ok = rt::get(p.validate::<Al>(), "validation of a generated proof is not an error");
    rt::check(ok, "a generated proof validates");
    rt::reach("proof");
}
fn go() {
    let (s, a, k, h) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("how", 7));
    let n = pow(a as usize, k as usize);
    if a == 16 {
        return by_arity_wide!(s, proof, (h, n));
    }
    if s == 3 {
        return by_arity1!(a, proof_lc, [], (h, n));
    }
    by_arity!(a, by_store3, s, proof, (h, n))
}
/// A tree too large to build, in a sparse file.
fn large<S: Store<El>, U: Unsigned>(k: usize, e: usize) {
    let i = pick_index("index", pow(U::to_usize(), k), U::to_usize());
    let h = Huge::new(U::to_usize(), k, i, e, "node");
    let c = cfg("c03g", 0);
    h.full(&c);
    let t = open::<S, U>(&h, &c);
    h.is_proof(&rt::get(t.gen_proof(i), "a proof is generated for every leaf"));
    rt::reach("large");
}
fn go_large() {
    let (s, a, k, e) = (rt::param("store", 1), rt::param("arity", 2), rt::param("k", 33) as usize, rt::param("height", 3) as usize);
    by_arity!(a, by_files, s, large, (k, e))
}
entries! { h_large3 => go_large, h_proof => go }
