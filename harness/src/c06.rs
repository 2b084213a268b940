//! C06: validation against leaf data accepts exactly the data the leaf was made from.
use crate::common::*;
use crate::rt;
use merkletree::proof::Proof;

fn with_data<U: Unsigned>(p: &Proof<El, U>, d: &El) -> bool {
    match rt::no_panic("validation never panics", || p.validate_with_data::<Al>(d)) {
        Ok(b) => b,
        Err(_) => false,
    }
}
/// Trees over data: the generated proof of leaf i accepts d iff d is datum i.
fn genuine<U: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let data = items("datum", n);
    let t = rt::get(T::<VecStore<El>, U>::from_data(data.clone()), "building a tree over arity^k leaves succeeds");
    let i = rt::pick("index", 0, n as u64 - 1) as usize;
    let p = rt::get(t.gen_proof(i), "a proof is generated for every leaf");
    let d = item("claimed");
    let ok = with_data(&p, &d);
    rt::check(ok == (d == data[i]), "the proof accepts exactly the datum of its leaf");
    rt::reach("genuine");
}
fn compound<U: Unsigned, V: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let v = V::to_usize();
    let data = items("datum", n * v);
    let ts = (0..v).map(|b| rt::get(T::<VecStore<El>, U>::from_data(data[b * n..b * n + n].to_vec()), "building a tree over arity^k leaves succeeds")).collect();
    let t = rt::get(Ts::<VecStore<El>, U, V>::from_trees(ts), "a compound tree of equal trees is built");
    let i = rt::pick("index", 0, (n * v) as u64 - 1) as usize;
    let p = rt::get(t.gen_proof(i), "a proof is generated for every leaf");
    let d = item("claimed");
    rt::check(with_data(&p, &d) == (d == data[i]), "the proof accepts exactly the datum of its leaf");
    rt::reach("compound");
}
fn top<U: Unsigned, V: Unsigned, W: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let c = V::to_usize() * W::to_usize();
    let data = items("datum", n * c);
    let ts = (0..c).map(|b| rt::get(T::<VecStore<El>, U>::from_data(data[b * n..b * n + n].to_vec()), "building a tree over arity^k leaves succeeds")).collect();
    let t = rt::get(Tt::<VecStore<El>, U, V, W>::from_sub_trees_as_trees(ts), "a compound tree of equal trees is built");
    let i = rt::pick("index", 0, (n * c) as u64 - 1) as usize;
    let p = rt::get(t.gen_proof(i), "a proof is generated for every leaf");
    let d = item("claimed");
    rt::check(with_data(&p, &d) == (d == data[i]), "the proof accepts exactly the datum of its leaf");
    rt::reach("top");
}
/// An arbitrary proof and arbitrary data: accepted iff the proof validates and the item is the hashed datum.
fn arbitrary<U: Unsigned>(k: usize) {
    let lemma = items("lemma", 2 + k * (U::to_usize() - 1));
    let path: Vec<usize> = (0..k).map(|_| rt::any("path") as usize).collect();
    let p = rt::get(Proof::<El, U>::new::<U0, U0>(None, lemma, path), "a proof of the tree's shape can be represented");
    let d = item("claimed");
    let plain = match p.validate::<Al>() {
        Ok(b) => b,
        Err(_) => false,
    };
    let want = plain & (p.item() == r_leaf(&r_hash(&d.0)));
    rt::check(with_data(&p, &d) == want, "data is accepted iff the proof validates and the item is the leaf hash of the data");
    rt::reach("arbitrary");
}
/// The same for proofs with one or two compound layers.
fn layered<U: Unsigned, V: Unsigned, W: Unsigned>(k: usize, two: bool) {
    let lemma = items("lemma", 2 + k * (U::to_usize() - 1));
    let path: Vec<usize> = (0..k).map(|_| rt::any("path") as usize).collect();
    let m = "a proof of the tree's shape can be represented";
    let mut p = rt::get(Proof::<El, U>::new::<U0, U0>(None, lemma, path), m);
    p = rt::get(Proof::<El, U>::new::<U0, V>(Some(Box::new(p)), items("mid", V::to_usize()), vec![rt::any("midpath") as usize]), m);
    if two {
        p = rt::get(Proof::<El, U>::new::<W, V>(Some(Box::new(p)), items("top", W::to_usize()), vec![rt::any("toppath") as usize]), m);
    }
    let d = item("claimed");
    let plain = match p.validate::<Al>() {
        Ok(b) => b,
        Err(_) => false,
    };
    let want = plain & (p.item() == r_leaf(&r_hash(&d.0)));
    rt::check(with_data(&p, &d) == want, "data is accepted iff the proof validates and the item is the leaf hash of the data");
    rt::reach("layered");
}
/// An arbitrary proof against a fixed tree: accepted data is the datum at the proof's position.
fn binding<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let data = items("datum", n);
    let t = rt::get(T::<VecStore<El>, U>::from_data(data.clone()), "building a tree over arity^k leaves succeeds");
    let mut lemma = items("lemma", 1 + k * (a - 1));
    lemma.push(t.root());
    let path: Vec<usize> = (0..k).map(|_| rt::any("path") as usize).collect();
    let p = rt::get(Proof::<El, U>::new::<U0, U0>(None, lemma, path), "a proof of the tree's shape can be represented");
    let d = item("claimed");
    if with_data(&p, &d) {
        let (mut i, mut w) = (0, 1);
        for x in p.path() {
            rt::check(*x < a, "an accepted proof names an existing branch on each level");
            i += rt::conc(*x as u64) as usize * w;
            w *= a;
        }
        same1(&d, &data[i], "accepted data is the datum at the proof's position");
        rt::reach("bound");
    }
}
fn go_genuine() {
    by_arity1!(rt::param("arity", 2), genuine, [], (rt::param("k", 1) as usize))
}
fn go_arbitrary() {
    by_arity1!(rt::param("arity", 2), arbitrary, [], (rt::param("k", 1) as usize))
}
fn go_layered() {
    let (k, two) = (rt::param("k", 1) as usize, rt::param("two", 0) != 0);
    match (rt::param("arity", 2), rt::param("sub", 2)) {
        (2, 2) => layered::<U2, U2, U3>(k, two),
        (2, 3) => layered::<U2, U3, U2>(k, two),
        (4, 2) => layered::<U4, U2, U2>(k, two),
        (8, 4) => layered::<U8, U4, U2>(k, two),
        _ => panic!("harness: bad shape"),
    }
}
fn go_binding() {
    by_arity1!(rt::param("arity", 2), binding, [], (rt::param("k", 1) as usize))
}
fn go_compound() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2)) {
        (2, 2) => compound::<U2, U2>(k),
        (2, 3) => compound::<U2, U3>(k),
        (4, 2) => compound::<U4, U2>(k),
        (8, 4) => compound::<U8, U4>(k),
        _ => panic!("harness: bad shape"),
    }
}
fn go_top() {
    top::<U2, U2, U2>(rt::param("k", 1) as usize)
}
entries! { h_genuine => go_genuine, h_arbitrary => go_arbitrary, h_binding => go_binding, h_compound => go_compound, h_top6 => go_top, h_layered => go_layered }
