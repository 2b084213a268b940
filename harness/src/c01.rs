//! C01: a base tree is the arity-ary hash tree over its leaves, whatever store and constructor made it.
use crate::common::*;
use crate::huge::*;
use crate::rt;
use merkletree::merkle::FromIndexedParallelIterator;
use rayon::prelude::*;

pub const HOWS: u64 = 13;
pub fn build<S: Store<El>, U: Unsigned>(how: u64, its: &[El], id: &str) -> (T<S, U>, Vec<El>) {
    let hashed = |x: &El| r_leaf(x);
    let m = "building a tree over arity^k leaves succeeds";
    let a = U::to_usize();
    match how {
        0 => (rt::get(T::<S, U>::new(its.to_vec()), m), its.iter().map(hashed).collect()),
        1 => (rt::get(T::<S, U>::new_with_config(its.to_vec(), cfg(id, 0)), m), its.iter().map(hashed).collect()),
        2 => (rt::get(T::<S, U>::from_data(its.to_vec()), m), its.iter().map(|x| r_leaf(&r_hash(&x.0))).collect()),
        3 => (rt::get(T::<S, U>::from_data_with_config(its.to_vec(), cfg(id, 0)), m), its.iter().map(|x| r_leaf(&r_hash(&x.0))).collect()),
        4 => (rt::get(T::<S, U>::from_par_iter(its.to_vec().into_par_iter()), m), its.iter().map(hashed).collect()),
        5 => (rt::get(T::<S, U>::from_par_iter_with_config(its.to_vec().into_par_iter(), cfg(id, 0)), m), its.iter().map(hashed).collect()),
        6 => (rt::get(T::<S, U>::from_byte_slice(&to_bytes(its)), m), its.to_vec()),
        7 => (rt::get(T::<S, U>::from_byte_slice_with_config(&to_bytes(its), cfg(id, 0)), m), its.to_vec()),
        8 => {
            let f = flat(&r_rows(its, a));
            (rt::get(T::<S, U>::from_tree_slice(&to_bytes(&f), its.len()), m), its.to_vec())
        }
        9 => {
            let f = flat(&r_rows(its, a));
            (rt::get(T::<S, U>::from_tree_slice_with_config(&to_bytes(&f), its.len(), cfg(id, 0)), m), its.to_vec())
        }
        10 => {
            let f = flat(&r_rows(its, a));
            let s = rt::get(S::new_from_slice(f.len(), &to_bytes(&f)), "a store over a full tree opens");
            (rt::get(T::<S, U>::from_data_store(s, its.len()), m), its.to_vec())
        }
        11 => (rt::get(T::<S, U>::try_from_iter(its.iter().map(|x| Ok(*x))), m), its.iter().map(hashed).collect()),
        12 => (rt::get(T::<S, U>::try_from_iter_with_config(its.iter().map(|x| Ok(*x)), cfg(id, 0)), m), its.iter().map(hashed).collect()),
        _ => panic!("harness: bad constructor"),
    }
}

fn layout<S: Store<El>, U: Unsigned>(how: u64, n: usize) {
    let its = items("leaf", n);
    let (t, leaves) = build::<S, U>(how, &its, "c01");
    let rows = r_rows(&leaves, U::to_usize());
    check_layout(&t, &rows, true);
    rt::reach("layout");
}
/// Every range of a small tree.
fn ranges<S: Store<El>, U: Unsigned>(n: usize, into: bool) {
    let its = items("leaf", n);
    let t = mk::<S, U>(&its, "c01r");
    let f = flat(&r_rows(&its, U::to_usize()));
    for i in 0..f.len() {
        for j in i + 1..f.len() + 1 {
            let r = rt::get(t.read_range(i, j), "read_range of existing nodes succeeds");
            same(&r, &f[i..j], "read_range is the nodes of the reference tree");
            if into {
                let mut b = vec![0u8; (j - i) * EL];
                rt::get(t.read_range_into(i, j, &mut b), "read_range_into of existing nodes succeeds");
                rt::check_eq(&b, &to_bytes(&f[i..j]), "read_range_into is the nodes of the reference tree");
            }
        }
    }
    rt::reach("ranges");
}
fn ranges_lc<U: Unsigned>(n: usize, discard: usize) {
    let its = items("leaf", n);
    let mut t = rt::get(T::<Lc, U>::from_byte_slice_with_config(&to_bytes(&its), cfg("c01rlc", discard)), "building a level-cache tree succeeds");
    let rows = r_rows(&its, U::to_usize());
    let f = flat(&rows);
    let p = write_file("c01r.replica", &to_bytes(&its));
    rt::get(t.set_external_reader_path(&p), "an external reader can be attached");
    let gone: usize = rows.iter().skip(1).take(discard).map(|r| r.len()).sum();
    for (lo, hi) in [(0, n), (n + gone, f.len())] {
        for i in lo..hi {
            for j in i + 1..hi + 1 {
                let r = rt::get(t.read_range(i, j), "read_range of kept nodes succeeds");
                same(&r, &f[i..j], "read_range is the nodes of the reference tree");
                let mut b = vec![0u8; (j - i) * EL];
                rt::get(t.read_range_into(i, j, &mut b), "read_range_into of kept nodes succeeds");
                rt::check_eq(&b, &to_bytes(&f[i..j]), "read_range_into is the nodes of the reference tree");
            }
        }
    }
    rt::reach("ranges");
}
fn go_ranges() {
    let (s, a, k, d) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("discard", 0));
    let n = pow(a as usize, k as usize);
    if s == 3 {
        return by_arity1!(a, ranges_lc, [], (n, d as usize));
    }
    by_arity!(a, by_store3, s, ranges, (n, s == 1))
}
/// Directly built level-cache tree: base rows are served by the external reader, `rows` rows above
/// the base are gone, the rest is cached.
fn layout_lc<U: Unsigned>(how: u64, n: usize, discard: usize) {
    let a = U::to_usize();
    let its = items("leaf", n);
    let c = cfg("c01lc", discard);
    let m = "building a level-cache tree succeeds";
    let (mut t, leaves): (T<Lc, U>, Vec<El>) = match how {
        1 => (rt::get(T::<Lc, U>::new_with_config(its.to_vec(), c), m), its.iter().map(r_leaf).collect()),
        5 => (rt::get(T::<Lc, U>::from_par_iter_with_config(its.to_vec().into_par_iter(), c), m), its.iter().map(r_leaf).collect()),
        7 => (rt::get(T::<Lc, U>::from_byte_slice_with_config(&to_bytes(&its), c), m), its.to_vec()),
        3 => (rt::get(T::<Lc, U>::from_data_with_config(its.to_vec(), c), m), its.iter().map(|x| r_leaf(&r_hash(&x.0))).collect()),
        12 => (rt::get(T::<Lc, U>::try_from_iter_with_config(its.iter().map(|x| Ok(*x)), c), m), its.iter().map(r_leaf).collect()),
        9 => (rt::get(T::<Lc, U>::from_tree_slice_with_config(&to_bytes(&flat(&r_rows(&its, a))), n, c), m), its.to_vec()),
        10 => {
            let f = flat(&r_rows(&its, a));
            let s = rt::get(<Lc as Store<El>>::new_from_slice_with_config(f.len(), a, &to_bytes(&f), c), "a store over a full tree opens");
            (rt::get(T::<Lc, U>::from_data_store(s, n), m), its.to_vec())
        }
        _ => panic!("harness: bad constructor"),
    };
    let rows = r_rows(&leaves, a);
    let f = flat(&rows);
    let gone: usize = rows.iter().skip(1).take(discard).map(|r| r.len()).sum();
    // the base rows may be missing until an external reader is attached
    for i in 0..n {
        match rt::no_panic("reading never panics", || t.read_at(i)) {
            Ok(e) => same1(&e, &f[i], "read_at(i) is node i of the reference tree"),
            Err(_) => rt::check(how != 9 && how != 10, "the leaves of a store over a full tree are readable"),
        }
    }
    for i in n + gone..f.len() {
        let e = rt::get(t.read_at(i), "a kept node is readable");
        same1(&e, &f[i], "read_at(i) is node i of the reference tree");
    }
    rt::check(t.len() == f.len(), "len() is the number of nodes");
    rt::check(t.leafs() == n, "leafs() is the number of leaves");
    rt::check(t.row_count() == rows.len(), "row_count() is the number of rows");
    same1(&t.root(), &f[f.len() - 1], "root() is the root of the reference tree");
    let p = write_file("c01.replica", &to_bytes(&leaves));
    rt::get(t.set_external_reader_path(&p), "an external reader can be attached");
    for i in (0..n).chain(n + gone..f.len()) {
        let e = rt::get(t.read_at(i), "a kept node is readable");
        same1(&e, &f[i], "read_at(i) is node i of the reference tree");
    }
    rt::reach("layout_lc");
}
/// Trees of several blocks of leaves (BUILD_DATA_BLOCK_SIZE each): a cheap interpreted hash, symbolic
/// leaves at the block boundaries, fixed distinct ones elsewhere.
#[derive(Default, Clone)]
pub struct Mix(u64);
impl std::hash::Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
fn word(e: &El) -> u64 {
    u64::from_le_bytes(e.0)
}
impl merkletree::hash::Algorithm<El> for Mix {
    fn hash(&mut self) -> El {
        El(self.0.to_le_bytes())
    }
    fn leaf(&mut self, l: El) -> El {
        El((word(&l) ^ 0x5a5a).wrapping_add(self.0).to_le_bytes())
    }
    fn node(&mut self, l: El, r: El, h: usize) -> El {
        self.multi_node(&[l, r], h)
    }
    fn multi_node(&mut self, c: &[El], h: usize) -> El {
        let mut a = self.0.wrapping_add(h as u64 + 1);
        for x in c {
            a = a.rotate_left(9).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(word(x));
        }
        El(a.to_le_bytes())
    }
}
pub fn blocks<S: Store<El>, U: Unsigned>(how: u64, n: usize) {
    use merkletree::hash::Algorithm;
    type B<S, U> = merkletree::merkle::MerkleTree<El, Mix, S, U, U0, U0>;
    let a = U::to_usize();
    let b = merkletree::merkle::BUILD_DATA_BLOCK_SIZE;
    let sym: Vec<(usize, El)> = [0, 1, b - 1, b, b + 1, 2 * b - 1, 2 * b, n - 1].iter().filter(|i| **i < n).map(|i| (*i, item("leaf"))).collect();
    let at = |i: usize| -> El {
        if i < 2 || i + 1 == n || (i + 1) % b < 3 {
            for (j, e) in &sym {
                if *j == i {
                    return *e;
                }
            }
        }
        El((i as u64 + 1).wrapping_mul(0xd6e8feb86659fd93).to_le_bytes())
    };
    let m = "building a tree over arity^k leaves succeeds";
    rt::sched(rt::param("mode", 0), rt::param("budget", 0), rt::param("threads", 4));
    let t = match how {
        4 => rt::get(B::<S, U>::from_par_iter((0..n).into_par_iter().map(at)), m),
        5 => rt::get(B::<S, U>::from_par_iter_with_config((0..n).into_par_iter().map(at), cfg("blocks", 0)), m),
        11 => rt::get(B::<S, U>::try_from_iter((0..n).map(|i| Ok(at(i)))), m),
        12 => rt::get(B::<S, U>::try_from_iter_with_config((0..n).map(|i| Ok(at(i))), cfg("blocks", 0)), m),
        _ => panic!("harness: bad constructor"),
    };
    rt::sched(rt::SEQ, 0, 1);
    let mut row: Vec<El> = (0..n).map(|i| Mix::default().leaf(at(i))).collect();
    let (mut base, mut h) = (0, 0);
    loop {
        let w = row.len();
        // every node of small rows; of large ones, those around each block and chunk boundary
        let mut i = 0;
        while i < w {
            same1(&rt::get(t.read_at(base + i), "read_at of an existing node succeeds"), &row[i], "read_at(i) is node i of the reference tree");
            i += if w <= 64 || i % 4096 < 1 || i % 4096 >= 4094 { 1 } else { (4096 - i % 4096 - 2).min(1365) };
        }
        if w == 1 {
            break;
        }
        base += w;
        row = row.chunks(a).map(|c| Mix::default().multi_node(c, h)).collect();
        h += 1;
    }
    same1(&t.root(), &row[0], "root() is the root of the reference tree");
    rt::check(t.len() == base + 1 && t.leafs() == n && t.row_count() == h + 1, "the tree has the shape of its leaves");
    rt::reach("blocks");
}
pub fn go_blocks() {
    let (s, a, k, h) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 19), rt::param("how", 12));
    let n = pow(a as usize, k as usize);
    match (s, a) {
        (0, 2) => blocks::<VecStore<El>, U2>(h, n),
        (1, 2) => blocks::<DiskStore<El>, U2>(h, n),
        (2, 2) => blocks::<MmapStore<El>, U2>(h, n),
        (0, 4) => blocks::<VecStore<El>, U4>(h, n),
        _ => panic!("harness: bad instance"),
    }
}
// ---- 32-byte elements: the element type and implementation the crate itself provides
type B32 = [u8; 32];
fn hash32(b: &[u8]) -> B32 {
    let mut o = [0u8; 32];
    for i in 0..4 {
        let mut v = b.to_vec();
        v.push(i as u8);
        rt::hash(&v, &mut o[i * 8..i * 8 + 8]);
    }
    o
}
#[derive(Default, Clone)]
struct Al32(Vec<u8>);
impl std::hash::Hasher for Al32 {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
impl merkletree::hash::Algorithm<B32> for Al32 {
    fn hash(&mut self) -> B32 {
        hash32(&self.0)
    }
    fn reset(&mut self) {
        self.0.clear()
    }
}
fn std32<S: Store<B32>, U: Unsigned>(k: usize) {
    use merkletree::merkle::{Element, MerkleTree};
    let a = U::to_usize();
    let n = pow(a, k);
    let its: Vec<B32> = (0..n)
        .map(|_| {
            let mut e = [0u8; 32];
            rt::bytes("leaf", &mut e);
            e
        })
        .collect();
    let m = "the provided element type is its 32 bytes";
    rt::check(B32::byte_len() == 32, m);
    rt::check_eq(&B32::from_slice(&its[0]), &its[0], m);
    let mut b = [0u8; 32];
    its[0].copy_to_slice(&mut b);
    rt::check_eq(&b, &its[0], m);
    // rows under the trait's default methods: 0 before a leaf, 1 before the nodes of a group
    let hashed = flag("hashed");
    let mut row: Vec<B32> = if hashed { its.iter().map(|x| hash32(&[&[0u8][..], x].concat())).collect() } else { its.clone() };
    let mut all = row.clone();
    while row.len() > 1 {
        row = row.chunks(a).map(|c| hash32(&[&[1u8][..], &c.concat()].concat())).collect();
        all.extend(&row);
    }
    let t: MerkleTree<B32, Al32, S, U, U0, U0> = rt::get(
        if hashed {
            MerkleTree::try_from_iter_with_config(its.iter().map(|x| Ok(*x)), cfg("c01s", 0))
        } else {
            MerkleTree::from_byte_slice_with_config(&its.concat(), cfg("c01s", 0))
        },
        "building a tree over arity^k leaves succeeds",
    );
    rt::check(t.len() == all.len() && t.leafs() == n, "the tree has the shape of its leaves");
    rt::check_eq(&t.root(), &all[all.len() - 1], "root() is the root of the reference tree");
    for i in 0..all.len() {
        rt::check_eq(&rt::get(t.read_at(i), "read_at of an existing node succeeds"), &all[i], "read_at(i) is node i of the reference tree");
        let mut b = [0u8; 32];
        rt::get(t.read_into(i, &mut b), "read_into of an existing node succeeds");
        rt::check_eq(&b, &all[i], "read_into is the nodes of the reference tree");
    }
    rt::check_eq(&rt::get(t.read_range(0, all.len()), "read_range of the whole tree succeeds").concat(), &all.concat(), "read_range is the nodes of the reference tree");
    let i = rt::pick("proof", 0, n as u64 - 1) as usize;
    let p = rt::get(t.gen_proof(i), "a proof is generated");
    rt::check_eq(&p.item(), &all[i], "the proof's item is the leaf");
    rt::check(matches!(p.validate::<Al32>(), Ok(true)), "the proof validates");
    rt::reach("std");
}
fn go_std() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("store", VEC), rt::param("arity", 2)) {
        (0, 2) => std32::<VecStore<B32>, U2>(k),
        (0, _) => std32::<VecStore<B32>, U4>(k),
        (1, 2) => std32::<DiskStore<B32>, U2>(k),
        (1, _) => std32::<DiskStore<B32>, U4>(k),
        (_, 2) => std32::<MmapStore<B32>, U2>(k),
        (_, _) => std32::<MmapStore<B32>, U4>(k),
    }
}
fn go() {
    let (s, a, k, h) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("how", 0));
    let h = if h == 99 { rt::pick("constructor", 0, HOWS - 1) } else { h };
    let n = pow(a as usize, k as usize);
    if a == 16 {
        return by_arity_wide!(s, layout, (h, n));
    }
    by_arity!(a, by_store, s, layout, (h, n))
}
fn go_lc() {
    let (a, k, d) = (rt::param("arity", 2), rt::param("k", 1), rt::param("discard", 0));
    let n = pow(a as usize, k as usize);
    let h = [1u64, 3, 5, 7, 12, 9, 10][rt::pick("constructor", 0, 6) as usize];
    match a {
        2 => layout_lc::<U2>(h, n, d as usize),
        4 => layout_lc::<U4>(h, n, d as usize),
        8 => layout_lc::<U8>(h, n, d as usize),
        _ => panic!(),
    }
}
/// A tree too large to build, in a sparse file.
fn large<S: Store<El>, U: Unsigned>(k: usize, e: usize) {
    let i = pick_index("index", pow(U::to_usize(), k), U::to_usize());
    let h = Huge::new(U::to_usize(), k, i, e, "node");
    let c = cfg("c01g", 0);
    h.full(&c);
    h.readers(&open::<S, U>(&h, &c), 0, true);
    rt::reach("large");
}
fn large_lc<U: Unsigned>(k: usize, e: usize) {
    let i = pick_index("index", pow(U::to_usize(), k), U::to_usize());
    let h = Huge::new(U::to_usize(), k, i, e, "node");
    let d = [1, k / 2, k - 1][rt::pick("discarded", 0, 2) as usize];
    h.readers(&open_lc::<U>(&h, &cfg("c01g", d), 1 + flag("replica") as u32, 1 << 33), d, true);
    rt::reach("large");
}
fn go_large() {
    let (s, a, k, e) = (rt::param("store", 1), rt::param("arity", 2), rt::param("k", 33) as usize, rt::param("height", 3) as usize);
    if s == 3 {
        return by_arity1!(a, large_lc, [], (k, e));
    }
    by_arity!(a, by_files, s, large, (k, e))
}
entries! { h_large => go_large, h_layout => go, h_layout_lc => go_lc, h_blocks => go_blocks, h_ranges => go_ranges, h_std => go_std }
