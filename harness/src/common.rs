//! Element and hash types used by every harness, and the reference model of a Merkle tree.
use crate::rt;
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::{Element, MerkleTree};
use merkletree::proof::Proof;
pub use merkletree::store::{DiskStore, ExternalReader, LevelCacheStore, MmapStore, ReplicaConfig, Store, StoreConfig, VecStore};
use std::fs::File;
use std::hash::Hasher;
pub use typenum::{Unsigned, U0, U1, U16, U2, U3, U4, U5, U6, U8};

pub const EL: usize = 8;
/// Tree element: 8 bytes, which take up 16 in memory.
#[repr(align(16))]
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct El(pub [u8; EL]);
impl AsRef<[u8]> for El {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Element for El {
    fn byte_len() -> usize {
        EL
    }
    fn from_slice(b: &[u8]) -> Self {
        let mut e = [0; EL];
        e.copy_from_slice(b);
        El(e)
    }
    fn copy_to_slice(&self, b: &mut [u8]) {
        b.copy_from_slice(&self.0)
    }
}
impl<H: Hasher> Hashable<H> for El {
    fn hash(&self, s: &mut H) {
        s.write(&self.0)
    }
}

/// Hash function: an uninterpreted function of everything written since the last reset; the
/// height of interior nodes is part of the input, as the `Algorithm` trait allows.
#[derive(Default, Clone)]
pub struct Al(pub Vec<u8>);
impl Hasher for Al {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
impl Algorithm<El> for Al {
    fn hash(&mut self) -> El {
        let mut e = El::default();
        rt::hash(&self.0, &mut e.0);
        e
    }
    fn reset(&mut self) {
        self.0.clear()
    }
    fn leaf(&mut self, leaf: El) -> El {
        self.write(&[0]);
        self.write(leaf.as_ref());
        self.hash()
    }
    fn node(&mut self, l: El, r: El, height: usize) -> El {
        self.multi_node(&[l, r], height)
    }
    fn multi_node(&mut self, nodes: &[El], height: usize) -> El {
        self.write(&[1, height as u8]);
        for n in nodes {
            self.write(n.as_ref());
        }
        self.hash()
    }
}
/// The same uninterpreted function behind the trait's default leaf/node methods.
#[derive(Default, Clone)]
pub struct AlD(pub Vec<u8>);
impl Hasher for AlD {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
impl Algorithm<El> for AlD {
    fn hash(&mut self) -> El {
        let mut e = El::default();
        rt::hash(&self.0, &mut e.0);
        e
    }
}

// ---------------------------------------------------------------- reference model
pub fn r_hash(b: &[u8]) -> El {
    let mut e = El::default();
    rt::hash(b, &mut e.0);
    e
}
pub fn r_leaf(x: &El) -> El {
    let mut v = vec![0u8];
    v.extend_from_slice(&x.0);
    r_hash(&v)
}
pub fn r_node(c: &[El], height: usize) -> El {
    let mut v = vec![1u8, height as u8];
    for x in c {
        v.extend_from_slice(&x.0);
    }
    r_hash(&v)
}
/// Rows of a perfect `arity`-ary tree, leaves first.
pub fn r_rows(leaves: &[El], arity: usize) -> Vec<Vec<El>> {
    let mut rows = vec![leaves.to_vec()];
    let mut h = 0;
    while rows[h].len() > 1 {
        let mut up = vec![];
        let mut i = 0;
        while i < rows[h].len() {
            up.push(r_node(&rows[h][i..i + arity], h));
            i += arity;
        }
        rows.push(up);
        h += 1;
    }
    rows
}
pub fn flat(rows: &[Vec<El>]) -> Vec<El> {
    let mut v = vec![];
    for r in rows {
        v.extend_from_slice(r);
    }
    v
}
pub fn to_bytes(e: &[El]) -> Vec<u8> {
    let mut v = Vec::with_capacity(e.len() * EL);
    for x in e {
        v.extend_from_slice(&x.0);
    }
    v
}
pub fn same(a: &[El], b: &[El], m: &str) {
    rt::check(a.len() == b.len(), m);
    rt::check_eq(&to_bytes(a), &to_bytes(b), m)
}
pub fn same1(a: &El, b: &El, m: &str) {
    rt::check_eq(&a.0, &b.0, m)
}

/// n symbolic elements.
pub fn items(name: &str, n: usize) -> Vec<El> {
    (0..n).map(|_| item(name)).collect()
}
pub fn item(name: &str) -> El {
    let mut e = El::default();
    rt::bytes(name, &mut e.0);
    e
}
pub fn pow(b: usize, k: usize) -> usize {
    let mut r = 1;
    for _ in 0..k {
        r *= b;
    }
    r
}
/// Some(k) if n == b^k.
pub fn log(n: usize, b: usize) -> Option<usize> {
    let mut p = 1;
    let mut k = 0;
    while p < n {
        p *= b;
        k += 1;
    }
    if p == n {
        Some(k)
    } else {
        None
    }
}

pub fn cfg(id: &str, rows: usize) -> StoreConfig {
    StoreConfig::new(rt::dir(), id, rows)
}
pub type Lc = LevelCacheStore<El, File>;
pub type T<S, U> = MerkleTree<El, Al, S, U, U0, U0>;
pub type Ts<S, U, V> = MerkleTree<El, Al, S, U, V, U0>;
pub type Tt<S, U, V, W> = MerkleTree<El, Al, S, U, V, W>;

/// The whole observable content of a base tree against the reference rows.
pub fn check_layout<S: Store<El>, U: Unsigned>(t: &T<S, U>, rows: &[Vec<El>], all_readers: bool) {
    let f = flat(rows);
    rt::check(t.len() == f.len(), "len() is the number of nodes");
    rt::check(t.leafs() == rows[0].len(), "leafs() is the number of leaves");
    rt::check(t.row_count() == rows.len(), "row_count() is the number of rows");
    rt::check(!t.is_empty(), "a built tree is not empty");
    same1(&t.root(), &f[f.len() - 1], "root() is the root of the reference tree");
    let mut v = vec![];
    for i in 0..f.len() {
        v.push(rt::get(t.read_at(i), "read_at of an existing node succeeds"));
    }
    same(&v, &f, "read_at(i) is node i of the reference tree");
    if all_readers {
        let r = rt::get(t.read_range(0, f.len()), "read_range of the whole tree succeeds");
        same(&r, &f, "read_range is the nodes of the reference tree");
        let mut buf = vec![0u8; f.len() * EL];
        for i in 0..f.len() {
            rt::get(t.read_into(i, &mut buf[i * EL..i * EL + EL]), "read_into of an existing node succeeds");
        }
        rt::check_eq(&buf, &to_bytes(&f), "read_into is the nodes of the reference tree");
    }
}
/// Sibling list of a reference proof: leaf, siblings bottom-up, root.
pub fn r_lemma(rows: &[Vec<El>], arity: usize, i: usize) -> (Vec<El>, Vec<usize>) {
    let mut l = vec![rows[0][i]];
    let mut p = vec![];
    let mut j = i;
    for r in rows.iter().take(rows.len() - 1) {
        let b = j / arity * arity;
        for k in b..b + arity {
            if k != j {
                l.push(r[k]);
            }
        }
        p.push(j % arity);
        j /= arity;
    }
    l.push(rows[rows.len() - 1][0]);
    (l, p)
}
pub fn check_proof_is<U: Unsigned>(p: &Proof<El, U>, lemma: &[El], path: &[usize], m: &str) {
    rt::check(p.path().len() == path.len(), m);
    for (a, b) in p.path().iter().zip(path) {
        rt::check(*a == *b, m);
    }
    same(p.lemma(), lemma, m);
}
/// A file holding the given elements, for external readers.
pub fn write_file(name: &str, data: &[u8]) -> std::path::PathBuf {
    let p = std::path::Path::new(rt::dir()).join(name);
    std::fs::write(&p, data).expect("harness file");
    p
}
pub fn is_ok<X, E>(r: &Result<X, E>) -> bool {
    r.is_ok()
}

pub const VEC: u64 = 0;
pub const DISK: u64 = 1;
pub const MMAP: u64 = 2;
pub const LC: u64 = 3;
#[macro_export]
macro_rules! by_store {
    ($s:expr, $f:ident, [$($g:ty),*], ($($x:expr),*)) => {
        match $s {
            0 => $f::<VecStore<El> $(, $g)*>($($x),*),
            1 => $f::<DiskStore<El> $(, $g)*>($($x),*),
            2 => $f::<MmapStore<El> $(, $g)*>($($x),*),
            3 => $f::<Lc $(, $g)*>($($x),*),
            _ => panic!("harness: bad store"),
        }
    };
}
#[macro_export]
macro_rules! by_store3 {
    ($s:expr, $f:ident, [$($g:ty),*], ($($x:expr),*)) => {
        match $s {
            0 => $f::<VecStore<El> $(, $g)*>($($x),*),
            1 => $f::<DiskStore<El> $(, $g)*>($($x),*),
            2 => $f::<MmapStore<El> $(, $g)*>($($x),*),
            _ => panic!("harness: bad store"),
        }
    };
}
#[macro_export]
macro_rules! by_files {
    ($s:expr, $f:ident, [$($g:ty),*], ($($x:expr),*)) => {
        match $s {
            1 => $f::<DiskStore<El> $(, $g)*>($($x),*),
            2 => $f::<MmapStore<El> $(, $g)*>($($x),*),
            _ => panic!("harness: bad store"),
        }
    };
}
/// Arities beyond the usual ones, on fewer stores.
#[macro_export]
macro_rules! by_arity_wide {
    ($s:expr, $f:ident, $x:tt) => {
        match $s {
            0 => $f::<VecStore<El>, U16> $x,
            1 => $f::<DiskStore<El>, U16> $x,
            _ => panic!("harness: bad store"),
        }
    };
}
#[macro_export]
macro_rules! by_arity {
    ($a:expr, $m:ident, $s:expr, $f:ident, $x:tt) => {
        match $a {
            2 => $m!($s, $f, [U2], $x),
            4 => $m!($s, $f, [U4], $x),
            8 => $m!($s, $f, [U8], $x),
            _ => panic!("harness: bad arity"),
        }
    };
}

/// A base tree over the given leaves (stored as they are), in `S`, named `id`.
pub fn mk<S: Store<El>, U: Unsigned>(leaves: &[El], id: &str) -> T<S, U> {
    rt::get(T::<S, U>::from_byte_slice_with_config(&to_bytes(leaves), cfg(id, 0)), "building a tree over arity^k leaves succeeds")
}
/// A symbolic position in 0..n: every one of them when n is small, else a spread of boundary ones.
pub fn pick_index(name: &str, n: usize, arity: usize) -> usize {
    if n <= 64 {
        return rt::pick(name, 0, n as u64 - 1) as usize;
    }
    let mut v = vec![0, 1, arity - 1, arity, n / 2 - 1, n / 2, n - arity, n - arity - 1, n - 1, n / 3, n / 5 * 2];
    let mut w = arity * arity;
    while w < n {
        v.push(w - 1);
        v.push(w);
        w *= arity;
    }
    v.sort();
    v.dedup();
    v[rt::pick(name, 0, v.len() as u64 - 1) as usize]
}
/// Reference compound of equally shaped trees: the node over their roots, at height 1.
pub fn r_over(roots: &[El]) -> El {
    r_node(roots, 1)
}
/// Lemma of the layer above: the other roots in order, then the root of the layer.
pub fn r_over_lemma(roots: &[El], at: usize) -> Vec<El> {
    let mut l: Vec<El> = roots.iter().enumerate().filter(|(j, _)| *j != at).map(|(_, x)| *x).collect();
    l.push(r_over(roots));
    l
}
pub fn flag(name: &str) -> bool {
    rt::pick(name, 0, 1) == 1
}
#[macro_export]
macro_rules! by_arity1 {
    ($a:expr, $f:ident, [$($g:ty),*], $x:tt) => {
        match $a {
            2 => $f::<U2 $(, $g)*> $x,
            4 => $f::<U4 $(, $g)*> $x,
            8 => $f::<U8 $(, $g)*> $x,
            _ => panic!("harness: bad arity"),
        }
    };
}

pub fn root_of(rows: &[Vec<El>]) -> El {
    rows[rows.len() - 1][0]
}
/// `count` base trees of `n` leaves each, with their leaves and reference rows.
pub fn bases<S: Store<El>, U: Unsigned>(count: usize, n: usize) -> (Vec<T<S, U>>, Vec<El>, Vec<Vec<Vec<El>>>) {
    let leaves = items("leaf", count * n);
    let (mut ts, mut rows) = (vec![], vec![]);
    for c in 0..count {
        let l = &leaves[c * n..c * n + n];
        ts.push(mk::<S, U>(l, &name_of(c)));
        rows.push(r_rows(l, U::to_usize()));
    }
    (ts, leaves, rows)
}
pub fn name_of(c: usize) -> String {
    let mut id = String::from("base-");
    id.push((b'a' + c as u8) as char);
    id
}
/// Reference roots of `v`-ary groups of base trees.
pub fn mids_of(rows: &[Vec<Vec<El>>], v: usize) -> Vec<El> {
    let roots: Vec<El> = rows.iter().map(|r| root_of(r)).collect();
    roots.chunks(v).map(r_over).collect()
}
/// A proof of leaf `i` of one base tree.
pub fn check_base_proof<U: Unsigned>(p: &Proof<El, U>, rows: &[Vec<El>], i: usize) {
    let (lemma, path) = r_lemma(rows, U::to_usize(), i);
    check_proof_is(p, &lemma, &path, "the proof holds the leaf, its siblings bottom-up and the root, and the leaf's path");
    rt::check(p.sub_tree_proof.is_none() && p.top_layer_nodes() == 0 && p.sub_layer_nodes() == 0, "a base proof has no layers above");
}
/// A proof of leaf `i` of a compound of `rows.len()` base trees.
pub fn check_sub_proof<U: Unsigned>(p: &Proof<El, U>, rows: &[Vec<Vec<El>>], i: usize) {
    let (n, v) = (rows[0][0].len(), rows.len());
    let roots: Vec<El> = rows.iter().map(|r| root_of(r)).collect();
    let m = "the compound proof is the base proof, the other roots and the compound root";
    rt::check(p.path().len() == 1 && p.path()[0] == i / n, m);
    same(p.lemma(), &r_over_lemma(&roots, i / n), m);
    rt::check(p.sub_layer_nodes() == v && p.top_layer_nodes() == 0, "the proof records the arity of its layers");
    match &p.sub_tree_proof {
        None => rt::check(false, m),
        Some(q) => {
            check_base_proof(q, &rows[i / n], i % n);
            same1(&p.sub_tree_root(), &roots[i / n], "sub_tree_root() is the root of the leaf's base tree");
        }
    }
}
/// A proof of leaf `i` of a top tree over groups of `v` base trees.
pub fn check_top_proof<U: Unsigned>(p: &Proof<El, U>, rows: &[Vec<Vec<El>>], v: usize, i: usize) {
    let (n, w) = (rows[0][0].len(), rows.len() / v);
    let mids = mids_of(rows, v);
    let g = i / (n * v);
    let m = "the top proof is the sub-tree proof, the other sub-tree roots and the top root";
    rt::check(p.path().len() == 1 && p.path()[0] == g, m);
    same(p.lemma(), &r_over_lemma(&mids, g), m);
    rt::check(p.top_layer_nodes() == w, "the proof records the arity of its layers");
    match &p.sub_tree_proof {
        None => rt::check(false, m),
        Some(q) => {
            check_sub_proof(q, &rows[g * v..g * v + v], i % (n * v));
            same1(&p.sub_tree_root(), &mids[g], "sub_tree_root() is the root of the leaf's sub-tree");
        }
    }
}
pub fn check_valid<U: Unsigned>(p: &Proof<El, U>) {
    rt::check(rt::get(p.validate::<Al>(), "validation of a generated proof is not an error"), "a generated proof validates");
}
/// A compacted tree, reopened; version 2 gets the leaves from an external reader.
pub fn compacted<U: Unsigned>(its: &[El], id: &str, d: usize, version: u32) -> T<Lc, U> {
    let a = U::to_usize();
    let n = its.len();
    let c = cfg(id, d);
    let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(its), c.clone()), "building a tree over arity^k leaves succeeds");
    let len = t.len();
    let ok = rt::get(t.compact(c.clone(), version), "a full tree can be compacted with a legal number of rows to discard");
    rt::check(ok, "compaction reports success");
    let s = if version == 1 {
        rt::get(<Lc as Store<El>>::new_from_disk(len, a, &c), "a compacted store reopens")
    } else {
        // the base data is a part of a larger file
        let mut b = vec![0xee; EL];
        b.extend(to_bytes(its));
        b.extend(vec![0xee; len * EL]);
        let p = write_file("replica", &b);
        let r = rt::get(ExternalReader::new_from_config(&ReplicaConfig::new(&p, vec![EL]), 0), "an external reader opens");
        rt::get(Lc::new_from_disk_with_reader(len, a, &c, r), "a compacted store reopens with its reader")
    };
    rt::get(T::<Lc, U>::from_data_store(s, n), "a tree over a reopened store is made")
}
