//! Trees too large to build, laid out in sparse files: the nodes around one leaf's path are there (a consistent part of
//! a tree whose other nodes are arbitrary), the rest is holes.
use crate::common::*;
use crate::rt;
use std::fs::OpenOptions;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};

pub struct Huge {
    pub arity: usize,
    pub k: usize,
    /// leaf of the path
    pub i: usize,
    pub leafs: usize,
    pub len: usize,
    /// (position in the whole tree, row, nodes) of runs of adjacent nodes
    pub runs: Vec<(usize, usize, Vec<El>)>,
    pub lemma: Vec<El>,
    pub path: Vec<usize>,
    pub root: El,
}
/// Position of the first node of row `r`, leaves first.
pub fn row_at(arity: usize, k: usize, r: usize) -> usize {
    let (mut at, mut w) = (0, pow(arity, k));
    for _ in 0..r {
        at += w;
        w /= arity;
    }
    at
}
impl Huge {
    /// The whole subtree of height `e` above leaf `i`, and the groups on the way from there to the root.
    pub fn new(arity: usize, k: usize, i: usize, e: usize, what: &str) -> Huge {
        let s = i / pow(arity, e) * pow(arity, e);
        let seg = r_rows(&items(what, pow(arity, e)), arity);
        let (mut runs, mut w) = (vec![], 1);
        let (low, path) = r_lemma(&seg, arity, i - s);
        let mut h = Huge { arity, k, i, leafs: pow(arity, k), len: row_at(arity, k, k) + 1, runs: vec![], lemma: low[..low.len() - 1].to_vec(), path, root: root_of(&seg) };
        for (r, row) in seg.iter().enumerate().take(e) {
            runs.push((row_at(arity, k, r) + s / w, r, row.clone()));
            w *= arity;
        }
        for r in e..k {
            let at = i / w;
            let mut g = items(what, arity);
            g[at % arity] = h.root;
            runs.push((row_at(arity, k, r) + at / arity * arity, r, g.clone()));
            h.path.push(at % arity);
            h.lemma.extend(g.iter().enumerate().filter(|(j, _)| *j != at % arity).map(|x| *x.1));
            h.root = r_node(&g, r);
            w *= arity;
        }
        runs.push((h.len - 1, k, vec![h.root]));
        h.lemma.push(h.root);
        h.runs = runs;
        h
    }
    /// Write the nodes of the tree into a file; `at` gives the byte position of a run, if the file holds it.
    pub fn write(&self, p: &Path, bytes: usize, at: impl Fn(usize, usize) -> Option<usize>) {
        let f = OpenOptions::new().write(true).create(true).open(p).expect("harness file");
        f.set_len(bytes as u64).expect("harness file");
        for (pos, row, g) in &self.runs {
            if let Some(o) = at(*pos, *row) {
                f.write_all_at(&to_bytes(g), o as u64).expect("harness file");
            }
        }
    }
    pub fn full(&self, c: &StoreConfig) {
        self.write(&StoreConfig::data_path(&c.path, &c.id), self.len * EL, |pos, _| Some(pos * EL));
    }
    /// The file of the store compacted with `d` rows discarded; format 2 has no base row.
    pub fn compact(&self, c: &StoreConfig, d: usize, version: u32) {
        let base = if version == 1 { self.leafs } else { 0 };
        let kept = row_at(self.arity, self.k, d + 1);
        self.write(&StoreConfig::data_path(&c.path, &c.id), (base + self.len - kept) * EL, |pos, row| match row {
            0 if version == 1 => Some(pos * EL),
            r if r > d => Some((base + pos - kept) * EL),
            _ => None,
        });
    }
    /// A file with the leaves at a byte offset.
    pub fn replica(&self, name: &str, offset: usize) -> PathBuf {
        let p = Path::new(rt::dir()).join(name);
        let have = std::fs::metadata(&p).map_or(0, |m| m.len() as usize);
        self.write(&p, have.max(offset + self.leafs * EL), |pos, row| if row == 0 { Some(offset + pos * EL) } else { None });
        p
    }
    /// Shape, root, and the nodes of the kept rows (all, or the base and those above `d`) through every reader.
    pub fn readers<S: Store<El>, U: Unsigned>(&self, t: &T<S, U>, d: usize, ranges: bool) {
        rt::check(t.len() == self.len, "len() is the number of nodes");
        rt::check(t.leafs() == self.leafs, "leafs() is the number of leaves");
        rt::check(t.row_count() == self.k + 1, "row_count() is the number of rows");
        same1(&t.root(), &self.root, "root() is the root of the reference tree");
        let one = "read_at(i) is node i of the reference tree";
        for (pos, row, g) in &self.runs {
            if *row > 0 && *row <= d {
                continue;
            }
            for (j, e) in g.iter().enumerate() {
                same1(&rt::get(t.read_at(pos + j), "read_at of an existing node succeeds"), e, one);
                if ranges {
                    let mut b = [0; EL];
                    rt::get(t.read_into(pos + j, &mut b), "read_into of an existing node succeeds");
                    rt::check_eq(&b, &e.0, one);
                }
            }
            if ranges {
                let v = rt::get(t.read_range(*pos, pos + g.len()), "read_range of existing nodes succeeds");
                same(&v, g, "read_range is the nodes of the reference tree");
            }
        }
        rt::check(rt::no_panic("reading never panics", || t.read_at(self.len)).is_err(), "reading beyond the last node is an error");
        rt::check(rt::no_panic("reading never panics", || t.read_range(self.len - 1, self.len + 1)).is_err(), "reading beyond the last node is an error");
    }
    pub fn is_proof<U: Unsigned>(&self, p: &merkletree::proof::Proof<El, U>) {
        check_proof_is(p, &self.lemma, &self.path, "the proof holds the leaf, its siblings bottom-up and the root, and the leaf's path");
        same1(&p.item(), &self.lemma[0], "item() is the leaf");
        check_valid(p);
    }
}
pub fn open<S: Store<El>, U: Unsigned>(h: &Huge, c: &StoreConfig) -> T<S, U> {
    let s = rt::get(S::new_from_disk(h.len, U::to_usize(), c), "a store of this size opens");
    rt::get(T::<S, U>::from_data_store(s, h.leafs), "a tree over a reopened store is made")
}
/// Compacted with `d` rows discarded and reopened; format 2 reads the leaves from byte `offset` of another file.
pub fn open_lc<U: Unsigned>(h: &Huge, c: &StoreConfig, version: u32, offset: usize) -> T<Lc, U> {
    let d = c.rows_to_discard;
    h.compact(c, d, version);
    let a = U::to_usize();
    let s = if version == 1 {
        rt::get(<Lc as Store<El>>::new_from_disk(h.len, a, c), "a compacted store reopens")
    } else {
        let p = h.replica("replica", offset);
        let r = rt::get(ExternalReader::new_from_config(&ReplicaConfig::new(&p, vec![offset]), 0), "an external reader opens");
        rt::get(Lc::new_from_disk_with_reader(h.len, a, c, r), "a compacted store reopens with its reader")
    };
    rt::get(T::<Lc, U>::from_data_store(s, h.leafs), "a tree over a reopened store is made")
}

/// `count` trees too large to build, the path of one of them at leaf `i`, of the others at some leaf.
pub fn bases_of<S: Store<El>, U: Unsigned>(count: usize, which: usize, i: usize, k: usize, e: usize) -> (Vec<T<S, U>>, Vec<Huge>) {
    let (mut ts, mut hs) = (vec![], vec![]);
    for c in 0..count {
        let h = Huge::new(U::to_usize(), k, if c == which { i } else { c }, e, "node");
        let n = cfg(&name_of(c), 0);
        h.full(&n);
        ts.push(open::<S, U>(&h, &n));
        hs.push(h);
    }
    (ts, hs)
}
pub fn roots_of(hs: &[Huge]) -> Vec<El> {
    hs.iter().map(|h| h.root).collect()
}
