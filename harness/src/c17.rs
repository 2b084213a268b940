//! C17: base data in an external file is read at its offset, by every component of a tree.
use crate::common::*;
use crate::huge::*;
use crate::rt;
use std::io::Read;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- readers of an unbounded source
/// A source whose byte at position p is an (uninterpreted) function of p / 8 and p % 8.
pub struct Source;
impl Read for Source {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Ok(0)
    }
}
/// The 8 bytes at position p of the source; p is any 64-bit number.
fn at(p: usize) -> El {
    r_hash(&(p as u64).to_le_bytes())
}
fn source_read(start: usize, end: usize, buf: &mut [u8], _: &Source) -> anyhow::Result<usize> {
    rt::check(end > start && (end - start) % EL == 0 && buf.len() >= end - start, "the reader is asked for whole nodes and given room for them");
    for j in 0..rt::conc((end - start) as u64 / EL as u64) as usize {
        buf[j * EL..j * EL + EL].copy_from_slice(&at(start + j * EL).0);
    }
    Ok(end - start)
}
fn virt<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let offset = rt::range("offset", 0, 1 << 48) as usize;
    let its: Vec<El> = (0..n).map(|i| at(offset + i * EL)).collect();
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let c = cfg("c17v", d);
    let mut t = mk_cfg::<U>(&its, &c);
    let len = t.len();
    rt::check(rt::get(t.compact(c.clone(), 2), "a full tree can be compacted"), "compaction reports success");
    let reader = ExternalReader { offset, source: Source, read_fn: source_read };
    type L = LevelCacheStore<El, Source>;
    let s = if flag("attach") {
        let mut s = rt::get(<L as Store<El>>::new_from_disk(len, a, &c), "a compacted store opens");
        rt::get(s.set_external_reader(reader), "a reader is attached");
        s
    } else {
        rt::get(L::new_from_disk_with_reader(len, a, &c, reader), "a compacted store opens with its reader")
    };
    let w = "the base data is read at the reader's offset plus the node's position";
    // any node at all, not one by one
    let i = rt::range("node", 0, n as u64 - 1) as usize;
    same1(&rt::get(s.read_at(i), "a base node is readable"), &at(offset + i * EL), w);
    let mut b = [0; EL];
    rt::get(s.read_into(i, &mut b), "a base node is readable");
    rt::check_eq(&b, &at(offset + i * EL).0, w);
    let l = rt::pick("range", 1, 3.min(n as u64)) as usize;
    rt::assume(i + l <= n);
    let r = rt::get(s.read_range(i..i + l), "a range of base nodes is readable");
    rt::check(r.len() == l, "a range has its length");
    let mut big = vec![0; l * EL];
    rt::get(s.read_range_into(i, i + l, &mut big), "a range of base nodes is readable");
    for j in 0..l {
        same1(&r[j], &at(offset + (i + j) * EL), w);
        rt::check_eq(&big[j * EL..j * EL + EL], &at(offset + (i + j) * EL).0, w);
    }
    let t = rt::get(MerkleTree::<El, Al, L, U, U0, U0>::from_data_store(s, n), "a tree over a compacted store is made");
    let rows = r_rows(&its, a);
    let i = pick_index("leaf-index", n, a);
    let p = rt::get(t.gen_cached_proof(i, Some(d)), "a cached proof is generated");
    check_base_proof(&p, &rows, i);
    check_valid(&p);
    rt::reach("virtual");
}
fn mk_cfg<U: Unsigned>(its: &[El], c: &StoreConfig) -> T<DiskStore<El>, U> {
    rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(its), c.clone()), "building a tree over arity^k leaves succeeds")
}

// ---------------------------------------------------------------- files
/// A replica holding the given pieces of leaves at the given byte offsets (which do not overlap), and other bytes elsewhere.
fn replica(name: &str, pieces: &[&[El]], offsets: &[usize], tail: usize) -> PathBuf {
    let mut end = 0;
    for (p, o) in pieces.iter().zip(offsets) {
        end = end.max(o + p.len() * EL);
    }
    let mut v = vec![0xa5; end + tail];
    for i in 0..v.len() {
        v[i] = (i * 7 + 1) as u8;
    }
    for (p, o) in pieces.iter().zip(offsets) {
        v[*o..o + p.len() * EL].copy_from_slice(&to_bytes(p));
    }
    write_file(name, &v)
}
const OFFSETS: [usize; 9] = [0, 1, 7, 8, 9, 64, 4093, 4096, 65543];
/// One tree, its leaves somewhere in a file, with decoy offsets around the one it uses.
fn file<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let c = cfg("c17f", d);
    let mut t = mk_cfg::<U>(&its, &c);
    let len = t.len();
    rt::check(rt::get(t.compact(c.clone(), 2), "a full tree can be compacted"), "compaction reports success");
    let off = OFFSETS[rt::pick("offset", 0, if n > 16 { 4 } else { 8 }) as usize];
    let combo = rt::pick("variant", 0, if n > 16 { 2 } else { 8 }) as usize;
    let p = replica("replica", &[&its], &[off], combo % 2 * 9);
    let which = combo % 3;
    let mut offsets = vec![off + 1, off + 2, off + 3];
    offsets[which] = off;
    let rc = ReplicaConfig::new(&p, offsets);
    rt::check(rt::no_panic("opening never panics", || ExternalReader::new_from_config(&rc, rt::range("beyond", 3, u64::MAX) as usize)).is_err(), "a reader beyond the list of offsets is refused");
    let r = rt::get(ExternalReader::new_from_config(&rc, which), "an external reader opens");
    let s = match if n > 16 { combo } else { combo / 3 } {
        0 => rt::get(Lc::new_from_disk_with_reader(len, a, &c, r), "a compacted store opens with its reader"),
        1 => {
            let mut s = rt::get(<Lc as Store<El>>::new_from_disk(len, a, &c), "a compacted store opens");
            rt::get(s.set_external_reader(r), "a reader is attached");
            s
        }
        _ => {
            // a reader attached later replaces the one before
            let wrong = rt::get(ExternalReader::new_from_config(&rc, (which + 1) % 3), "an external reader opens");
            let mut s = rt::get(Lc::new_from_disk_with_reader(len, a, &c, wrong), "a compacted store opens with its reader");
            rt::get(s.set_external_reader(r), "a reader is attached");
            s
        }
    };
    let mut t = rt::get(T::<Lc, U>::from_data_store(s, n), "a tree over a compacted store is made");
    let rows = r_rows(&its, a);
    let i = reads(&t, &rows, d, None);
    if off == 0 {
        // the same by path: offset 0
        rt::get(t.set_external_reader_path(&p), "a reader is attached");
        reads(&t, &rows, d, Some(i));
    }
    rt::reach("file");
}
/// All base nodes, ranges of them and proofs; cached rows are unaffected.
fn reads<U: Unsigned>(t: &T<Lc, U>, rows: &[Vec<El>], d: usize, i: Option<usize>) -> usize {
    let its = &rows[0];
    let n = its.len();
    let w = "the base data is read at the reader's offset plus the node's position";
    for i in 0..n {
        same1(&rt::get(t.read_at(i), "a base node is readable"), &its[i], w);
        let mut b = [0; EL];
        rt::get(t.read_into(i, &mut b), "a base node is readable");
        rt::check_eq(&b, &its[i].0, w);
    }
    let s = t.data().expect("a base tree has a store");
    for x in 0..n {
        for l in [1, 2, 3, n / 2] {
            if x + l <= n {
                same(&rt::get(s.read_range(x..x + l), "a range of base nodes is readable"), &its[x..x + l], w);
            }
        }
    }
    same(&rt::get(s.read_range(0..n), "the base row is readable"), its, w);
    let mut b = vec![0; n * EL];
    rt::get(s.read_range_into(0, n, &mut b), "the base row is readable");
    rt::check_eq(&b, &to_bytes(its), w);
    let f = flat(rows);
    let kept = f.len() - rows.iter().skip(d + 1).map(|r| r.len()).sum::<usize>();
    for i in kept..f.len() {
        same1(&rt::get(t.read_at(i), "a kept node is readable"), &f[i], "the cached rows are read from the store");
    }
    for i in n..kept {
        rt::check(rt::no_panic("reading never panics", || t.read_at(i)).is_err(), "a discarded node is an error");
    }
    let i = i.unwrap_or_else(|| pick_index("leaf-index", n, U::to_usize()));
    let p = rt::get(t.gen_cached_proof(i, Some(d)), "a cached proof is generated");
    check_base_proof(&p, rows, i);
    check_valid(&p);
    i
}
/// A replica of any length: a base node is readable iff the file holds all of it.
fn short<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let c = cfg("c17s", 0);
    let mut t = mk_cfg::<U>(&its, &c);
    let len = t.len();
    rt::check(rt::get(t.compact(c.clone(), 2), "a full tree can be compacted"), "compaction reports success");
    let off = [0, 5][rt::pick("offset", 0, 1) as usize];
    let size = rt::pick("bytes", 0, (off + n * EL) as u64 + 2) as usize;
    let mut v = vec![7u8; off];
    v.extend_from_slice(&to_bytes(&its));
    v.extend_from_slice(&[9, 9]);
    let p = write_file("replica", &v[..size]);
    let r = rt::get(ExternalReader::new_from_config(&ReplicaConfig::new(&p, vec![off]), 0), "an external reader opens");
    let s = rt::get(Lc::new_from_disk_with_reader(len, a, &c, r), "a compacted store opens with its reader");
    let t = rt::get(T::<Lc, U>::from_data_store(s, n), "a tree over a compacted store is made");
    let rows = r_rows(&its, a);
    let has = |end: usize| off + end * EL <= size;
    let (w, e) = ("a base node is readable iff the external file holds it", "reading never panics");
    for i in 0..n {
        let r = rt::no_panic(e, || t.read_at(i));
        rt::check(r.is_ok() == has(i + 1), w);
        if let Ok(x) = r {
            same1(&x, &its[i], w);
        }
        let mut b = [0; EL];
        let r = rt::no_panic(e, || t.read_into(i, &mut b));
        rt::check(r.is_ok() == has(i + 1), w);
        if r.is_ok() {
            rt::check_eq(&b, &its[i].0, w);
        }
    }
    for x in 0..n {
        for y in x + 1..n + 1 {
            let r = rt::no_panic(e, || t.read_range(x, y));
            rt::check(r.is_ok() == has(y), w);
            if let Ok(l) = r {
                same(&l, &its[x..y], w);
            }
        }
    }
    let i = rt::pick("leaf-index", 0, n as u64 - 1) as usize;
    match rt::no_panic("a cached proof never panics", || t.gen_cached_proof(i, Some(0))) {
        Ok(p) => {
            check_base_proof(&p, &rows, i);
            check_valid(&p);
        }
        Err(_) => rt::check(!has((i / a + 1) * a), "a proof is generated if the external file holds the leaves it needs"),
    }
    rt::reach("short");
}

// ---------------------------------------------------------------- compounds
/// Compacted stores of `m` trees over parts of `leaves`, and their configurations.
fn stores<U: Unsigned>(leaves: &[El], m: usize, d: usize) -> (Vec<StoreConfig>, Vec<Vec<Vec<El>>>) {
    let n = leaves.len() / m;
    let (mut cs, mut rows) = (vec![], vec![]);
    for j in 0..m {
        let c = cfg(&name_of(j), d);
        let l = &leaves[j * n..j * n + n];
        let mut t = mk_cfg::<U>(l, &c);
        rt::check(rt::get(t.compact(c.clone(), 2), "a full tree can be compacted"), "compaction reports success");
        rows.push(r_rows(l, U::to_usize()));
        cs.push(c);
    }
    (cs, rows)
}
/// Offsets of m pieces of n leaves: gaps before each, pieces in an order of the solver's choosing.
fn offsets_of(m: usize, n: usize) -> Vec<usize> {
    let gap = [0, 3, 11][rt::pick("gap", 0, 2) as usize];
    let turn = rt::pick("turn", 0, m as u64 - 1) as usize;
    let back = flag("backwards");
    (0..m)
        .map(|j| {
            let q = (j + turn) % m;
            let q = if back { m - 1 - q } else { q };
            gap + q * (n * EL + gap)
        })
        .collect()
}
fn sub<U: Unsigned, V: Unsigned>(k: usize) {
    let (a, v) = (U::to_usize(), V::to_usize());
    let n = pow(a, k);
    let leaves = items("leaf", n * v);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let (cs, rows) = stores::<U>(&leaves, v, d);
    let offs = offsets_of(v, n);
    let pieces: Vec<&[El]> = leaves.chunks(n).collect();
    let p = replica("replica", &pieces, &offs, 0);
    let t = rt::get(Ts::<Lc, U, V>::from_store_configs_and_replica(n, &cs, &ReplicaConfig::new(&p, offs)), "a compound tree over compacted stores is made");
    let roots: Vec<El> = rows.iter().map(|r| root_of(r)).collect();
    same1(&t.root(), &r_over(&roots), "the root is the hash of the component roots in order");
    for i in 0..n * v {
        same1(&rt::get(t.read_at(i), "a leaf is readable"), &leaves[i], "leaf i is read from its component's part of the external file");
    }
    let i = rt::pick("index", 0, (n * v) as u64 - 1) as usize;
    let q = rt::get(t.gen_cached_proof(i, Some(d)), "a cached proof is generated");
    check_sub_proof(&q, &rows, i);
    check_valid(&q);
    rt::reach("sub");
}
fn top<U: Unsigned, V: Unsigned, W: Unsigned>(k: usize) {
    let (a, v, w) = (U::to_usize(), V::to_usize(), W::to_usize());
    let n = pow(a, k);
    let m = v * w;
    let leaves = items("leaf", n * m);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let (cs, rows) = stores::<U>(&leaves, m, d);
    let offs = offsets_of(m, n);
    let pieces: Vec<&[El]> = leaves.chunks(n).collect();
    let p = replica("replica", &pieces, &offs, 0);
    let t = rt::get(Tt::<Lc, U, V, W>::from_sub_tree_store_configs_and_replica(n, &cs, &ReplicaConfig::new(&p, offs)), "a compound tree over compacted stores is made");
    same1(&t.root(), &r_over(&mids_of(&rows, v)), "the root is the hash of the component roots in order");
    for i in 0..n * m {
        same1(&rt::get(t.read_at(i), "a leaf is readable"), &leaves[i], "leaf i is read from its component's part of the external file");
    }
    let i = rt::pick("index", 0, (n * m) as u64 - 1) as usize;
    let q = rt::get(t.gen_cached_proof(i, Some(d)), "a cached proof is generated");
    check_top_proof(&q, &rows, v, i);
    check_valid(&q);
    rt::reach("top");
}
/// The numbers of configurations and of offsets must be the number of components.
fn counts<U: Unsigned>() {
    let n = U::to_usize();
    let leaves = items("leaf", n * 5);
    let (cs, rows) = stores::<U>(&leaves, 5, 0);
    let p = write_file("replica", &to_bytes(&leaves));
    let (c, o) = (rt::pick("configs", 0, 5) as usize, rt::pick("offsets", 0, 5) as usize);
    let rc = ReplicaConfig::new(&p, (0..o).map(|j| j * n * EL).collect());
    let e = "making a tree never panics";
    let roots: Vec<El> = rows.iter().map(|r| root_of(r)).collect();
    let m = "a compound tree is made iff there is one offset and one configuration for each component";
    match rt::no_panic(e, || Ts::<Lc, U, U2>::from_store_configs_and_replica(n, &cs[..c], &rc)) {
        Ok(t) => {
            rt::check(c == 2 && o == 2, m);
            same1(&t.root(), &r_over(&roots[..2]), "the root is the hash of the component roots in order");
        }
        Err(_) => rt::check(!(c == 2 && o == 2), m),
    }
    match rt::no_panic(e, || Tt::<Lc, U, U2, U2>::from_sub_tree_store_configs_and_replica(n, &cs[..c], &rc)) {
        Ok(t) => {
            rt::check(c == 4 && o == 4, m);
            same1(&t.root(), &r_over(&mids_of(&rows[..4], 2)), "the root is the hash of the component roots in order");
        }
        Err(_) => rt::check(!(c == 4 && o == 4), m),
    }
    let none = ReplicaConfig::new(Path::new(rt::dir()).join("no-such-replica"), vec![0; 2]);
    rt::check(rt::no_panic(e, || Ts::<Lc, U, U2>::from_store_configs_and_replica(n, &cs[..2], &none)).is_err(), "a missing external file is an error");
    rt::reach("counts");
}
/// The reader itself: any start and end, any offset, against the file.
fn reader() {
    let data = {
        let mut b = vec![0u8; 20];
        rt::bytes("data", &mut b);
        b
    };
    let p = write_file("replica", &data);
    let off = rt::pick("offset", 0, 22) as usize;
    let r = rt::get(ExternalReader::new_from_config(&ReplicaConfig::new(&p, vec![off]), 0), "an external reader opens");
    let (a, l) = (rt::pick("start", 0, 6) as usize, rt::pick("bytes", 0, 10) as usize);
    let mut buf = vec![0u8; l + rt::pick("room", 0, 1) as usize];
    match rt::no_panic("reading never panics", || r.read(a, a + l, &mut buf)) {
        Ok(x) => {
            rt::check(x == l, "a reader returns what it was asked for");
            rt::check(l == 0 || off + a + l <= data.len(), "a read beyond the external file is an error");
            if l > 0 {
                rt::check_eq(&buf[..l], &data[off + a..off + a + l], "a reader reads at its offset plus the position");
            }
        }
        Err(_) => rt::check(off + a + l > data.len(), "a read within the external file succeeds"),
    }
    rt::reach("reader");
}
use merkletree::merkle::MerkleTree;
fn go_virt() {
    by_arity1!(rt::param("arity", 2), virt, [], (rt::param("k", 1) as usize))
}
fn go_file() {
    by_arity1!(rt::param("arity", 2), file, [], (rt::param("k", 1) as usize))
}
fn go_short() {
    by_arity1!(rt::param("arity", 2), short, [], (rt::param("k", 1) as usize))
}
fn go_counts() {
    by_arity1!(rt::param("arity", 2), counts, [], ())
}
fn go_sub() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2)) {
        (2, 2) => sub::<U2, U2>(k),
        (2, 3) => sub::<U2, U3>(k),
        (4, 2) => sub::<U4, U2>(k),
        (8, 2) => sub::<U8, U2>(k),
        (2, 8) => sub::<U2, U8>(k),
        _ => panic!("harness: bad shape"),
    }
}
fn go_top() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2), rt::param("top", 2)) {
        (2, 2, 2) => top::<U2, U2, U2>(k),
        (2, 3, 2) => top::<U2, U3, U2>(k),
        (4, 2, 3) => top::<U4, U2, U3>(k),
        _ => panic!("harness: bad shape"),
    }
}
/// Trees too large to build, the leaves of each at its place in a large file.
fn large<U: Unsigned>(k: usize, e: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let i = pick_index("index", n, a);
    let which = rt::pick("component", 0, 2) as usize;
    let offs: Vec<usize> = match rt::pick("offsets", 0, 3) {
        0 => vec![0, n * EL, 2 * n * EL],
        1 => vec![(1 << 32) + 2 * n * EL + 3, (1 << 32) - 1, (1 << 32) + n * EL + 1],
        2 => vec![(1 << 40) + 7, 1 << 41, 5],
        _ => vec![2 * n * EL + (1 << 31) + 1, n * EL + (1 << 31), (1 << 31) - 1],
    };
    let (mut hs, mut cs, mut p) = (vec![], vec![], None);
    for c in 0..3 {
        let h = Huge::new(a, k, if c == which { i } else { c }, e, "node");
        let d = e - 1;
        let n = cfg(&name_of(c), d);
        h.compact(&n, d, 2);
        p = Some(h.replica("replica", offs[c]));
        hs.push(h);
        cs.push(n);
    }
    let rc = ReplicaConfig::new(p.unwrap(), offs);
    let w = "the base data is read at the reader's offset plus the node's position";
    {
        let r = rt::get(ExternalReader::new_from_config(&rc, which), "an external reader opens");
        let s = rt::get(Lc::new_from_disk_with_reader(hs[0].len, a, &cs[which], r), "a compacted store opens with its reader");
        let t = rt::get(T::<Lc, U>::from_data_store(s, n), "a tree over a compacted store is made");
        hs[which].readers(&t, e - 1, true);
        let (at, _, g) = &hs[which].runs[0];
        let mut b = vec![0; g.len() * EL];
        rt::get(t.read_range_into(*at, at + g.len(), &mut b), "a range of base nodes is readable");
        rt::check_eq(&b, &to_bytes(g), w);
    }
    let t = rt::get(Ts::<Lc, U, U3>::from_store_configs_and_replica(n, &cs, &rc), "a compound tree over compacted stores is made");
    same1(&rt::get(t.read_at(which * n + i), "a leaf is readable"), &hs[which].lemma[0], "leaf i is read from its component's part of the external file");
    let q = rt::get(t.gen_cached_proof(which * n + i, Some(e - 1)), "a cached proof is generated");
    same(q.lemma(), &r_over_lemma(&roots_of(&hs), which), "the compound proof is the base proof, the other roots and the compound root");
    hs[which].is_proof(q.sub_tree_proof.as_ref().unwrap());
    check_valid(&q);
    rt::reach("large");
}
fn go_large() {
    by_arity1!(rt::param("arity", 2), large, [], (rt::param("k", 33) as usize, rt::param("height", 3) as usize))
}
/// A caller's reader that stops early: it gives at most so many bytes at a time and says so.
pub struct Stingy {
    data: Vec<u8>,
    most: usize,
}
impl Read for Stingy {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Ok(0)
    }
}
fn stingy_read(start: usize, end: usize, buf: &mut [u8], s: &Stingy) -> anyhow::Result<usize> {
    let n = (end - start).min(s.most).min(s.data.len().saturating_sub(start));
    if n > 0 {
        buf[..n].copy_from_slice(&s.data[start..start + n]);
    }
    Ok(n)
}
fn stingy<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let c = cfg("c17s", d);
    let mut t = mk_cfg::<U>(&its, &c);
    let len = t.len();
    rt::check(rt::get(t.compact(c.clone(), 2), "a full tree can be compacted"), "compaction reports success");
    let off = [0, 5][rt::pick("offset", 0, 1) as usize];
    let mut data = vec![0x5a; off];
    data.extend(to_bytes(&its));
    let cut = [0, 1, EL, n * EL / 2][rt::pick("cut", 0, 3) as usize];
    data.truncate(off + n * EL - cut);
    let most = [0, 1, EL - 1, EL, EL + 1, 2 * EL, n * EL][rt::pick("most", 0, 6) as usize];
    type L = LevelCacheStore<El, Stingy>;
    let s = rt::get(L::new_from_disk_with_reader(len, a, &c, ExternalReader { offset: off, source: Stingy { data, most }, read_fn: stingy_read }), "a compacted store opens with its reader");
    let t = rt::get(MerkleTree::<El, Al, L, U, U0, U0>::from_data_store(s, n), "a tree over a compacted store is made");
    let rows = r_rows(&its, a);
    let (yes, no) = ("what the reader gives in full is read", "a reader that gives less than it was asked for is an error, not nodes");
    let i = pick_index("leaf-index", n, a);
    let full = |from: usize, to: usize| (to - from) * EL <= most && to * EL <= n * EL - cut;
    match rt::no_panic("reading never panics", || t.read_at(i)) {
        Ok(e) => {
            rt::check(full(i, i + 1), no);
            same1(&e, &its[i], yes)
        }
        Err(_) => rt::check(!full(i, i + 1), yes),
    }
    let mut b = [0; EL];
    match rt::no_panic("reading never panics", || t.read_into(i, &mut b)) {
        Ok(_) => {
            rt::check(full(i, i + 1), no);
            rt::check_eq(&b, &its[i].0, yes)
        }
        Err(_) => rt::check(!full(i, i + 1), yes),
    }
    let j = rt::pick("end", i as u64 + 1, n.min(i + 3) as u64) as usize;
    match rt::no_panic("reading never panics", || t.read_range(i, j)) {
        Ok(v) => {
            rt::check(full(i, j), no);
            same(&v, &its[i..j], yes)
        }
        Err(_) => rt::check(!full(i, j), yes),
    }
    match rt::no_panic("proving never panics", || t.gen_cached_proof(i, Some(d))) {
        Ok(p) => {
            check_base_proof(&p, &rows, i);
            check_valid(&p);
        }
        Err(_) => rt::check(!full(0, n), yes),
    }
    rt::reach("stingy");
}
fn go_stingy() {
    by_arity1!(rt::param("arity", 2), stingy, [], (rt::param("k", 1) as usize))
}
entries! { h_stingy => go_stingy, h_large17 => go_large, h_virtual => go_virt, h_file => go_file, h_short => go_short, h_counts17 => go_counts, h_sub17 => go_sub, h_top17 => go_top, h_reader => go_reader }
fn go_reader() {
    reader()
}
