//! C18: errors of the leaf source.
use crate::common::*;
use crate::rt;
use std::cell::Cell;
use std::fmt;

#[derive(Debug)]
struct Boom(u64);
impl fmt::Display for Boom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("boom")
    }
}
impl std::error::Error for Boom {}
/// Yields the items; errors instead of item `at` and, later, of item `then`; claims `hint` items.
struct Src<'a> {
    its: &'a [El],
    at: Option<usize>,
    then: Option<usize>,
    tag: u64,
    hint: usize,
    lower: usize,
    i: usize,
    taken: &'a Cell<usize>,
}
impl Iterator for Src<'_> {
    type Item = anyhow::Result<El>;
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.i;
        self.i += 1;
        self.taken.set(self.taken.get() + 1);
        if Some(i) == self.at {
            return Some(Err(anyhow::Error::new(Boom(self.tag))));
        }
        if Some(i) == self.then {
            return Some(Err(anyhow::Error::new(Boom(!self.tag))));
        }
        self.its.get(i).map(|x| Ok(*x))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lower, Some(self.hint))
    }
}
const ERR: &str = "an error of the leaf source fails the build";
fn run<S: Store<El>, U: Unsigned>(named: bool, id: &str, src: Src) -> Result<T<S, U>, anyhow::Error> {
    rt::no_panic("building from a failing leaf source never panics", || {
        if named {
            T::<S, U>::try_from_iter_with_config(src, cfg(id, 0))
        } else {
            T::<S, U>::try_from_iter(src)
        }
    })
}
fn fails<S: Store<El>, U: Unsigned>(r: Result<T<S, U>, anyhow::Error>, tag: u64) {
    match r {
        Ok(_) => rt::check(false, ERR),
        Err(e) => match e.downcast_ref::<Boom>() {
            None => rt::check(false, "the error returned is the leaf source's"),
            Some(b) => rt::check(b.0 == tag, "the error returned is the first one of the leaf source"),
        },
    }
}
/// All nodes; of a level-cache tree (which needs an external reader) the root, which depends on all.
fn whole<S: Store<El>, U: Unsigned>(t: &T<S, U>, its: &[El], lc: bool) {
    let rows = r_rows(&its.iter().map(r_leaf).collect::<Vec<_>>(), U::to_usize());
    if lc {
        let f = flat(&rows);
        let n = its.len();
        rt::check(t.len() == f.len() && t.leafs() == n && t.row_count() == rows.len(), "the tree has the shape of its leaves");
        same1(&t.root(), &root_of(&rows), "root() is the root of the reference tree");
    } else {
        check_layout(t, &rows, true);
    }
}
fn iter<S: Store<El>, U: Unsigned>(n: usize, named: bool, lc: bool) {
    let its = items("leaf", n);
    let tag = rt::any("tag");
    let e = if n <= 64 { rt::pick("error_at", 0, n as u64 + 1) as usize } else { [0, 1, n / 2, n - 2, n - 1, n, n + 1][rt::pick("error_at", 0, 6) as usize] };
    let then = if flag("second") { Some(e + 1) } else { None };
    let lower = if flag("exact") { n } else { 0 };
    let taken = Cell::new(0);
    let before = rt::file_count();
    let src = |at, then| Src { its: &its, at, then, tag, hint: n, lower, i: 0, taken: &taken };
    let r = run::<S, U>(named, "c18", src(if e <= n { Some(e) } else { None }, then));
    if e <= n {
        fails(r, tag);
        rt::check(taken.get() == e + 1, "no leaf is taken after the error");
        rt::check(rt::file_count() == before, "a failed build leaves no file behind");
        // the same build again, now without the error
        taken.set(0);
        let t = rt::get(run::<S, U>(named, "c18", src(None, None)), "the build succeeds when the leaf source does");
        whole(&t, &its, lc);
    } else {
        let t = rt::get(r, "the build succeeds when the leaf source does");
        whole(&t, &its, lc);
    }
    rt::check(taken.get() >= n, "every leaf is taken");
    rt::reach("iter");
}
/// A source that yields another number of leaves than it announced.
fn counts<S: Store<El>, U: Unsigned>(n: usize, named: bool) {
    let m = rt::pick("yields", 0, 2 * n as u64 + 2) as usize;
    let its = items("leaf", m);
    let taken = Cell::new(0);
    let before = rt::file_count();
    let r = run::<S, U>(named, "c18", Src { its: &its, at: None, then: None, tag: 0, hint: n, lower: 0, i: 0, taken: &taken });
    rt::check(r.is_ok() == (m == n), "a source that yields another number of leaves than announced fails the build");
    if r.is_err() {
        rt::check(rt::file_count() == before, "a failed build leaves no file behind");
    }
    rt::reach("counts");
}
/// Sources of several blocks of leaves.
fn blocks<S: Store<El>>(n: usize, named: bool) {
    let b = merkletree::merkle::BUILD_DATA_BLOCK_SIZE;
    let tag = rt::any("tag");
    let at = [b - 1, b, b + 1, 2 * b - 1, 2 * b][rt::pick("error_at", 0, 4) as usize];
    if at > n {
        return;
    }
    let taken = Cell::new(0);
    let files = rt::file_count();
    struct Many<'a>(usize, usize, usize, u64, &'a Cell<usize>);
    impl Iterator for Many<'_> {
        type Item = anyhow::Result<El>;
        fn next(&mut self) -> Option<Self::Item> {
            let i = self.0;
            self.0 += 1;
            self.4.set(self.0);
            if i == self.2 {
                Some(Err(anyhow::Error::new(Boom(self.3))))
            } else if i < self.1 {
                Some(Ok(El(i.to_le_bytes())))
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.1, Some(self.1))
        }
    }
    type B<S> = merkletree::merkle::MerkleTree<El, crate::c01::Mix, S, U2, U0, U0>;
    let src = Many(0, n, at, tag, &taken);
    let r = if named { B::<S>::try_from_iter_with_config(src, cfg("c18", 0)) } else { B::<S>::try_from_iter(src) };
    match r {
        Ok(_) => rt::check(false, ERR),
        Err(e) => rt::check(e.downcast_ref::<Boom>().map(|b| b.0) == Some(tag), "the error returned is the leaf source's"),
    }
    rt::check(taken.get() == at + 1, "no leaf is taken after the error");
    rt::check(rt::file_count() == files, "a failed build leaves no file behind");
    rt::reach("blocks");
}
fn go_blocks() {
    let (s, k, named) = (rt::param("store", 0), rt::param("k", 19), rt::param("named", 1) == 1);
    by_store!(s, blocks, [], (1 << k, named))
}
/// A failing source under the name of an existing tree leaves that tree alone.
fn existing<S: Store<El>, U: Unsigned>(n: usize) {
    let its = items("leaf", n);
    let taken = Cell::new(0);
    let old = rt::get(T::<S, U>::try_from_iter_with_config(its.iter().map(|x| Ok(*x)), cfg("c18", 0)), "building a tree over arity^k leaves succeeds");
    let f = flat(&r_rows(&its.iter().map(r_leaf).collect::<Vec<_>>(), U::to_usize()));
    let other = items("other", n);
    let tag = rt::any("tag");
    let e = rt::pick("error_at", 0, n as u64 - 1) as usize;
    let r = run::<S, U>(true, "c18", Src { its: &other, at: Some(e), then: None, tag, hint: n, lower: 0, i: 0, taken: &taken });
    if let Err(e) = r {
        match e.downcast_ref::<Boom>() {
            None => {} // refused because the name is taken
            Some(b) => rt::check(b.0 == tag, "the error returned is the first one of the leaf source"),
        }
    } else {
        rt::check(taken.get() == 0, "a leaf source that was read and failed fails the build");
    }
    let p = StoreConfig::data_path(std::path::Path::new(rt::dir()), "c18");
    rt::check_eq(&std::fs::read(p).expect("harness"), &to_bytes(&f), "the existing tree's file is untouched");
    same(&rt::get(old.read_range(0, f.len()), "the existing tree is readable"), &f, "the existing tree is untouched");
    rt::reach("existing");
}
fn go_iter() {
    let (s, a, k, named) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("named", 1) == 1);
    let n = pow(a as usize, k as usize);
    by_arity!(a, by_store, s, iter, (n, named, s == 3))
}
fn go_counts() {
    let (s, a, k, named) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("named", 1) == 1);
    let n = pow(a as usize, k as usize);
    by_arity!(a, by_store, s, counts, (n, named))
}
fn go_existing() {
    let (s, a, k) = (rt::param("store", 1), rt::param("arity", 2), rt::param("k", 1));
    let n = pow(a as usize, k as usize);
    match (s, a) {
        (1, 2) => existing::<DiskStore<El>, U2>(n),
        (1, 4) => existing::<DiskStore<El>, U4>(n),
        (2, 2) => existing::<MmapStore<El>, U2>(n),
        (2, 4) => existing::<MmapStore<El>, U4>(n),
        _ => panic!("harness: bad instance"),
    }
}
entries! { h_blocks18 => go_blocks, h_iter => go_iter, h_counts18 => go_counts, h_existing => go_existing }
