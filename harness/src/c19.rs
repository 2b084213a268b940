//! C19: names, files and isolation of stores.
use crate::common::*;
use crate::rt;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

fn name(n: &str, len: usize) -> String {
    let mut v = vec![0u8; len];
    rt::bytes(&format!("{}{}", n, len), &mut v);
    // one file name; the library looks at none of its bytes, so any encoding will do
    let mut ok = true;
    for b in &v {
        ok &= (*b != 0) & (*b != b'/');
    }
    rt::assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
/// The file of a name: inside the directory, and no other name's.
fn names() {
    let max = rt::param("max", 6);
    let a = name("first", rt::pick("length_a", 0, max) as usize);
    let b = name("second", rt::pick("length_b", 0, max) as usize);
    differ(a, b);
}
/// Long names (a file's name has at most 255 bytes).
fn long_names() {
    let n = [16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 239, 240][rt::pick("length", 0, 13) as usize];
    let a = name("first", n);
    let b = name("second", n + 1 - rt::pick("shorter", 0, 2) as usize);
    differ(a, b);
}
fn differ(a: String, b: String) {
    let d = Path::new(rt::dir());
    let (p, q) = (StoreConfig::data_path(d, &a), StoreConfig::data_path(d, &b));
    let (p, q) = (p.as_os_str().as_bytes(), q.as_os_str().as_bytes());
    let n = d.as_os_str().as_bytes().len();
    for x in [p, q] {
        rt::check(x.len() > n + 1, "a store's file is in its directory");
        rt::check_eq(&x[..n], d.as_os_str().as_bytes(), "a store's file is in its directory");
        let mut clean = x[n] == b'/';
        for c in &x[n + 1..] {
            clean &= *c != b'/';
        }
        rt::check(clean, "a store's file is in its directory");
    }
    let mut same = p.len() == q.len();
    if same {
        let mut d = 0;
        for i in 0..p.len() {
            d |= p[i] ^ q[i];
        }
        same = d == 0;
    }
    let mut equal = a.len() == b.len();
    if equal {
        let mut d = 0;
        for i in 0..a.len() {
            d |= a.as_bytes()[i] ^ b.as_bytes()[i];
        }
        equal = d == 0;
    }
    rt::check(same == equal, "different names have different files, equal names the same");
    let c = StoreConfig::new(d, a.clone(), 3);
    rt::check_eq(c.id.as_bytes(), a.as_bytes(), "a configuration has the name it was given");
    let e = StoreConfig::from_config(&c, b.clone(), None);
    rt::check_eq(e.id.as_bytes(), b.as_bytes(), "a configuration derived from another has its own name");
    rt::check(e.rows_to_discard == 3 && e.path == d, "a configuration derived from another has its directory and rows to discard");
    rt::reach("names");
}
const NAMES: [(&str, &str); 12] =
    [(LONG.0, LONG.1), (LONG.0, LONG.2), ("\u{e9}", "e\u{301}"), ("tree", "tree2"), ("a.1", "a.2"), ("a", "a.dat"), ("", "0"), ("x", "X"), ("n-1", "n-10"), ("sc-02-data-", ""), ("a b", "a"), ("data", "a-data")];
/// Names that differ only far from their start.
const LONG: (&str, &str, &str) = (
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789a",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789b",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
);
fn path_of(id: &str) -> PathBuf {
    StoreConfig::data_path(Path::new(rt::dir()), id)
}
fn at(id: &str) -> Vec<u8> {
    std::fs::read(path_of(id)).expect("harness: file of a store")
}
/// Whatever is done to one store, another's file and nodes stay as they are.
fn two<S: Store<El>, R: Store<El>>(mine_on_disk: bool, other_on_disk: bool, compacts: bool) {
    let (mut a, mut b) = NAMES[rt::pick("names", 0, NAMES.len() as u64 - 1) as usize];
    if flag("swapped") {
        std::mem::swap(&mut a, &mut b);
    }
    let (la, lb) = (items("mine", 4), items("other", 4));
    let files = rt::file_count();
    let u: T<R, U2> = mk(&lb, b);
    let fb = flat(&r_rows(&lb, 2));
    let safe = |t: &T<R, U2>| {
        same(&rt::get(t.read_range(0, 7), "the other tree is readable"), &fb, "the other tree is unchanged");
        if other_on_disk {
            rt::check_eq(&at(b), &to_bytes(&fb), "the other tree's file is unchanged");
        }
    };
    let mut t: T<S, U2> = mk(&la, a);
    rt::check(rt::file_count() == files + mine_on_disk as u64 + other_on_disk as u64, "a named store has one file");
    let fa = flat(&r_rows(&la, 2));
    same(&rt::get(t.read_range(0, 7), "a built tree is readable"), &fa, "a tree is over its own leaves");
    safe(&u);
    match rt::pick("operation", 0, 4) {
        0 => {
            if compacts {
                rt::check(rt::get(t.compact(cfg(a, 1), 2), "a full tree can be compacted with a legal number of rows to discard"), "compaction reports success");
                rt::check_eq(&at(a), &to_bytes(&fa[6..]), "compaction shrinks the store's own file");
            }
        }
        1 => {
            rt::get(t.delete(cfg(a, 0)), "an existing store can be deleted");
            rt::check(!mine_on_disk || !path_of(a).exists(), "deleting a store removes its file");
            rt::check(rt::file_count() == files + other_on_disk as u64, "deleting a store removes one file");
            safe(&u);
            // the name is free again
            let l2 = items("again", 4);
            let t2: T<S, U2> = mk(&l2, a);
            same(&rt::get(t2.read_range(0, 7), "a built tree is readable"), &flat(&r_rows(&l2, 2)), "a tree built after a deletion is over its own leaves");
        }
        2 => {
            drop(t);
            if mine_on_disk {
                let s = rt::get(S::new_from_disk(7, 2, &cfg(a, 0)), "a persisted store reopens");
                same(&rt::get(s.read_range(0..7), "a reopened store is readable"), &fa, "a reopened store is its own tree");
            }
        }
        3 => {
            if mine_on_disk {
                let mut s = rt::get(S::new_from_disk(7, 2, &cfg(a, 0)), "a persisted store reopens");
                rt::get(s.write_at(item("value"), rt::pick("index", 0, 6) as usize), "an element can be overwritten");
                rt::get(s.sync(), "sync succeeds");
            }
        }
        _ => {
            // the other one goes; mine stays
            rt::get(u.delete(cfg(b, 0)), "an existing store can be deleted");
            rt::check(!other_on_disk || !path_of(b).exists(), "deleting a store removes its file");
            same(&rt::get(t.read_range(0, 7), "the remaining tree is readable"), &fa, "the remaining tree is unchanged");
            if mine_on_disk {
                rt::check_eq(&at(a), &to_bytes(&fa), "the remaining tree's file is unchanged");
            }
            rt::reach("two");
            return;
        }
    }
    safe(&u);
    if other_on_disk {
        drop(u);
        let s = rt::get(R::new_from_disk(7, 2, &cfg(b, 0)), "a persisted store reopens");
        same(&rt::get(s.read_range(0..7), "a reopened store is readable"), &fb, "the other tree is unchanged");
    }
    rt::reach("two");
}
/// Same names in different directories are different stores, too.
fn dirs() {
    let other = Path::new(rt::dir()).join("sub");
    std::fs::create_dir_all(&other).expect("harness");
    let (la, lb) = (items("mine", 4), items("other", 4));
    let t: T<DiskStore<El>, U2> = mk(&la, "same");
    let u = rt::get(T::<DiskStore<El>, U2>::from_byte_slice_with_config(&to_bytes(&lb), StoreConfig::new(&other, "same", 0)), "building a tree over arity^k leaves succeeds");
    same(&rt::get(t.read_range(0, 7), "a built tree is readable"), &flat(&r_rows(&la, 2)), "a tree is over its own leaves");
    same(&rt::get(u.read_range(0, 7), "a built tree is readable"), &flat(&r_rows(&lb, 2)), "a tree is over its own leaves");
    rt::get(u.delete(StoreConfig::new(&other, "same", 0)), "an existing store can be deleted");
    rt::check_eq(&at("same"), &to_bytes(&flat(&r_rows(&la, 2))), "the other tree's file is unchanged");
    rt::reach("dirs");
}
/// Unnamed stores: private, and gone when dropped.
fn unnamed<S: Store<El>>() {
    let files = rt::file_count();
    let fds = rt::open_fds();
    {
        let (mut va, vb) = (items("mine", 3), items("other", 3));
        let mut a = rt::get(S::new_from_slice(3, &to_bytes(&va)), "a store over a slice is made");
        let mut b = rt::get(S::new(3), "an empty store is made");
        rt::check(b.len() == 0 && b.is_empty(), "a new unnamed store is empty");
        rt::check(rt::file_count() == files, "an unnamed store leaves no file in the directory");
        rt::get(b.copy_from_slice(&to_bytes(&vb), 0), "a write within the capacity succeeds");
        let i = rt::pick("index", 0, 2) as usize;
        let e = item("value");
        rt::get(a.write_at(e, i), "a write within the capacity succeeds");
        va[i] = e;
        rt::get(a.sync(), "sync succeeds");
        rt::get(b.sync(), "sync succeeds");
        same(&rt::get(a.read_range(0..3), "a written range is readable"), &va, "unnamed stores share no data");
        same(&rt::get(b.read_range(0..3), "a written range is readable"), &vb, "unnamed stores share no data");
        rt::check(rt::file_count() == files, "an unnamed store leaves no file in the directory");
    }
    rt::check(rt::file_count() == files, "an unnamed store leaves no file in the directory");
    rt::check(rt::open_fds() == fds, "a dropped store holds no file open");
    rt::reach("unnamed");
}
/// Deleting a store that does not exist removes nothing.
fn none<S: Store<El>>() {
    let la = items("mine", 4);
    let t: T<DiskStore<El>, U2> = mk(&la, "kept");
    let files = rt::file_count();
    let (a, _) = NAMES[rt::pick("names", 0, NAMES.len() as u64 - 1) as usize];
    let _ = rt::no_panic("deleting never panics", || S::delete(cfg(a, 0)));
    rt::check(rt::file_count() == files, "deleting a store that does not exist removes nothing");
    same(&rt::get(t.read_range(0, 7), "a built tree is readable"), &flat(&r_rows(&la, 2)), "a tree is over its own leaves");
    rt::reach("none");
}
fn go_two() {
    match (rt::param("mine", 1), rt::param("other", 1)) {
        (0, 1) => two::<VecStore<El>, DiskStore<El>>(false, true, false),
        (1, 0) => two::<DiskStore<El>, VecStore<El>>(true, false, true),
        (1, 1) => two::<DiskStore<El>, DiskStore<El>>(true, true, true),
        (1, 2) => two::<DiskStore<El>, MmapStore<El>>(true, true, true),
        (2, 1) => two::<MmapStore<El>, DiskStore<El>>(true, true, false),
        (2, 2) => two::<MmapStore<El>, MmapStore<El>>(true, true, false),
        _ => panic!("harness: bad instance"),
    }
}
/// Level-cache stores: deletion and neighbours.
fn cached() {
    let (mut a, mut b) = NAMES[rt::pick("names", 0, NAMES.len() as u64 - 1) as usize];
    if flag("swapped") {
        std::mem::swap(&mut a, &mut b);
    }
    let (la, lb) = (items("mine", 4), items("other", 4));
    let v = rt::pick("version", 1, 2) as u32;
    let t = compacted::<U2>(&la, a, 1, v);
    let fb = flat(&r_rows(&lb, 2));
    let u: T<DiskStore<El>, U2> = mk(&lb, b);
    let files = rt::file_count();
    same1(&rt::get(t.read_at(6), "a kept node is readable"), &root_of(&r_rows(&la, 2)), "a compacted tree is unchanged by its neighbour");
    rt::get(t.delete(cfg(a, 0)), "an existing store can be deleted");
    rt::check(!path_of(a).exists() && rt::file_count() == files - 1, "deleting a store removes exactly its file");
    same(&rt::get(u.read_range(0, 7), "the other tree is readable"), &fb, "the other tree is unchanged");
    rt::check_eq(&at(b), &to_bytes(&fb), "the other tree's file is unchanged");
    rt::reach("cached");
}
fn go_unnamed() {
    let s = rt::param("store", 0);
    by_store!(s, unnamed, [], ())
}
fn go_none() {
    let s = rt::param("store", 0);
    by_store!(s, none, [], ())
}
entries! { h_names => names, h_long_names => long_names, h_two => go_two, h_dirs => dirs, h_unnamed => go_unnamed, h_none => go_none, h_cached19 => cached }
