//! C13: a store is an array.  Every sequence of writes, against a model array.
use crate::common::*;
use crate::rt;

const OP: &str = "writing never panics";
struct Model {
    v: Vec<Option<El>>,
    /// None: the store grows
    cap: Option<usize>,
}
impl Model {
    fn put(&mut self, i: usize, e: El) {
        while self.v.len() <= i {
            self.v.push(None);
        }
        self.v[i] = Some(e);
    }
}
fn check<S: Store<El>>(s: &S, m: &Model) {
    let n = m.v.len();
    rt::check(s.len() == n, "len() is one past the highest written position");
    rt::check(s.is_empty() == (n == 0), "is_empty() says whether len() is 0");
}
fn check_all<S: Store<El>>(s: &S, m: &Model, into: bool) {
    check(s, m);
    let n = m.v.len();
    let w = "a read returns the value last written there";
    let mut buf = [0; EL];
    for i in 0..n {
        let e = rt::get(s.read_at(i), "a written position is readable");
        rt::get(s.read_into(i, &mut buf), "a written position is readable");
        if let Some(x) = &m.v[i] {
            same1(&e, x, w);
            rt::check_eq(&buf, &x.0, w);
        }
    }
    for a in 0..n {
        for b in a + 1..n + 1 {
            let r = rt::get(s.read_range(a..b), "a written range is readable");
            rt::check(r.len() == b - a, "a range has its length");
            let mut big = vec![0; (b - a) * EL];
            if into {
                rt::get(s.read_range_into(a, b, &mut big), "a written range is readable");
            }
            for i in a..b {
                if let Some(x) = &m.v[i] {
                    same1(&r[i - a], x, w);
                    if into {
                        rt::check_eq(&big[(i - a) * EL..(i - a + 1) * EL], &x.0, w);
                    }
                }
            }
        }
    }
    if n > 0 {
        if let Some(x) = &m.v[n - 1] {
            same1(&rt::get(s.last(), "the last element is readable"), x, "last() is the last element");
        }
    }
    let o = rt::range("outside", n as u64, 1 << 48) as usize;
    rt::check(rt::no_panic("reading never panics", || s.read_at(o)).is_err(), "reading beyond the length is an error");
}
/// One operation, chosen by the solver.
fn step<S: Store<El>>(s: &mut S, m: &mut Model, cap: u64) {
    let i = |n: &str| rt::pick(n, 0, cap + 1) as usize;
    let fits = |m: &Model, end: usize| m.cap.map_or(true, |c| end <= c);
    let full = "a write beyond the capacity is refused";
    let okay = "a write within the capacity succeeds";
    match rt::pick("op", 0, 4) {
        0 => {
            let e = item("value");
            let at = m.v.len();
            let r = rt::no_panic(OP, || s.push(e));
            if fits(m, at + 1) {
                rt::get(r, okay);
                m.put(at, e);
            } else {
                rt::check(r.is_err(), full);
            }
        }
        1 => {
            let e = item("value");
            let at = i("index");
            let r = rt::no_panic(OP, || s.write_at(e, at));
            if fits(m, at + 1) {
                rt::get(r, okay);
                m.put(at, e);
            } else {
                rt::check(r.is_err(), full);
            }
        }
        2 => {
            let at = i("index");
            let c = rt::pick("count", 0, 2) as usize;
            rt::assume(c > 0 || at <= m.v.len()); // writing nothing beyond the end
            let es = items("value", c);
            let r = rt::no_panic(OP, || s.copy_from_slice(&to_bytes(&es), at));
            if fits(m, at + c) {
                rt::get(r, okay);
                for (j, e) in es.iter().enumerate() {
                    m.put(at + j, *e);
                }
            } else {
                rt::check(r.is_err(), full);
            }
        }
        3 => {
            let at = i("index");
            let b = to_bytes(&items("value", 2));
            let l = [1, EL - 1, EL + 1][rt::pick("ragged", 0, 2) as usize];
            rt::check(rt::no_panic(OP, || s.copy_from_slice(&b[..l], at)).is_err(), "a slice that is not whole elements is refused");
        }
        _ => {
            if let Some(c) = m.cap {
                // anywhere beyond the capacity
                let at = rt::range("far", c as u64, 1 << 48) as usize;
                let e = item("value");
                rt::check(rt::no_panic(OP, || s.write_at(e, at)).is_err(), full);
                rt::check(rt::no_panic(OP, || s.copy_from_slice(&e.0, at)).is_err(), full);
            } else {
                rt::get(s.sync(), "sync succeeds");
            }
        }
    }
    check(s, m);
}
fn make<S: Store<El>>(how: u64, cap: usize, m: &mut Model) -> S {
    let open = "an empty store is made";
    match how {
        0 => rt::get(S::new(cap), open),
        1 => rt::get(S::new_with_config(cap, 2, cfg("c13", 0)), open),
        h => {
            let c = rt::pick("initial", 0, cap as u64) as usize;
            let es = items("value", c);
            for (j, e) in es.iter().enumerate() {
                m.put(j, *e);
            }
            if h == 2 {
                rt::get(S::new_from_slice(cap, &to_bytes(&es)), "a store over a slice is made")
            } else {
                rt::get(S::new_from_slice_with_config(cap, 2, &to_bytes(&es), cfg("c13", 0)), "a store over a slice is made")
            }
        }
    }
}
fn ops<S: Store<El>>(how: u64, cap: usize, steps: usize, grows: bool, into: bool) {
    let mut m = Model { v: vec![], cap: if grows { None } else { Some(cap) } };
    let mut s: S = make(how, cap, &mut m);
    for _ in 0..steps {
        step(&mut s, &mut m, cap as u64);
    }
    check_all(&s, &m, into);
    rt::reach("ops");
}
/// Compaction of the in-memory and mapped stores changes no element; a mapped store comes back with reinit or the next write.
fn shrink<S: Store<El>>(maps: bool, how: u64) {
    let cap = 3;
    let mut m = Model { v: vec![], cap: if maps { Some(cap) } else { None } };
    let mut s: S = make(how, cap, &mut m);
    step(&mut s, &mut m, cap as u64);
    rt::check(rt::get(s.compact(2, cfg("c13", 0), 1), "compaction of a memory store succeeds"), "compaction reports success");
    if maps {
        if !m.v.is_empty() {
            let r = rt::no_panic("reading never panics", || s.read_at(0));
            if let (Ok(e), Some(x)) = (&r, &m.v[0]) {
                same1(e, x, "a read returns the value last written there");
            }
        }
        if flag("reinit") {
            rt::get(s.reinit(), "a released store can be mapped again");
        } else {
            let e = item("value");
            rt::get(s.write_at(e, 1), "a write within the capacity succeeds");
            m.put(1, e);
        }
    }
    check_all(&s, &m, false);
    step(&mut s, &mut m, cap as u64);
    check_all(&s, &m, false);
    rt::reach("shrink");
}
/// Larger stores: slices over page boundaries, overwritten in any order.
fn wide<S: Store<El>>(how: u64, cap: usize, grows: bool, into: bool) {
    let mut m = Model { v: vec![], cap: if grows { None } else { Some(cap) } };
    let mut s: S = match how {
        0 => rt::get(S::new(cap), "an empty store is made"),
        _ => rt::get(S::new_with_config(cap, 2, cfg("c13", 0)), "an empty store is made"),
    };
    // three overlapping pieces covering everything, in any order
    let third = cap / 3;
    let pieces = [(0, third + 2), (third, third + 5), (2 * third - 1, cap - (2 * third - 1))];
    let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let o = orders[rt::pick("order", 0, 5) as usize];
    for p in o {
        let (a, l) = pieces[p];
        let es = items("value", l);
        rt::get(s.copy_from_slice(&to_bytes(&es), a), "a write within the capacity succeeds");
        for (j, e) in es.iter().enumerate() {
            m.put(a + j, *e);
        }
        check(&s, &m);
    }
    let all: Vec<El> = m.v.iter().map(|x| x.unwrap()).collect();
    same(&rt::get(s.read_range(0..cap), "a written range is readable"), &all, "a read returns the value last written there");
    if into {
        let mut b = vec![0; cap * EL];
        rt::get(s.read_range_into(0, cap, &mut b), "a written range is readable");
        rt::check_eq(&b, &to_bytes(&all), "a read returns the value last written there");
    }
    for i in [0, 1, third - 1, third, cap / 2, cap - 2, cap - 1] {
        same1(&rt::get(s.read_at(i), "a written position is readable"), &all[i], "a read returns the value last written there");
    }
    rt::reach("wide");
}
/// A store that is opened again is the array it was.
fn again<S: Store<El>>(k: usize, steps: usize, grows: bool, into: bool) {
    let cap = (2usize << k) - 1;
    let mut m = Model { v: vec![], cap: if grows { None } else { Some(cap) } };
    let mut s: S = rt::get(S::new_with_config(cap, 2, cfg("c13", 0)), "an empty store is made");
    let es = items("value", cap);
    rt::get(s.copy_from_slice(&to_bytes(&es), 0), "a write within the capacity succeeds");
    for (j, e) in es.iter().enumerate() {
        m.put(j, *e);
    }
    for _ in 0..steps {
        step(&mut s, &mut m, cap as u64);
    }
    rt::get(s.sync(), "sync succeeds");
    drop(s);
    let open = "a store of the right size reopens";
    let c = cfg("c13", 0);
    let other = to_bytes(&items("value", cap));
    let mut s: S = match rt::pick("way", 0, 2) {
        0 => rt::get(S::new_from_disk(cap, 2, &c), open),
        1 => rt::get(S::new_with_config(cap, 2, c), open),
        _ => rt::get(S::new_from_slice_with_config(cap, 2, &other, c), open),
    };
    check_all(&s, &m, into);
    for _ in 0..steps {
        step(&mut s, &mut m, cap as u64);
    }
    check_all(&s, &m, into);
    rt::reach("again");
}
/// Level-cache stores that have discarded rows: the others are an array all the same.
fn holes(k: usize, d: usize, how: u64, steps: usize) {
    let n = 1usize << k;
    let mut m = items("value", 2 * n - 1);
    let cap = m.len();
    let gone: usize = (1..d + 1).map(|r| n >> r).sum();
    let c = cfg("c13h", d);
    let open = "a store of the right size reopens";
    // 0, 1: not compacted, with and without a reader; then the two formats with and without one
    let mut s: Lc = if how < 2 {
        rt::get(Lc::new_from_slice_with_config(cap, 2, &to_bytes(&m), c.clone()), "a store over a slice is made")
    } else {
        let mut o: DiskStore<El> = rt::get(DiskStore::new_from_slice_with_config(cap, 2, &to_bytes(&m), c.clone()), "a store over a slice is made");
        rt::check(rt::get(o.compact(2, c.clone(), if how < 4 { 1 } else { 2 }), "a full store is compacted"), "compaction reports success");
        drop(o);
        rt::get(<Lc as Store<El>>::new_from_disk(cap, 2, &c), open)
    };
    let reader = how % 2 == 1;
    if reader {
        let p = write_file("c13.base", &to_bytes(&m[..n]));
        rt::get(s.set_external_reader(rt::get(ExternalReader::new_from_path(&p), "an external reader opens")), "an external reader is set");
    }
    let base = reader || how < 4;
    let there = |i: usize| (base && i < n) || (i >= n + gone && i < cap);
    let w = "a read returns the value last written there";
    for step in 0..steps + 1 {
        rt::check(s.len() == cap && !s.is_empty(), "len() is one past the highest written position");
        let mut buf = [0; EL];
        for i in 0..cap {
            let r = rt::no_panic("reading never panics", || s.read_at(i));
            let q = rt::no_panic("reading never panics", || s.read_into(i, &mut buf));
            rt::check(r.is_ok() == there(i) && q.is_ok() == there(i), "exactly the kept positions are readable");
            if let Ok(x) = &r {
                same1(x, &m[i], w);
                rt::check_eq(&buf, &m[i].0, w);
            }
            for j in i + 1..cap + 1 {
                let must = (base && j <= n) || i >= n + gone;
                let mut b = vec![0; (j - i) * EL];
                let r = rt::no_panic("reading never panics", || s.read_range(i..j));
                let q = rt::no_panic("reading never panics", || s.read_range_into(i, j, &mut b));
                rt::check(r.is_ok() || !must, "a kept range is readable");
                rt::check(q.is_ok() || !must, "a kept range is readable");
                let may = (i..j).all(there);
                if let Ok(x) = &r {
                    rt::check(may, "a range with discarded positions is an error");
                    same(x, &m[i..j], w);
                }
                if q.is_ok() {
                    rt::check(may, "a range with discarded positions is an error");
                    rt::check_eq(&b, &to_bytes(&m[i..j]), w);
                }
            }
        }
        if step == steps {
            break;
        }
        let at = rt::pick("index", 0, cap as u64) as usize;
        let count = rt::pick("count", 0, 2) as usize;
        let es = items("value", count.max(1));
        let r = match count {
            0 => rt::no_panic(OP, || s.write_at(es[0], at)),
            _ => rt::no_panic(OP, || s.copy_from_slice(&to_bytes(&es), at)),
        };
        let end = at + es.len();
        let writable = |i: usize| (!reader && base && i < n) || (i >= n + gone && i < cap);
        let may = (at..end).all(writable);
        let must = may && (end <= n || at >= n + gone);
        rt::check(r.is_ok() || !must, "a write to kept positions succeeds");
        if r.is_ok() {
            // a store that is not compacted has room for discarded rows, too
            rt::check(may || (how < 2 && end <= cap && (!reader || at >= n)), "a write beyond the kept positions is refused");
            m[at..end].copy_from_slice(&es);
        }
        rt::check(rt::no_panic(OP, || s.push(es[0])).is_err(), "a write beyond the capacity is refused");
        let far = rt::range("far", cap as u64, 1 << 48) as usize;
        rt::check(rt::no_panic(OP, || s.write_at(es[0], far)).is_err(), "a write beyond the capacity is refused");
    }
    rt::reach("holes");
}
fn go_again() {
    let (s, k, n) = (rt::param("store", 0), rt::param("k", 1) as usize, rt::param("steps", 1) as usize);
    by_store!(s, again, [], (k, n, s == 0, s == 1 || s == 3))
}
fn go_holes() {
    holes(rt::param("k", 2) as usize, rt::param("discard", 1) as usize, rt::param("how", 0), rt::param("steps", 1) as usize)
}
fn go_ops() {
    let (s, how, cap, n) = (rt::param("store", 0), rt::param("how", 0), rt::param("cap", 3) as usize, rt::param("steps", 2) as usize);
    by_store!(s, ops, [], (how, cap, n, s == 0, s == 1 || s == 3))
}
fn go_shrink() {
    if rt::param("store", 0) == 0 {
        shrink::<VecStore<El>>(false, rt::param("how", 0))
    } else {
        shrink::<MmapStore<El>>(true, rt::param("how", 0))
    }
}
fn go_wide() {
    let (s, how, cap) = (rt::param("store", 0), rt::param("how", 0), rt::param("cap", 15) as usize);
    by_store!(s, wide, [], (how, cap, s == 0, s == 1 || s == 3))
}
/// Stores of more than 4 GiB: writes and reads anywhere in them.
fn far<S: Store<El>>(how: u64) {
    let cap = pow(2, rt::param("k", 33) as usize) + 3;
    let c = cfg("c13f", 0);
    let open = "an empty store is made";
    let mut s: S = if how == 0 { rt::get(S::new(cap), open) } else { rt::get(S::new_with_config(cap, 2, c), open) };
    let w = "a read returns the value last written there";
    let mut edges = vec![0, 1, cap - 3, cap - 2];
    for b in 28..34 {
        edges.extend([pow(2, b) - 2, pow(2, b) - 1, pow(2, b)]);
    }
    edges.retain(|e| e + 2 <= cap);
    let place = |n: &str| edges[rt::pick(n, 0, edges.len() as u64 - 1) as usize];
    let i = place("index");
    let es = items("value", 4);
    let wide = flag("wide");
    let okay = "a write within the capacity succeeds";
    // two neighbours at i, two (or one) further on
    rt::get(s.copy_from_slice(&to_bytes(&es[..2]), i), okay);
    rt::check(s.len() == i + 2, "len() is one past the highest written position");
    let j = place("other");
    rt::assume(j >= i + 2 || j + 2 <= i);
    if wide {
        rt::get(s.copy_from_slice(&to_bytes(&es[2..]), j), okay);
    } else {
        rt::get(s.write_at(es[2], j), okay);
    }
    let at = |p: usize| match p {
        p if p == i => Some(es[0]),
        p if p == i + 1 => Some(es[1]),
        p if p == j => Some(es[2]),
        p if p == j + 1 && wide => Some(es[3]),
        _ => None,
    };
    let n = (i + 2).max(j + 1 + wide as usize);
    rt::check(s.len() == n, "len() is one past the highest written position");
    if flag("push") {
        let e = item("value");
        let r = rt::no_panic(OP, || s.push(e));
        if n < cap {
            rt::get(r, okay);
            same1(&rt::get(s.read_at(n), "a written position is readable"), &e, w);
            same1(&rt::get(s.last(), "the last element is readable"), &e, "last() is the last element");
        } else {
            rt::check(r.is_err(), "a write beyond the capacity is refused");
        }
    }
    let mut b = [0; EL];
    for p in [i, i + 1, j, j + 1] {
        if let Some(e) = at(p) {
            same1(&rt::get(s.read_at(p), "a written position is readable"), &e, w);
            rt::get(s.read_into(p, &mut b), "a written position is readable");
            rt::check_eq(&b, &e.0, w);
        }
    }
    for (p, l) in [(i, 2), (j, 1 + wide as usize)] {
        let v = rt::get(s.read_range(p..p + l), "a written range is readable");
        same(&v, &(p..p + l).map(|q| at(q).unwrap()).collect::<Vec<_>>(), w);
    }
    // what was never written there is not what was written elsewhere
    for p in edges.iter().filter(|p| at(**p).is_none() && **p < n) {
        same1(&rt::get(s.read_at(*p), "a position below the length is readable"), &El::default(), "a write changes only its positions");
    }
    rt::check(rt::no_panic(OP, || s.write_at(es[0], cap)).is_err() && rt::no_panic(OP, || s.copy_from_slice(&to_bytes(&es[..2]), cap - 1)).is_err(), "a write beyond the capacity is refused");
    rt::check(rt::no_panic("reading never panics", || s.read_at(cap)).is_err(), "reading beyond the length is an error");
    rt::reach("far");
}
fn go_far() {
    match rt::param("store", 1) {
        1 => far::<DiskStore<El>>(rt::param("how", 1)),
        _ => far::<MmapStore<El>>(rt::param("how", 1)),
    }
}
entries! { h_far => go_far, h_ops => go_ops, h_shrink => go_shrink, h_wide => go_wide, h_again => go_again, h_holes => go_holes }
