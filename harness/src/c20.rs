//! C20: concurrent readers of one tree.
use crate::common::*;
use crate::rt;
use merkletree::proof::Proof;

const SAME: &str = "a concurrent reader gets what it would get alone";
/// What is shared: a tree and the reference it was made from.
struct Shared<'a, S: Store<El>, U: Unsigned + Send + Sync> {
    t: &'a T<S, U>,
    rows: &'a [Vec<El>],
    flat: &'a [El],
    /// first row kept above the base row; rows below it are not read
    from: usize,
    rows_arg: Option<usize>,
    into: bool,
}
/// Results are kept and compared after all threads are done: comparing is not part of the operation.
enum Got<U: Unsigned + Send + Sync> {
    Nodes(usize, Vec<u8>),
    Proof(usize, Proof<El, U>),
    Nothing,
}
fn op<S: Store<El>, U: Unsigned + Send + Sync>(s: &Shared<S, U>, what: u64, at: usize) -> Got<U> {
    let n = s.rows[0].len();
    let store = s.t.data().expect("a base tree has a store");
    match what {
        0 => Got::Nodes(at, rt::get(s.t.read_at(at), SAME).0.to_vec()),
        1 => {
            let mut b = vec![0; EL];
            rt::get(s.t.read_into(at, &mut b), SAME);
            Got::Nodes(at, b)
        }
        2 => {
            let end = if at < n { n } else { s.flat.len() };
            Got::Nodes(at, to_bytes(&rt::get(s.t.read_range(at, end), SAME)))
        }
        3 if s.into => {
            let end = if at < n { n } else { s.flat.len() };
            let mut b = vec![0; (end - at) * EL];
            rt::get(store.read_range_into(at, end, &mut b), SAME);
            Got::Nodes(at, b)
        }
        4 => Got::Proof(at % n, if s.rows_arg.is_none() { rt::get(s.t.gen_proof(at % n), SAME) } else { rt::get(s.t.gen_cached_proof(at % n, s.rows_arg), SAME) }),
        5 if s.into => Got::Proof(at % n, rt::get(s.t.gen_cached_proof(at % n, s.rows_arg), SAME)),
        6 => Got::Nodes(s.flat.len() - 1, rt::get(store.last(), SAME).0.to_vec()),
        _ => Got::Nothing,
    }
}
fn compare<S: Store<El>, U: Unsigned + Send + Sync>(s: &Shared<S, U>, g: &Got<U>) {
    match g {
        Got::Nodes(at, b) => {
            let k = b.len() / EL;
            rt::check_eq(b, &to_bytes(&s.flat[*at..*at + k]), SAME);
        }
        Got::Proof(i, p) => {
            let (lemma, path) = r_lemma(s.rows, U::to_usize(), *i);
            check_proof_is(p, &lemma, &path, SAME);
            check_valid(p);
        }
        Got::Nothing => {}
    }
}
fn run<S: Store<El>, U: Unsigned + Send + Sync>(s: &Shared<S, U>)
where
    T<S, U>: Sync,
{
    let threads = rt::param("threads", 2) as usize;
    let each = rt::param("each", 1) as usize;
    let n = s.rows[0].len();
    let places = [0, n - 1, n / 2, s.from, s.flat.len() - 1];
    let mut jobs = vec![];
    let mut got: Vec<Vec<Got<U>>> = vec![];
    let kinds = rt::param("ops", 7) - 1;
    let most = rt::param("places", 5) - 1;
    for t in 0..threads {
        let mut v = vec![];
        for _ in 0..each {
            // the first thread's operation is a parameter, so that instances run in parallel
            let what = if t == 0 { if v.is_empty() { rt::param("first", 0) } else { (rt::param("first", 0) + 1) % (kinds + 1) } } else { rt::pick("op", 0, kinds) };
            v.push((what, places[rt::pick("place", 0, most) as usize]));
        }
        jobs.push(v);
        got.push(vec![]);
    }
    {
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (j, g) in jobs.iter().zip(got.iter_mut()) {
            bodies.push(Box::new(move || {
                for (what, at) in j {
                    g.push(op(s, *what, *at));
                }
            }));
        }
        rt::together(rt::param("preemptions", 2), rt::param("points", rt::AT_IO), bodies);
    }
    for (j, g) in jobs.iter().zip(got.iter()) {
        rt::check(j.len() == g.len(), "every reader finishes");
        for x in g {
            compare(s, x);
        }
    }
}
fn shared<S: Store<El>, U: Unsigned + Send + Sync>(k: usize, into: bool)
where
    T<S, U>: Sync,
{
    let its = items("leaf", pow(U::to_usize(), k));
    let t = mk::<S, U>(&its, "c20");
    let rows = r_rows(&its, U::to_usize());
    run(&Shared { t: &t, rows: &rows, flat: &flat(&rows), from: its.len(), rows_arg: None, into });
    rt::reach("shared");
}
fn shared_lc<U: Unsigned + Send + Sync>(k: usize, version: u32) {
    let n = pow(U::to_usize(), k);
    let its = items("leaf", n);
    let d = rt::param("discard", 0) as usize;
    let t = compacted::<U>(&its, "c20c", d, version);
    let rows = r_rows(&its, U::to_usize());
    let gone: usize = rows.iter().skip(1).take(d).map(|r| r.len()).sum();
    run(&Shared { t: &t, rows: &rows, flat: &flat(&rows), from: n + gone, rows_arg: Some(d), into: true });
    rt::reach("shared_lc");
}
/// Readers of a compound tree whose components share one external file.
fn compound<U: Unsigned + Send + Sync>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let leaves = items("leaf", 2 * n);
    let mut cs = vec![];
    let mut rows = vec![];
    for j in 0..2 {
        let c = cfg(&name_of(j), 0);
        let l = &leaves[j * n..j * n + n];
        let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(l), c.clone()), "building a tree over arity^k leaves succeeds");
        rt::get(t.compact(c.clone(), 2), "a full tree can be compacted");
        rows.push(r_rows(l, a));
        cs.push(c);
    }
    let p = write_file("replica", &to_bytes(&leaves));
    let t = rt::get(Ts::<Lc, U, U2>::from_store_configs_and_replica(n, &cs, &ReplicaConfig::new(&p, vec![0, n * EL])), "compacted stores open as a compound tree");
    let threads = rt::param("threads", 2) as usize;
    let at: Vec<usize> = (0..threads).map(|_| [0, n - 1, n, 2 * n - 1][rt::pick("index", 0, 3) as usize]).collect();
    let mut got: Vec<Option<(Proof<El, U>, El)>> = (0..threads).map(|_| None).collect();
    {
        let t = &t;
        let bodies = at.iter().zip(got.iter_mut()).map(|(i, g)| Box::new(move || *g = Some((rt::get(t.gen_cached_proof(*i, Some(0)), SAME), rt::get(t.read_at(*i), SAME)))) as Box<dyn FnOnce() + Send + '_>).collect();
        rt::together(rt::param("preemptions", 2), rt::param("points", rt::AT_IO), bodies);
    }
    for (i, g) in at.iter().zip(got.iter()) {
        match g {
            None => rt::check(false, "every reader finishes"),
            Some((p, e)) => {
                check_sub_proof(p, &rows, *i);
                check_valid(p);
                same1(e, &leaves[*i], SAME);
            }
        }
    }
    rt::reach("compound20");
}
fn go_shared() {
    let (s, k) = (rt::param("store", 1), rt::param("k", 1) as usize);
    match (s, rt::param("arity", 2)) {
        (0, 2) => shared::<VecStore<El>, U2>(k, false),
        (1, 2) => shared::<DiskStore<El>, U2>(k, true),
        (1, 4) => shared::<DiskStore<El>, U4>(k, true),
        (1, 8) => shared::<DiskStore<El>, U8>(k, true),
        (2, 2) => shared::<MmapStore<El>, U2>(k, false),
        _ => panic!("harness: bad shape"),
    }
}
fn go_shared_lc() {
    by_arity1!(rt::param("arity", 2), shared_lc, [], (rt::param("k", 1) as usize, rt::param("version", 1) as u32))
}
fn go_compound() {
    by_arity1!(rt::param("arity", 2), compound, [], (rt::param("k", 1) as usize))
}
entries! { h_shared => go_shared, h_shared_lc => go_shared_lc, h_compound20 => go_compound }
