//! C02: the built tree does not depend on the number of threads or the order in which parallel work runs.
use crate::c01::build;
use crate::common::*;
use crate::rt;

fn order<S: Store<El>, U: Unsigned>(how: u64, n: usize, mode: u64, budget: u64, threads: u64) {
    let its = items("leaf", n);
    rt::sched(mode, budget, threads);
    rt::preempt(rt::param("preemptions", 0), rt::param("points", 3));
    let (t, leaves) = build::<S, U>(how, &its, "c02");
    rt::preempt(0, 0);
    rt::sched(rt::SEQ, 0, 1);
    let rows = r_rows(&leaves, U::to_usize());
    check_layout(&t, &rows, false);
    rt::reach("order");
}
fn order_lc<U: Unsigned>(n: usize, discard: usize, mode: u64, budget: u64, threads: u64) {
    let its = items("leaf", n);
    rt::sched(mode, budget, threads);
    rt::preempt(rt::param("preemptions", 0), rt::param("points", 3));
    let mut t = rt::get(T::<Lc, U>::from_byte_slice_with_config(&to_bytes(&its), cfg("c02lc", discard)), "building a level-cache tree succeeds");
    rt::preempt(0, 0);
    rt::sched(rt::SEQ, 0, 1);
    let rows = r_rows(&its, U::to_usize());
    let f = flat(&rows);
    same1(&t.root(), &f[f.len() - 1], "root() is the root of the reference tree");
    let p = write_file("c02.replica", &to_bytes(&its));
    rt::get(t.set_external_reader_path(&p), "an external reader can be attached");
    let gone: usize = rows.iter().skip(1).take(discard).map(|r| r.len()).sum();
    let mut got = vec![];
    for i in n + gone..f.len() {
        got.push(rt::get(t.read_at(i), "a kept node is readable"));
    }
    same(&got, &f[n + gone..], "read_at(i) is node i of the reference tree");
    rt::reach("order_lc");
}
fn go() {
    let (s, a, k, h) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("how", 0));
    let n = pow(a as usize, k as usize);
    let (m, b, t) = (rt::param("mode", 0), rt::param("budget", 0), rt::param("threads", 4));
    by_arity!(a, by_store3, s, order, (h, n, m, b, t))
}
fn go_lc() {
    let (a, k, d) = (rt::param("arity", 2), rt::param("k", 1), rt::param("discard", 0));
    let n = pow(a as usize, k as usize);
    let (m, b, t) = (rt::param("mode", 0), rt::param("budget", 0), rt::param("threads", 4));
    by_arity1!(a, order_lc, [], (n, d as usize, m, b, t))
}
entries! { h_order => go, h_order_lc => go_lc }
