//! Histories: crash points, uncommitted writes, replacements, repeatability of time travel, incremental windows.
use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use symrt as s;

pub fn w(fg: usize) -> Write {
    Write { part: String::new(), fg }
}
fn commit(ts: String, kind: Kind, writes: Vec<Write>, replaces: Vec<Write>) -> Commit {
    Commit { ts, st: St::Completed, kind, writes, replaces }
}
/// The files a history leaves behind; `upto` limits the files of commit `cut` to its first steps
/// (requested, inflight, data files..., completed).
pub fn lay(h: &[Commit], cut: Option<(usize, usize)>, order: usize, props_: &[(&str, &str)], parts: &dyn Fn(&str) -> Vec<(&'static str, String)>) -> MemStore {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(props_));
    for (i, c) in h.iter().enumerate() {
        let n = match cut {
            Some((k, n)) if k == i => n,
            _ => usize::MAX,
        };
        let a = action(c.kind);
        let mut step = 0;
        let mut go = || {
            step += 1;
            step <= n
        };
        if go() {
            st.put(&format!(".hoodie/{}.{}.requested", c.ts, a), "");
        }
        if go() {
            match c.kind {
                Kind::Commit => st.put(&format!(".hoodie/{}.inflight", c.ts), ""),
                _ => st.put(&format!(".hoodie/{}.{}.inflight", c.ts, a), ""),
            }
        }
        for w in &c.writes {
            if go() {
                let p = parts(&w.part);
                let p: Vec<(&str, &str)> = p.iter().map(|x| (x.0, x.1.as_str())).collect();
                st.put(&join(&w.part, &base_name(w.fg, &c.ts)), base_file(c, i, w, &p));
            }
        }
        if go() {
            st.put(&format!(".hoodie/{}.{}", c.ts, a), metadata(c));
        }
    }
    if order == 1 {
        st.files.reverse();
    }
    st
}
pub fn nopart(_: &str) -> Vec<(&'static str, String)> {
    vec![]
}
fn slices_of(sl: &[hudi_core::file_group::file_slice::FileSlice]) -> Vec<String> {
    let mut v: Vec<String> = sl.iter().map(|x| join(&x.partition_path, &x.base_file.file_name())).collect();
    v.sort();
    v
}
fn latest(h: &[Commit]) -> Option<String> {
    h.iter().filter(|c| c.st == St::Completed).map(|c| c.ts.clone()).max()
}
fn distinct(h: &[Commit]) {
    for i in 0..h.len() {
        for j in 0..i {
            s::assume(h[i].ts != h[j].ts);
        }
    }
}
/// A writer crashes after any of its steps; another writer may complete a commit before or after it in instant time.
fn crash(kind: Kind, other: bool, digits: usize) {
    let ts0 = "20240101000000100".to_string();
    let u = sym_ts(digits, "u");
    let (writes, replaces) = if kind == Kind::Replace { (vec![w(1), w(2)], vec![w(0)]) } else { (vec![w(0), w(1)], vec![]) };
    let nsteps = 3 + writes.len();
    let k = s::choose(nsteps as u8 + 1, "crash");
    let mut h = vec![commit(ts0, Kind::Commit, vec![w(0)], vec![]), commit(u, kind, writes, replaces)];
    h[1].st = if k == nsteps { St::Completed } else if k >= 2 { St::Inflight } else { St::Requested };
    if other {
        h.push(commit(sym_ts(digits, "c"), Kind::Commit, vec![w(3)], vec![]));
    }
    distinct(&h);
    lay(&h, Some((1, k)), s::choose(2, "order"), COW, &nopart).install();
    let t = open();
    let last = latest(&h).unwrap();
    check_slices(&block_on(t.get_file_slices(&[])).unwrap(), &visible(&h, &last), &h, "snapshot");
    let at = sym_ts(digits, "at");
    let got = block_on(t.get_file_slices_as_of(&at, &[])).unwrap();
    check_slices(&got, &visible(&h, &at), &h, "as-of");
    s::observe(slices_of(&got).join(",").as_bytes(), "as-of");
    let inc = block_on(t.get_file_slices_between(Some("20240101000000000"), Some(&at))).unwrap();
    if h[1].st != St::Completed {
        s::check(inc.iter().all(|x| x.base_file.commit_timestamp != h[1].ts), "incremental: nothing uncommitted");
        s::cover("uncommitted");
    } else {
        s::cover("committed");
    }
}
#[no_mangle]
pub extern "C" fn hv_crash_commit() {
    crash(Kind::Commit, true, 1)
}
#[no_mangle]
pub extern "C" fn hv_crash_replace() {
    crash(Kind::Replace, true, 1)
}
#[no_mangle]
pub extern "C" fn hv_crash_wide() {
    crash(if s::choose(2, "kind") == 0 { Kind::Commit } else { Kind::Replace }, true, 2)
}
/// Reads of rows, not only slices: a crashed writer's rows are never returned, a completed writer's rows all are.
#[no_mangle]
pub extern "C" fn hv_crash_rows() {
    let u = sym_ts(1, "u");
    let mut h = vec![commit("20240101000000100".into(), Kind::Commit, vec![w(0)], vec![]), commit(u, Kind::Commit, vec![w(0), w(1)], vec![]), commit(sym_ts(1, "c"), Kind::Commit, vec![w(2)], vec![])];
    let k = s::choose(6, "crash");
    h[1].st = if k == 5 { St::Completed } else { St::Inflight };
    distinct(&h);
    lay(&h, Some((1, k)), 0, COW, &nopart).install();
    let t = open();
    let last = latest(&h).unwrap();
    let mut e: Vec<i32> = visible(&h, &last).iter().map(|(_, f, c)| (10 * c + f) as i32).collect();
    e.sort_unstable();
    let v = values(&block_on(t.read_snapshot(&[])).unwrap());
    s::check(v == e, "rows of committed writes, no others");
    s::observe(format!("{v:?}").as_bytes(), "rows");
    s::cover(if k == 5 { "committed" } else { "uncommitted" });
}
/// A time-travel read is unchanged by anything that happens at later instants.
fn repeatable(digits: usize) {
    let b = commit("20240101000000100".into(), Kind::Commit, vec![w(0), w(1)], vec![]);
    let c1 = commit(sym_ts(digits, "c1"), Kind::Commit, vec![w(0)], vec![]);
    let at = sym_ts(digits, "at");
    let before = vec![b.clone(), c1.clone()];
    let rows = |h: &[Commit], cut: Option<(usize, usize)>, order: usize| {
        lay(h, cut, order, COW, &nopart).install();
        let t = open();
        (slices_of(&block_on(t.get_file_slices_as_of(&at, &[])).unwrap()), values(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap()))
    };
    let a = rows(&before, None, 0);
    // later events, in any instant order after `at`
    let kind = s::choose(3, "later");
    let l = match kind {
        0 => commit(sym_ts(digits, "l"), Kind::Commit, vec![w(0), w(2)], vec![]),
        1 => commit(sym_ts(digits, "l"), Kind::Replace, vec![w(2)], vec![w(0), w(1)]),
        _ => commit(sym_ts(digits, "l"), Kind::Replace, vec![], vec![w(1)]),
    };
    s::assume(l.ts > at && l.ts != c1.ts);
    let n = 3 + l.writes.len();
    let k = s::choose(n as u8 + 1, "crash");
    let mut h = before.clone();
    h.push(l);
    let c = rows(&h, Some((2, k)), s::choose(2, "order"));
    s::check(a == c, "the same slices and rows");
    s::observe(format!("{:?}", a.1).as_bytes(), "rows");
    s::cover(if k == n { "completed" } else { "pending" });
}
#[no_mangle]
pub extern "C" fn hv_repeat() {
    repeatable(1)
}
#[no_mangle]
pub extern "C" fn hv_repeat2() {
    repeatable(2)
}
