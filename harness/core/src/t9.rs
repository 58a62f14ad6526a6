//! Storage faults, writers running while a table handle reads, and several reads on one handle.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use crate::t3::w;
use hudi_core::table::Table;
use symrt as s;

const C: [&str; 4] = ["20240101000000100", "20240101000000200", "20240101000000300", "20240101000000400"];
fn commit(ts: &str, kind: Kind, writes: Vec<Write>, replaces: Vec<Write>) -> Commit {
    Commit { ts: ts.to_string(), st: St::Completed, kind, writes, replaces }
}
fn wp(part: &str, fg: usize) -> Write {
    Write { part: part.into(), fg }
}
const PART: &[(&str, &str)] = &[
    ("hoodie.table.type", "COPY_ON_WRITE"),
    ("hoodie.table.partition.fields", "p"),
    ("hoodie.datasource.write.hive_style_partitioning", "true"),
    ("hoodie.datasource.write.partitionpath.urlencode", "false"),
];
/// Every file a commit leaves behind, in the order its writer creates them.
fn steps(c: &Commit, ci: usize) -> Vec<(String, Vec<u8>)> {
    let a = action(c.kind);
    let mut v = vec![(format!(".hoodie/{}.{}.requested", c.ts, a), vec![])];
    v.push((if c.kind == Kind::Commit { format!(".hoodie/{}.inflight", c.ts) } else { format!(".hoodie/{}.{}.inflight", c.ts, a) }, vec![]));
    for x in &c.writes {
        let val = x.part.strip_prefix("p=").unwrap_or("");
        let parts = [("p", val)];
        v.push((join(&x.part, &base_name(x.fg, &c.ts)), base_file(c, ci, x, if x.part.is_empty() { &[] } else { &parts })));
    }
    v.push((format!(".hoodie/{}.{}", c.ts, a), metadata(c).into_bytes()));
    v
}
/// Three tables: plain, partitioned with a replacement, merge-on-read. Rows of the snapshot, as of the first commit, and
/// of the increment after it.
fn table(k: usize) -> (MemStore, [Vec<i32>; 3]) {
    let mut st = MemStore::new();
    match k {
        0 => {
            st.put(".hoodie/hoodie.properties", props(COW));
            for (i, c) in [commit(C[0], Kind::Commit, vec![w(0), w(1)], vec![]), commit(C[1], Kind::Commit, vec![w(0)], vec![])].iter().enumerate() {
                steps(c, i).into_iter().for_each(|(p, d)| st.put(&p, d));
            }
            (st, [vec![1, 10], vec![0, 1], vec![10]])
        }
        1 => {
            st.put(".hoodie/hoodie.properties", props(PART));
            let h = [commit(C[0], Kind::Commit, vec![wp("p=a", 0), wp("p=b", 0)], vec![]), commit(C[1], Kind::Replace, vec![wp("p=b", 1)], vec![wp("p=b", 0)])];
            for (i, c) in h.iter().enumerate() {
                steps(c, i).into_iter().for_each(|(p, d)| st.put(&p, d));
            }
            (st, [vec![0, 11], vec![0, 0], vec![11]])
        }
        _ => {
            st.put(".hoodie/hoodie.properties", props(MOR));
            let base = [rec(C[0], 0, "a", 1, 5), rec(C[0], 1, "b", 2, 5)];
            st.put(&base_name(0, C[0]), parquet(&batch(&base, &[])));
            put_commit(&mut st, C[0], 3, base_metadata(0, C[0]));
            st.put(&log_name(0, C[0], 1), data_block(C[1], &[rec(C[1], 0, "a", 11, 6)]));
            put_delta(&mut st, C[1], 3, delta_metadata(0, C[0], &[1]));
            (st, [vec![2, 11], vec![1, 2], vec![11]])
        }
    }
}
async fn read(what: usize) -> Result<Vec<i32>, hudi_core::error::CoreError> {
    let t = Table::new(BASE).await?;
    Ok(values(&match what {
        0 => t.read_snapshot(&[]).await?,
        1 => t.read_snapshot_as_of(C[0], &[]).await?,
        _ => t.read_incremental_records(C[0], None).await?,
    }))
}
/// Any one storage operation of a read fails.
fn fault(n: u8) {
    let k = s::choose(3, "table");
    let what = s::choose(3, "read");
    let (mut st, exp) = table(k);
    let at = s::u8_in(0, n, "operation") as usize;
    st.fail_at = Some((at, s::choose(3, "kind") as u8));
    st.install();
    match block_on(read(what)) {
        Ok(v) => {
            s::check(v == exp[what], "a read that succeeds despite a failed storage operation is complete");
            s::observe_u64(v.len() as u64, "rows");
            s::check(ops() <= at, "a failed storage operation is reported");
            s::cover("not reached");
        }
        Err(_) => {
            s::check(ops() > at, "no error without a failed operation");
            s::cover("error");
        }
    }
}
#[no_mangle]
pub extern "C" fn hv_fault() {
    fault(255)
}
/// A writer works while a table is opened and read: every step of it happens before any storage operation of the reader.
fn live(n: u8, kinds: u8) {
    let kind = s::choose(kinds, "kind");
    let mut st = MemStore::new();
    if kind < 2 {
        st.put(".hoodie/hoodie.properties", props(COW));
        for (p, d) in steps(&commit(C[0], Kind::Commit, vec![w(0), w(1)], vec![]), 0) {
            st.put(&p, d);
        }
    } else {
        st.put(".hoodie/hoodie.properties", props(MOR));
        st.put(&base_name(0, C[0]), parquet(&batch(&[rec(C[0], 0, "a", 0, 5), rec(C[0], 1, "b", 1, 5)], &[])));
        put_commit(&mut st, C[0], 3, base_metadata(0, C[0]));
    }
    let (fs, after) = match kind {
        0 => (steps(&commit(C[1], Kind::Commit, vec![w(0), w(1)], vec![]), 1), vec![10, 11]),
        1 => (steps(&commit(C[1], Kind::Replace, vec![w(2), w(3)], vec![w(0), w(1)]), 1), vec![12, 13]),
        _ => {
            let mut x = MemStore::new();
            put_delta(&mut x, C[1], 2, String::new());
            x.put(&log_name(0, C[0], 1), data_block(C[1], &[rec(C[1], 0, "a", 10, 6)]));
            x.put(&log_name(0, C[0], 2), data_block(C[1], &[rec(C[1], 1, "c", 11, 6)]));
            x.put(&format!(".hoodie/{}.deltacommit", C[1]), delta_metadata(0, C[0], &[1, 2]));
            (x.files.into_iter().map(|(p, b)| (p[2..].to_string(), b.to_vec())).collect(), vec![1, 10, 11])
        }
    };
    // step i is done before storage operation at[i]
    let at: [u8; 5] = s::bytes_in(0, n, "schedule");
    for i in 1..5 {
        s::assume(at[i - 1] <= at[i]);
    }
    for (k, (p, d)) in fs.into_iter().enumerate() {
        st.put_later(at[k] as usize, &p, d);
    }
    let done = at[4] as usize;
    st.install();
    let t = block_on(Table::new(BASE)).unwrap();
    let opened = ops();
    let got = values(&block_on(t.read_snapshot(&[])).unwrap());
    s::check(got == [0, 1] || got == after, "all of the commit or nothing of it");
    s::check(done > 0 || got == after, "a commit completed before the table was opened is visible");
    s::check(done < opened || got == [0, 1], "a commit completed after the table was opened is not visible to the handle");
    s::observe(format!("{got:?}").as_bytes(), "rows");
    let old = values(&block_on(t.read_snapshot_as_of(C[0], &[])).unwrap());
    s::check(old == [0, 1], "as of the earlier commit");
    // a time far in the future: still nothing uncommitted
    let fut = values(&block_on(t.read_snapshot_as_of("20250101000000000", &[])).unwrap());
    s::check(fut == got, "as of a future time");
    s::cover(if got == after { "after" } else { "before" });
}
#[no_mangle]
pub extern "C" fn hv_live() {
    live(60, 3)
}
/// A writer acts between two reads of one handle: the handle keeps reading the timeline it was opened with.
#[no_mangle]
pub extern "C" fn hv_handle() {
    let k = s::choose(3, "table");
    let (mut st, exp) = table(k);
    let d = sym_ts(1, "d");
    let at = sym_ts(1, "at");
    let n = s::choose(6, "step");
    let fs: Vec<(String, Vec<u8>)> = match k {
        0 => steps(&commit(&d, [Kind::Commit, Kind::Replace][s::choose(2, "kind")], vec![w(0)], vec![w(1)]), 5),
        1 => steps(&commit(&d, [Kind::Commit, Kind::Replace][s::choose(2, "kind")], vec![wp("p=a", 0)], vec![wp("p=b", 1)]), 5),
        _ => {
            let mut x = MemStore::new();
            put_delta(&mut x, &d, 3, delta_metadata(0, C[0], &[2]));
            x.put(&log_name(0, C[0], 2), data_block(&d, &[rec(&d, 0, "b", 50, 9), rec(&d, 1, "z", 51, 9)]));
            x.files.swap(2, 3);
            x.files.into_iter().map(|(p, b)| (p[2..].to_string(), b.to_vec())).collect()
        }
    };
    let last = fs.len();
    for (i, (p, x)) in fs.into_iter().enumerate() {
        if i < n {
            st.put_later(LATER, &p, x);
        }
    }
    st.install();
    let t = open();
    let first = s::choose(4, "first") ;
    let r = |what: usize| -> Vec<i32> {
        values(&block_on(async {
            match what {
                0 => t.read_snapshot(&[]).await,
                1 => t.read_snapshot_as_of(C[0], &[]).await,
                2 => t.read_incremental_records(C[0], None).await,
                _ => t.read_snapshot_as_of(&at, &[]).await,
            }
        })
        .unwrap())
    };
    let e = |what: usize| if what == 3 { &exp[0] } else { &exp[what] };
    s::check(r(first) == *e(first), "first read");
    skip_ops();
    for what in 0..4 {
        let got = r(what);
        s::check(got == *e(what), ["snapshot again", "as of the first commit again", "incremental again", "as of a later time again"][what]);
    }
    s::cover(if n >= last { "completed" } else if n > 0 { "pending" } else { "unchanged" });
}
/// Reads with different filters on one handle do not affect each other.
#[no_mangle]
pub extern "C" fn hv_handle_filters() {
    let (st, _) = table(1);
    st.install();
    let t = open();
    let ops = ["=", "!=", "<", ">="];
    for i in 0..3 {
        let k = if i == 2 { 4 } else { s::choose(5, "filter") };
        let when = s::choose(2, "when");
        let lit = (s::u8_in(b'a', b'c', "lit") as char).to_string();
        let keep = |p: &str| match k {
            0 => p == lit,
            1 => p != lit,
            2 => p < lit.as_str(),
            3 => p >= lit.as_str(),
            _ => true,
        };
        let f = if k < 4 { vec![("p", ops[k], lit.as_str())] } else { vec![] };
        let bs = block_on(async { if when == 0 { t.read_snapshot(&f).await } else { t.read_snapshot_as_of(C[0], &f).await } }).unwrap();
        let mut exp = vec![];
        if keep("a") {
            exp.push(0);
        }
        if keep("b") {
            exp.push(if when == 0 { 11 } else { 0 });
        }
        let got = values(&bs);
        s::observe(format!("{got:?}").as_bytes(), "rows");
        s::check(got == exp, "rows of the matching partitions, whatever was read before");
        s::cover(if got.is_empty() { "none" } else { "some" });
    }
}
/// Two reads run concurrently on one handle: whatever operations take long, each result is that of the read alone.
#[no_mangle]
pub extern "C" fn hv_join() {
    join_reads(false)
}
#[no_mangle]
pub extern "C" fn hv_join2() {
    join_reads(true)
}
fn join_reads(two: bool) {
    let k = s::choose(3, "table");
    let (mut st, exp) = table(k);
    let ra = s::choose(4, "first");
    let rb = s::choose(4, "second");
    s::assume(ra <= rb && (k == 1 || rb < 3));
    // operations after the opening of the table
    let i = s::u8_in(0, 49, "slow") as usize;
    let d = [1, 4, 30][s::choose(3, "polls")];
    st.slow = vec![(LATER + i, d)];
    if two {
        let j = s::u8_in(0, 49, "slow") as usize;
        s::assume(i < j);
        st.slow.push((LATER + j, [4, 30, 2][s::choose(3, "polls")]));
    }
    st.install();
    let t = open();
    skip_ops();
    let read = |what: usize| {
        let t = t.clone();
        async move {
            let b = match what {
                0 => t.read_snapshot(&[]).await,
                1 => t.read_snapshot_as_of(C[0], &[]).await,
                2 => t.read_incremental_records(C[0], None).await,
                _ => t.read_snapshot(&[("p", "=", "b")]).await,
            };
            values(&b.unwrap())
        }
    };
    let want = |what: usize| if what == 3 { vec![11] } else { exp[what].clone() };
    let (a, b) = block_on(async { futures::join!(read(ra), read(rb)) });
    s::check(ops() - LATER < 50, "operations within the schedule");
    s::check(a == want(ra), "result of the first read");
    s::check(b == want(rb), "result of the second read");
    s::observe(format!("{a:?}{b:?}").as_bytes(), "rows");
    s::check(block_on(read(0)) == exp[0], "a read afterwards");
    s::cover(["plain", "partitioned", "merge-on-read"][k]);
}
