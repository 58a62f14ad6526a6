use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use symrt as s;

fn increasing(h: &[Commit]) {
    for w in h.windows(2) {
        s::assume(w[0].ts < w[1].ts);
    }
}
fn install(h: &[Commit], order: usize) {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    for (i, c) in h.iter().enumerate() {
        for w in &c.writes {
            st.put(&join(&w.part, &base_name(w.fg, &c.ts)), base_file(c, i, w, &[]));
        }
        put_timeline(&mut st, c, metadata(c));
    }
    if order == 1 {
        st.files.reverse();
    }
    st.install();
}
fn w(fg: usize) -> Write {
    Write { part: String::new(), fg }
}
/// Non-partitioned COW history: every commit writes one or both of two file groups; as-of a symbolic timestamp.
fn snap(n: usize, digits: usize) {
    let mut h = vec![];
    for _ in 0..n {
        let sel = s::choose(3, "fg");
        let writes = match sel { 0 => vec![w(0)], 1 => vec![w(1)], _ => vec![w(0), w(1)] };
        h.push(Commit { ts: sym_ts(digits, "ts"), st: St::Completed, kind: Kind::Commit, writes, replaces: vec![] });
    }
    increasing(&h);
    install(&h, s::choose(2, "order"));
    let t = open();
    let at = sym_ts(digits, "at");
    let sl = block_on(t.get_file_slices_as_of(&at, &[])).unwrap();
    check_slices(&sl, &visible(&h, &at), &h, "as-of");
    let last = h[n - 1].ts.clone();
    let sl = block_on(t.get_file_slices(&[])).unwrap();
    check_slices(&sl, &visible(&h, &last), &h, "snapshot");
    s::cover("end");
}
#[no_mangle]
pub extern "C" fn hv_snap3() {
    snap(3, 2)
}
#[no_mangle]
pub extern "C" fn hv_e2e() {
    let v = s::any_i32("v");
    let h = vec![Commit { ts: "20240101000000000".into(), st: St::Completed, kind: Kind::Commit, writes: vec![w(0)], replaces: vec![] }];
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    let r = Rec { ct: h[0].ts.clone(), seq: "s".into(), key: "k1".into(), part: "".into(), val: v, ts: 1 };
    st.put(&base_name(0, &h[0].ts), parquet(&batch(&[r], &[])));
    put_timeline(&mut st, &h[0], metadata(&h[0]));
    st.install();
    let t = open();
    let b = block_on(t.read_snapshot(&[])).unwrap();
    s::check(b.len() == 1 && b[0].num_rows() == 1, "one row");
    s::check(values(&b) == vec![v], "value");
}
