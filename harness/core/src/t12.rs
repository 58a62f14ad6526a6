//! Where files are found, table schemas, and reading slice by slice through file group readers.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use crate::t3::*;
use crate::t4::*;
use arrow_array::*;
use arrow_schema::*;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::Table;
use std::sync::Arc;
use symrt as s;

const C0: &str = "20240101000000500";
const C1: &str = "20240101000000600";

/// Two printable characters that may name a directory (and stand in JSON as they are), or one of another script.
fn dirname(name: &str) -> String {
    if s::choose(2, "script") == 1 {
        return String::from_utf8(vec![s::u8_in(0xc3, 0xdf, name), s::u8_in(0x80, 0xbf, name)]).unwrap();
    }
    let b: [u8; 2] = s::bytes_in(32, 126, name);
    s::assume(b.iter().all(|c| !matches!(c, b'/' | b'"' | b'\\')) && b != *b"..");
    String::from_utf8(b.to_vec()).unwrap()
}
fn hex(b: u8) -> u8 {
    if b < 10 { b'0' + b } else { b'A' + b - 10 }
}
/// The URL form of a path.
fn urlenc(p: &str) -> String {
    let mut o = vec![];
    for b in p.bytes() {
        if b.is_ascii_alphanumeric() || matches!(b, b'/' | b'-' | b'_' | b'.' | b'~') {
            o.push(b)
        } else {
            o.extend([b'%', hex(b >> 4), hex(b & 15)])
        }
    }
    String::from_utf8(o).unwrap()
}
fn put_at(st: &mut MemStore, root: &str, path: &str, data: Vec<u8>) {
    st.files.push((join(root, path), data.into()));
}
/// Lays out two commits over the partitions under `root`, the second updating the first partition; all reads find all.
fn locate(uri: &str, root: &str, parts: &[String]) {
    let mut st = MemStore::new();
    let pfield = if parts[0].is_empty() { "" } else { "p" };
    let mut conf = vec![("hoodie.table.type", "COPY_ON_WRITE"), ("hoodie.datasource.write.hive_style_partitioning", "false")];
    if !pfield.is_empty() {
        conf.push(("hoodie.table.partition.fields", pfield));
    }
    put_at(&mut st, root, ".hoodie/hoodie.properties", props(&conf).into());
    let ws: Vec<Write> = parts.iter().enumerate().map(|(i, p)| Write { part: p.clone(), fg: i }).collect();
    let h = [cm(C0.into(), Kind::Commit, ws.clone(), vec![]), cm(C1.into(), Kind::Commit, vec![ws[0].clone()], vec![])];
    for (i, c) in h.iter().enumerate() {
        for w in &c.writes {
            if !pfield.is_empty() {
                put_at(&mut st, root, &join(&w.part, ".hoodie_partition_metadata"), vec![b'x']);
            }
            put_at(&mut st, root, &join(&w.part, &base_name(w.fg, &c.ts)), base_file(c, i, w, &[]));
        }
        put_at(&mut st, root, &format!(".hoodie/{}.commit.requested", c.ts), vec![]);
        put_at(&mut st, root, &format!(".hoodie/{}.inflight", c.ts), vec![]);
        put_at(&mut st, root, &format!(".hoodie/{}.commit", c.ts), metadata(c).into());
    }
    // a directory next to the table, and other files of the table's metadata
    put_at(&mut st, &format!("{root}x"), &base_name(7, C0), vec![]);
    put_at(&mut st, root, ".hoodie/.aux/.bootstrap/x", vec![]);
    let sizes: Vec<(String, usize)> = st.files.iter().map(|f| (f.0.rsplit('/').next().unwrap().to_string(), f.1.len())).collect();
    st.install();
    let t = block_on(Table::new(uri));
    s::check(t.is_ok(), "the table opens");
    let t = t.unwrap();
    let vis = visible(&h, C1);
    let sl = block_on(t.get_file_slices(&[]));
    s::check(sl.is_ok(), "listing succeeds");
    let sl = sl.unwrap();
    check_slices(&sl, &vis, &h, "snapshot");
    for f in &sl {
        let m = f.base_file.file_metadata.as_ref();
        s::check(m.map_or(false, |m| sizes.contains(&(m.name.clone(), m.size)) && m.num_records == 1), "sizes of the files");
    }
    let mut e: Vec<i32> = vis.iter().map(|(_, f, c)| (10 * c + f) as i32).collect();
    e.sort_unstable();
    let got = block_on(t.read_snapshot(&[]));
    s::check(got.is_ok(), "the snapshot reads");
    s::check(values(&got.unwrap()) == e, "snapshot rows");
    let got = block_on(t.read_incremental_records("20240101000000000", None));
    s::check(got.is_ok(), "the increment reads");
    s::check(values(&got.unwrap()) == e, "incremental rows");
    s::check(block_on(t.get_schema()).map_or(false, |x| x.fields().len() == 7), "table schema");
    s::cover("read");
}
/// Partition directories of symbolic names at depth 1 to 3, of equal or different depth.
#[no_mangle]
pub extern "C" fn hv_loc_parts() {
    let n = dirname("dir");
    let (a, b) = match s::choose(5, "shape") {
        0 => (n.clone(), "zz9".to_string()),
        1 => (format!("y/{n}"), "y/zz9".to_string()),
        2 => (format!("{n}/y"), "zz9/y".to_string()),
        3 => (format!("2024/{n}/01"), "2024/zz9/01".to_string()),
        // of different depth
        _ => (format!("2024/{n}"), "zz9".to_string()),
    };
    locate(BASE, "t", &[a, b]);
}
/// Base paths of symbolic names, given as a path or as a URL, with and without a slash at the end.
#[no_mangle]
pub extern "C" fn hv_loc_base() {
    let n = dirname("base");
    let root = match s::choose(3, "depth") {
        0 => n.clone(),
        1 => format!("w/{n}"),
        _ => format!("{n}/t"),
    };
    let mut uri = match s::choose(3, "form") {
        0 => format!("/{root}"),
        1 => format!("file:///{}", urlenc(&root)),
        _ => format!("memory:///{}", urlenc(&root)),
    };
    if s::choose(2, "slash") == 1 {
        uri.push('/');
    }
    let parts = if s::choose(2, "partitioned") == 1 { vec!["a b".to_string(), "c%d".to_string()] } else { vec![String::new()] };
    locate(&uri, &root, &parts);
}

// ---- schemas ----
fn extra_batch(col: &str) -> RecordBatch {
    let b = batch(&[rec(C0, 0, "a", 1, 1)], &[("p", "x"), ("i", "3")]);
    let mut f: Vec<FieldRef> = b.schema().fields().iter().cloned().collect();
    f.insert(5, Arc::new(Field::new(col, DataType::Int64, true)));
    let mut c: Vec<ArrayRef> = b.columns().to_vec();
    c.insert(5, Arc::new(Int64Array::from(vec![1])));
    RecordBatch::try_new(Arc::new(Schema::new(f)), c).unwrap()
}
/// Three actions in any order of time, each writing with a schema of its own, or writing nothing, or log files only.
#[no_mangle]
pub extern "C" fn hv_schema() {
    let mut st = MemStore::new();
    let fields = [None, Some("p"), Some("p,i"), Some("i,p")][s::choose(4, "fields")];
    let mut conf = MOR.to_vec();
    if let Some(f) = fields {
        conf.push(("hoodie.table.partition.fields", f));
    }
    st.put(".hoodie/hoodie.properties", props(&conf));
    let parts = ["", "x", "x/3", "3/x"][match fields { None => 0, Some("p") => 1, Some("p,i") => 2, _ => 3 }];
    let mut acts: Vec<(String, usize)> = vec![(C0.to_string(), 0)];
    let mut exp = (C0.to_string(), "c0".to_string()); // the latest writer, and its column
    let mut avro = (C0.to_string(), 0);
    st.put(&join(parts, &base_name(0, C0)), parquet(&extra_batch("c0")));
    put_commit(&mut st, C0, 3, format!(r#"{{"partitionToWriteStats":{{"{parts}":[{{"fileId":"{}","path":"{}"}}]}},"extraMetadata":{{"schema":"s0"}}}}"#, fid(0), join(parts, &base_name(0, C0))));
    for i in 1..3 {
        let ts = sym_ts(1, "ts");
        s::assume(acts.iter().all(|a| a.0 != ts) && ts.as_str() > C0);
        let kind = s::choose(4, "kind");
        let sch = s::choose(3, "avro schema");
        let ex = [format!(r#","extraMetadata":{{"schema":"s{i}"}}"#), r#","extraMetadata":{"schema":""}"#.to_string(), r#","extraMetadata":{}"#.to_string()][sch].clone();
        let file = join(parts, &base_name(i, &ts));
        let stat = format!(r#"{{"fileId":"{}","path":"{file}"}}"#, fid(i));
        match kind {
            0 | 1 => {
                st.put(&file, parquet(&extra_batch(&format!("c{i}"))));
                // a partition that nothing was written to
                let none = if i == 1 && fields.is_some() && s::choose(2, "none") == 1 { r#""0":[],"# } else { "" };
                let meta = format!(r#"{{"partitionToWriteStats":{{{none}"{parts}":[{stat}]}},"partitionToReplaceFileIds":{{}}{ex}}}"#);
                if kind == 0 {
                    put_commit(&mut st, &ts, 3, meta);
                } else {
                    put_action(&mut st, &ts, "replacecommit", "replacecommit.inflight", "replacecommit", 3, meta);
                }
                if ts > exp.0 {
                    exp = (ts.clone(), format!("c{i}"));
                }
            }
            // removes file groups only
            2 => {
                let e = ["{}".to_string(), format!(r#"{{"{parts}":[]}}"#)][s::choose(2, "empty")].clone();
                put_action(&mut st, &ts, "replacecommit", "replacecommit.inflight", "replacecommit", 3, format!(r#"{{"partitionToWriteStats":{e},"partitionToReplaceFileIds":{{"{parts}":["fg9-0"]}}{ex}}}"#));
            }
            // appends to the first file slice
            _ => {
                let l = log_name(0, C0, i as u32);
                put_delta(&mut st, &ts, 3, format!(r#"{{"partitionToWriteStats":{{"{parts}":[{{"fileId":"{}","path":"{}","baseFile":"{}","logFiles":["{l}"]}}]}}{ex}}}"#, fid(0), join(parts, &l), base_name(0, C0)));
                if ts > exp.0 {
                    exp = (ts.clone(), "c0".into());
                }
            }
        }
        if sch == 0 && ts > avro.0 {
            avro = (ts.clone(), i);
        }
        acts.push((ts, kind));
    }
    st.install();
    let t = open();
    let sch = block_on(t.get_schema());
    s::check(sch.is_ok(), "the schema resolves");
    let sch = sch.unwrap();
    let want = extra_batch(&exp.1).schema();
    s::check(sch.fields().len() == want.fields().len() && sch.fields().iter().zip(want.fields()).all(|(a, b)| a.name() == b.name() && a.data_type() == b.data_type() && a.is_nullable() == b.is_nullable()), "the schema of the latest write");
    let ps = block_on(t.get_partition_schema()).unwrap();
    let names: Vec<&str> = ps.fields().iter().map(|f| f.name().as_str()).collect();
    s::check(names == fields.map_or(vec![], |f| f.split(',').collect::<Vec<_>>()), "partition fields in their order");
    let a = block_on(t.get_avro_schema());
    s::check(a.is_ok(), "the avro schema resolves");
    s::check(a.unwrap() == format!("s{}", avro.1), "the avro schema of the latest commit that has one");
    s::observe(exp.1.as_bytes(), "column");
    s::cover(if exp.1 == "c0" { "first" } else { "later" });
}

// ---- reading slice by slice ----
fn by_slices(t: &Table, sl: &[FileSlice], opts: &[(&str, &str)]) -> Vec<(String, i32)> {
    let r = t.create_file_group_reader_with_options(opts.iter().map(|x| (x.0, x.1)));
    s::check(r.is_ok(), "a reader of the table");
    let r = r.unwrap();
    let mut v = vec![];
    for f in sl {
        let b = block_on(r.read_file_slice(f));
        s::check(b.is_ok(), "the slice reads");
        v.push(b.unwrap());
    }
    rows(&v)
}
fn standalone(sl: &[FileSlice], opts: &[(&str, &str)]) -> Vec<(String, i32)> {
    let r = FileGroupReader::new_with_options(BASE, opts.iter().map(|x| (x.0, x.1)));
    s::check(r.is_ok(), "a reader of its own");
    let r = r.unwrap();
    let mut v = vec![];
    for f in sl {
        let b = block_on(r.read_file_slice(f));
        s::check(b.is_ok(), "the slice reads alone");
        v.push(b.unwrap());
    }
    rows(&v)
}
/// Two file groups, the first with up to two delta commits, the second rewritten or replaced.
#[no_mangle]
pub extern "C" fn hv_readers() {
    let mor = s::choose(2, "mor") == 1;
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(if mor { MOR } else { COW }));
    st.put(&base_name(0, C0), parquet(&batch(&[rec(C0, 0, "a", 1, 5), rec(C0, 1, "b", 2, 5)], &[])));
    st.put(&base_name(1, C0), parquet(&batch(&[rec(C0, 2, "x", 3, 5)], &[])));
    let stat = |fg: usize, ts: &str| format!(r#"{{"fileId":"{}","path":"{}"}}"#, fid(fg), base_name(fg, ts));
    put_commit(&mut st, C0, 3, format!(r#"{{"partitionToWriteStats":{{"":[{},{}]}}}}"#, stat(0, C0), stat(1, C0)));
    let d = sym_ts(1, "d");
    let e = sym_ts(1, "e");
    s::assume(d.as_str() > C0 && e.as_str() > C0 && d != e);
    let n = s::u8_in(4, 6, "precombine") as i64;
    if mor {
        st.put(&log_name(0, C0, 1), data_block(&d, &[rec(&d, 0, "a", 10, n), rec(&d, 1, "c", 11, 5)]));
        put_delta(&mut st, &d, 3, delta_metadata(0, C0, &[1]));
    } else {
        st.put(&base_name(0, &d), parquet(&batch(&[rec(&d, 0, "a", 10, n), rec(C0, 1, "b", 2, 5)], &[])));
        put_commit(&mut st, &d, 3, format!(r#"{{"partitionToWriteStats":{{"":[{}]}}}}"#, stat(0, &d)));
    }
    if s::choose(2, "replace") == 1 {
        st.put(&base_name(2, &e), parquet(&batch(&[rec(&e, 0, "y", 20, 5)], &[])));
        put_action(&mut st, &e, "replacecommit", "replacecommit.inflight", "replacecommit", 3, format!(r#"{{"partitionToWriteStats":{{"":[{}]}},"partitionToReplaceFileIds":{{"":["{}"]}}}}"#, stat(2, &e), fid(1)));
    } else {
        st.put(&base_name(1, &e), parquet(&batch(&[rec(C0, 2, "x", 3, 5), rec(&e, 0, "z", 20, 5)], &[])));
        put_commit(&mut st, &e, 3, format!(r#"{{"partitionToWriteStats":{{"":[{}]}}}}"#, stat(1, &e)));
    }
    if s::choose(2, "order") == 1 {
        st.files.reverse();
    }
    st.install();
    let t = open();
    // the snapshot
    let all = rows(&block_on(t.read_snapshot(&[])).unwrap());
    let k = s::choose(4, "splits");
    let splits = block_on(t.get_file_slices_splits(k, &[])).unwrap();
    let flat: Vec<FileSlice> = splits.into_iter().flatten().collect();
    s::check(by_slices(&t, &flat, &[]) == all, "the splits of a snapshot together are the snapshot");
    let mut base: Vec<(&str, &str)> = if mor { MOR.to_vec() } else { COW.to_vec() };
    s::check(standalone(&flat, &base) == all, "readers of their own read the same");
    // as of a time
    let at = sym_ts(1, "at");
    let want = rows(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap());
    let splits = block_on(t.get_file_slices_splits_as_of(k, &at, &[])).unwrap();
    let flat: Vec<FileSlice> = splits.into_iter().flatten().collect();
    const END: &str = "hoodie.read.file_group.end_timestamp";
    const START: &str = "hoodie.read.file_group.start_timestamp";
    s::check(by_slices(&t, &flat, &[(END, &at)]) == want, "the splits as of a time together are the read as of it");
    base.push((END, &at));
    s::check(standalone(&flat, &base) == want, "readers of their own read the same as of a time");
    // a window
    let inc = rows(&block_on(t.read_incremental_records(C0, Some(&at))).unwrap());
    let flat = block_on(t.get_file_slices_between(Some(C0), Some(&at))).unwrap();
    s::check(by_slices(&t, &flat, &[(START, C0), (END, &at)]) == inc, "the slices of a window together are the incremental read");
    base.push((START, C0));
    s::check(standalone(&flat, &base) == inc, "readers of their own read the same window");
    s::observe(format!("{all:?}{want:?}{inc:?}").as_bytes(), "rows");
    s::cover(if inc.is_empty() { "empty window" } else { "window" });
}
/// Base files read by path.
#[no_mangle]
pub extern "C" fn hv_reader_base() {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    let c1 = sym_ts(2, "c1");
    let c2 = sym_ts(2, "c2");
    st.put(&base_name(0, C1), parquet(&batch(&[rec(&c1, 0, "a", 1, 5), rec(&c2, 1, "b", 2, 5), rec(C0, 2, "c", 3, 5)], &[])));
    st.install();
    let a = sym_ts(2, "start");
    let b = sym_ts(2, "end");
    let k = s::choose(4, "bounds");
    let mut o = vec![];
    if k & 1 == 1 {
        o.push(("hoodie.read.file_group.start_timestamp", a.clone()));
    }
    if k & 2 == 2 {
        o.push(("hoodie.read.file_group.end_timestamp", b.clone()));
    }
    let r = FileGroupReader::new_with_options(BASE, o).unwrap();
    let got = rows(&[block_on(r.read_file_slice_by_base_file_path(&base_name(0, C1))).unwrap()]);
    // without a start, the slice was already selected by time
    let keep = |t: &str| k & 1 == 0 || (t > a.as_str() && (k & 2 == 0 || t <= b.as_str()));
    let all = [(c1.as_str(), ("a".to_string(), 1)), (c2.as_str(), ("b".to_string(), 2)), (C0, ("c".to_string(), 3))];
    let want: Vec<(String, i32)> = all.into_iter().filter(|x| keep(x.0)).map(|x| x.1).collect();
    s::check(got == want, "rows of the window");
    s::check(block_on(r.read_file_slice_by_base_file_path("absent.parquet")).is_err(), "an absent file is an error");
    s::observe_u64(got.len() as u64, "rows");
    s::cover(if got.len() < 3 { "some" } else { "all" });
}

// ---- times given in seconds ----
fn ms(t: &str) -> String {
    if t.len() == 14 { format!("{t}000") } else { t.to_string() }
}
/// 14 or 17 digits around second 01 to 03.
fn time(name: &str) -> String {
    let s_ = s::u8_in(b'1', b'3', name) as char;
    let m = s::u8_in(b'0', b'2', name) as char;
    if s::choose(2, "form") == 0 { format!("2024010100000{s_}") } else { format!("2024010100000{s_}00{m}") }
}
/// Reads whose times are given in seconds or milliseconds, of instants that are.
fn arg14(mor: bool) {
    const C: &str = "20240101000000900";
    let (a, b) = (time("a"), time("b"));
    s::assume(ms(&a) < ms(&b));
    let at = time("at");
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(if mor { MOR } else { COW }));
    let stat = |fg: usize, ts: &str| format!(r#"{{"fileId":"{}","path":"{}"}}"#, fid(fg), base_name(fg, ts));
    let meta = |fg: usize, ts: &str| format!(r#"{{"partitionToWriteStats":{{"":[{}]}},"partitionToReplaceFileIds":{{"":["{}"]}}}}"#, stat(fg, ts), fid(0));
    st.put(&base_name(0, C), parquet(&batch(&[rec(C, 0, "k", 1, 5)], &[])));
    put_commit(&mut st, C, 3, meta(0, C));
    // updates the key
    if mor {
        st.put(&log_name(0, C, 1), data_block(&a, &[rec(&a, 0, "k", 2, 6)]));
        put_delta(&mut st, &a, 3, delta_metadata(0, C, &[1]));
    } else {
        st.put(&base_name(0, &a), parquet(&batch(&[rec(&a, 0, "k", 2, 6)], &[])));
        put_commit(&mut st, &a, 3, meta(0, &a));
    }
    // replaces the file group
    st.put(&base_name(1, &b), parquet(&batch(&[rec(&b, 0, "k", 3, 7)], &[])));
    put_action(&mut st, &b, "replacecommit", "replacecommit.inflight", "replacecommit", 3, meta(1, &b));
    st.install();
    let t = open();
    let k = |v: i32| vec![("k".to_string(), v)];
    let want = if ms(&b) <= ms(&at) { k(3) } else if ms(&a) <= ms(&at) { k(2) } else { k(1) };
    let got = rows(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap());
    s::check(got == want, "rows as of a time in seconds or milliseconds");
    let sl = block_on(t.get_file_slices_splits_as_of(1, &at, &[])).unwrap();
    s::check(sl.len() == 1 && sl[0].len() == 1, "one file slice as of it");
    let f = &sl[0][0];
    s::check(f.file_id() == fid(if ms(&b) <= ms(&at) { 1 } else { 0 }), "its file group");
    s::check(by_slices(&t, &sl[0], &[("hoodie.read.file_group.end_timestamp", &at)]) == want, "a reader as of the same time");
    // windows
    let lo = time("lo");
    let inw = |x: &str| ms(x) > ms(&lo) && ms(x) <= ms(&at);
    let inc = rows(&block_on(t.read_incremental_records(&lo, Some(&at))).unwrap());
    let want = if inw(&b) { k(3) } else if inw(&a) { k(2) } else { vec![] };
    s::check(inc == want, "rows of a window in seconds or milliseconds");
    let fsl = block_on(t.get_file_slices_between(Some(&lo), Some(&at))).unwrap();
    s::check(fsl.len() == want.len(), "file slices of the window");
    s::check(by_slices(&t, &fsl, &[("hoodie.read.file_group.start_timestamp", &lo), ("hoodie.read.file_group.end_timestamp", &at)]) == want, "a reader of the same window");
    let rest = rows(&block_on(t.read_incremental_records(&lo, None)).unwrap());
    s::check(rest == if ms(&b) > ms(&lo) { k(3) } else { vec![] }, "rows after a time in seconds or milliseconds");
    s::observe(format!("{got:?}{inc:?}").as_bytes(), "rows");
    s::cover(if inc.is_empty() { "empty" } else { "rows" });
}
#[no_mangle]
pub extern "C" fn hv_arg14() {
    arg14(false)
}
#[no_mangle]
pub extern "C" fn hv_arg14_mor() {
    arg14(true)
}
/// Times that are no instants are errors, wherever they lie relative to the commits.
#[no_mangle]
pub extern "C" fn hv_arg_bad() {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    st.put(&base_name(0, C0), parquet(&batch(&[rec(C0, 0, "k", 1, 5)], &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    st.install();
    let t = open();
    let mut x = [C0, "20240101000000", "2024", "2024-01-01T00:00:00", "", "99999999999999999"][s::choose(6, "text")].as_bytes().to_vec();
    if s::choose(2, "mutated") == 1 && !x.is_empty() {
        let i = s::choose(x.len() as u8, "at");
        x[i] = s::u8_in(1, 126, "byte");
    }
    let x = String::from_utf8(x).unwrap();
    // a date and time written out
    let d: Vec<u32> = x.bytes().map(|b| if b.is_ascii_digit() { (b - b'0') as u32 } else { 99 }).collect();
    let n = |i: usize| d[i] * 10 + d[i + 1];
    let ok = (x.len() == 14 || x.len() == 17) && d.iter().all(|v| *v < 10) && {
        let y = n(0) * 100 + n(2);
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let m = n(4);
        m >= 1 && m <= 12 && n(6) >= 1 && n(6) <= [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1] && n(8) < 24 && n(10) < 60 && n(12) < 60
    };
    s::assume(x.len() < 14 || n(12) != 60);
    let got = block_on(t.read_snapshot_as_of(&x, &[]));
    s::check(got.is_ok() == ok, "as-of times are validated");
    s::check(block_on(t.get_file_slices_as_of(&x, &[])).is_ok() == ok, "as-of times of file slices are validated");
    s::check(block_on(t.get_file_slices_splits_as_of(2, &x, &[])).is_ok() == ok, "as-of times of splits are validated");
    s::check(block_on(t.read_incremental_records(&x, None)).is_ok() == ok, "window starts are validated");
    s::check(block_on(t.read_incremental_records("20230101000000000", Some(&x))).is_ok() == ok, "window ends are validated");
    s::check(block_on(t.get_file_slices_between(Some(&x), None)).is_ok() == ok, "window starts of file slices are validated");
    s::check(block_on(t.get_file_slices_between(None, Some(&x))).is_ok() == ok, "window ends of file slices are validated");
    s::cover(if ok { "valid" } else { "invalid" });
}
