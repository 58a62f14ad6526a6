//! Slice assembly and configuration.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use hudi_core::file_group::FileGroup;
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use symrt as s;

/// (base instant digit, log versions) of a slice.
fn slices(fg: &FileGroup) -> Vec<(String, Vec<String>)> {
    fg.file_slices.values().map(|x| (x.base_file.file_name(), x.log_files.iter().map(|l| l.file_name()).collect())).collect()
}
/// Log files attach to the slice of their base instant, in whatever order they are added; reads as of a time get the
/// slice of the latest base instant at or before it.
#[no_mangle]
pub extern "C" fn hv_assembly() {
    let b: Vec<String> = (0..2).map(|_| sym_ts(1, "base")).collect();
    s::assume(b[0] != b[1]);
    let mut fg = FileGroup::new(fid(0), "p".into());
    fg.add_base_file_from_name(&base_name(0, &b[0])).unwrap();
    fg.add_base_file_from_name(&base_name(0, &b[1])).unwrap();
    let mut exp: Vec<Vec<(u32, String)>> = vec![vec![], vec![]];
    for i in 0..3 {
        let k = s::choose(2, "of");
        let v = s::u8_in(1, 4, "version") as u32;
        s::assume(exp[k].iter().all(|x| x.0 != v));
        let n = format!(".{}_{}.log.{}_{}-0-1", fid(0), b[k], (b'0' + v as u8) as char, i);
        fg.add_log_file_from_name(&n).unwrap();
        exp[k].push((v, n));
    }
    let at = sym_ts(1, "at");
    let orphan = format!(".{}_{}.log.1_0-0-1", fid(0), at);
    let k = if b[0] > b[1] { [0, 1] } else { [1, 0] };
    let e = k.iter().copied().find(|i| b[*i] <= at);
    match (fg.get_file_slice_as_of(&at), e) {
        (Some(x), Some(i)) => {
            exp[i].sort();
            s::check(x.base_file.file_name() == base_name(0, &b[i]), "latest base file at or before the time");
            s::check(x.creation_instant_time() == b[i] && x.file_id() == fid(0) && x.partition_path == "p", "identity of the slice");
            let got: Vec<String> = x.log_files.iter().map(|l| l.file_name()).collect();
            s::check(got == exp[i].iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "exactly the log files of its base instant, in order");
            s::check(x.base_file_relative_path().unwrap() == format!("p/{}", base_name(0, &b[i])), "path");
            s::cover("slice");
        }
        (None, None) => s::cover("none"),
        _ => s::check(false, "slice as of the time"),
    }
    if at != b[0] && at != b[1] {
        s::check(fg.add_log_file_from_name(&orphan).is_err(), "a log file without its base file is an error");
    } else {
        s::check(fg.add_base_file_from_name(&base_name(0, &at)).is_err(), "a second base file of an instant is an error");
    }
}
/// Merging file groups (as incremental reads do) gives the union, whatever the order.
#[no_mangle]
pub extern "C" fn hv_fg_merge() {
    let mut all: Vec<(String, Vec<String>)> = vec![];
    let mut fgs = vec![];
    for i in 0..3 {
        let b = sym_ts(1, "base");
        let mut fg = FileGroup::new_with_base_file_name(fid(0), "p".into(), &base_name(0, &b)).unwrap();
        let mut logs = vec![];
        for j in 0..s::choose(2, "logs") {
            let n = format!(".{}_{}.log.{}_{}-0-1", fid(0), b, (s::u8_in(b'1', b'3', "version")) as char, j + 10 * i);
            fg.add_log_file_from_name(&n).unwrap();
            logs.push(n);
        }
        fgs.push(fg);
        let name = base_name(0, &b);
        match all.iter().position(|x| x.0 == name) {
            Some(k) => all[k].1.extend(logs),
            None => all.push((name, logs)),
        }
    }
    all.sort();
    let mut m = fgs[0].clone();
    m.merge(&fgs[1]).unwrap();
    m.merge(&fgs[2]).unwrap();
    let mut r = fgs[2].clone();
    r.merge(&fgs[1]).unwrap();
    r.merge(&fgs[0]).unwrap();
    for (mut got, l) in [(slices(&m), "merged"), (slices(&r), "merged in reverse")] {
        s::check(got.len() == all.len(), &format!("{l}: every slice once"));
        for (g, e) in got.iter_mut().zip(all.iter_mut()) {
            g.1.sort();
            e.1.sort();
            s::check(g == e, &format!("{l}: the union of the log files"));
        }
    }
    s::check(m.merge(&FileGroup::new(fid(1), "p".into())).is_err(), "another file group is an error");
    s::check(m.merge(&FileGroup::new(fid(0), "q".into())).is_err(), "another partition is an error");
    s::cover(if all.len() == 3 { "distinct" } else { "shared" });
}

// ---- configuration ----
fn conf_store(p: &str) -> MemStore {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", p.to_string());
    st
}
/// Where a setting comes from: table properties, then explicit options, then generic options, then global defaults.
#[no_mangle]
pub extern "C" fn hv_conf_prec() {
    let v: [u8; 4] = s::bytes_in(b'a', b'z', "v");
    let v: Vec<String> = v.iter().map(|c| (*c as char).to_string()).collect();
    let on: Vec<bool> = (0..4).map(|_| s::choose(2, "source") == 1).collect();
    let key = "hoodie.some.setting";
    let mut p = vec![("hoodie.table.type", "cow")];
    if on[0] {
        p.push((key, v[0].as_str()));
    }
    let mut st = conf_store(&props(&p));
    let sep = ["=", " ", "\t", " = "][if on[3] { s::choose(4, "sep") } else { 0 }];
    let glob = format!("# defaults\nspark.x=1\nhoodie.other{sep}q\n{}", if on[3] { format!("{key}{sep}{}\n", v[3]) } else { String::new() });
    st.files.push(("etc/hudi/conf/hudi-defaults.conf".into(), glob.into()));
    st.install();
    let mut b = TableBuilder::from_base_uri(BASE);
    let rev = s::choose(2, "order") == 1;
    for k in if rev { [2, 1] } else { [1, 2] } {
        if on[k] {
            b = if k == 1 { b.with_hudi_option(key, v[1].clone()) } else { b.with_option(key, v[2].clone()) };
        }
    }
    // storage options: explicit over generic
    let w: [u8; 2] = s::bytes_in(b'a', b'z', "w");
    let w: Vec<String> = w.iter().map(|c| (*c as char).to_string()).collect();
    let son = s::choose(4, "storage");
    if son & 1 == 1 {
        b = b.with_storage_option("endpoint", w[0].clone());
    }
    if son & 2 == 2 {
        b = b.with_option("endpoint", w[1].clone());
    }
    let t = block_on(b.build()).unwrap();
    let o = t.hudi_options();
    let e = (0..4).find(|k| on[*k]).map(|k| v[k].as_str());
    s::check(o.get(key).map(|x| x.as_str()) == e, "value of the setting");
    s::check(o.get("hoodie.other").map(|x| x.as_str()) == Some("q"), "global default");
    s::check(!o.contains_key("spark.x"), "only Hudi settings are taken from the global defaults");
    let so = t.storage_options();
    let e = [None, Some(&w[0]), Some(&w[1]), Some(&w[0])][son];
    s::check(so.get("endpoint") == e, "value of the storage option");
    s::check(!so.contains_key(key) && !o.contains_key("endpoint"), "Hudi and storage options are kept apart");
    s::cover(if e.is_some() { "set" } else { "unset" });
}
fn trim(b: &[u8]) -> &[u8] {
    let ws = |c: &u8| matches!(*c, b' ' | b'\t' | 11 | 12 | b'\r' | b'\n');
    let i = b.iter().position(|c| !ws(c)).unwrap_or(b.len());
    let j = b.iter().rposition(|c| !ws(c)).map_or(i, |x| x + 1);
    &b[i..j]
}
/// hoodie.properties with arbitrary text in a line.
fn conf_parse(n: u8) {
    let k = s::choose(n + 1, "len");
    let mut x = vec![0u8; k];
    s::fill_in(&mut x, 1, 126, "text");
    let pre = ["", "hoodie.k", "hoodie.k=v"][s::choose(3, "before")];
    let mut text = props(&[("hoodie.table.type", "cow")]).into_bytes();
    let known = text.len();
    text.extend(pre.as_bytes());
    text.extend(&x);
    text.extend(b"\nhoodie.end=1");
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", text.clone());
    st.install();
    let t = block_on(Table::new(BASE)).unwrap();
    let o = t.hudi_options();
    // reference
    let mut exp: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for l in text[known..].split(|c| *c == b'\n') {
        let l = trim(l);
        if l.is_empty() || l[0] == b'#' {
            continue;
        }
        let (a, b) = match l.iter().position(|c| *c == b'=') {
            Some(i) => (trim(&l[..i]), trim(&l[i + 1..])),
            None => (l, &b""[..]),
        };
        exp.retain(|e| e.0 != a);
        exp.push((a.to_vec(), b.to_vec()));
    }
    for (a, b) in &exp {
        let a = std::str::from_utf8(a).unwrap();
        s::check(o.get(a).map(|v| v.as_bytes()) == Some(&b[..]), "every line gives its setting");
    }
    // name, table version, layout version, table type, base path
    s::check(o.len() == exp.len() + 5, "and nothing else");
    s::cover(if exp.len() > 1 { "settings" } else { "none" });
}
#[no_mangle]
pub extern "C" fn hv_conf_parse() {
    conf_parse(3)
}
#[no_mangle]
pub extern "C" fn hv_conf_parse4() {
    conf_parse(4)
}
fn int(b: &[u8]) -> Option<i64> {
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() {
        return None;
    }
    let mut v = 0;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (*c - b'0') as i64;
    }
    Some(if neg { -v } else { v })
}
fn lower(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| c.to_ascii_lowercase()).collect()
}
/// Typed settings: valid values are taken, everything else makes opening the table an error.
#[no_mangle]
pub extern "C" fn hv_conf_values() {
    let keys = [
        "hoodie.table.type",
        "hoodie.table.base.file.format",
        "hoodie.table.version",
        "hoodie.timeline.layout.version",
        "hoodie.datasource.write.hive_style_partitioning",
        "hoodie.datasource.write.partitionpath.urlencode",
        "hoodie.datasource.write.drop.partition.columns",
        "hoodie.populate.meta.fields",
        "hoodie.table.timeline.timezone",
        "hoodie.table.record.merge.strategy",
        "hoodie.read.input.partitions",
        "hoodie.read.listing.parallelism",
        "hoodie.read.use.read_optimized.mode",
        "hoodie.table.checksum",
    ];
    let k = s::choose(keys.len() as u8, "key");
    let bool_seeds: &[&str] = &["true", "false"];
    let int_seeds: &[&str] = &["6", "12", "-3"];
    let seeds: &[&str] = match k {
        0 => &["mor", "COPY_ON_WRITE", "merge-on-read"],
        1 => &["parquet", "orc"],
        8 => &["utc", "UTC"],
        9 => &["append_only", "overwrite_with_latest"],
        2 | 3 | 10 | 11 | 13 => int_seeds,
        _ => bool_seeds,
    };
    let mut v = seeds[s::choose(seeds.len() as u8, "seed")].as_bytes().to_vec();
    // one byte of it is anything
    let at = s::pick(v.len(), "at");
    v[at] = s::u8_in(33, 126, "byte");
    let val = String::from_utf8(v.clone()).unwrap();
    let mut p = vec![("hoodie.table.precombine.field", "ts")];
    for (q, d) in [(0, "cow"), (2, "6"), (3, "1")] {
        if q != k {
            p.push((keys[q], d));
        }
    }
    p.push((keys[k], &val));
    let mut text = String::from("hoodie.table.name=t\n");
    p.iter().for_each(|(a, b)| text += &format!("{a}={b}\n"));
    conf_store(&text).install();
    let r = block_on(Table::new(BASE));
    let i = int(&v);
    let l = lower(&v);
    let is = |xs: &[&str]| xs.iter().any(|x| x.as_bytes() == &l[..]);
    let valid = match k {
        0 => is(&["cow", "copy-on-write", "copy_on_write", "mor", "merge-on-read", "merge_on_read"]),
        1 => is(&["parquet"]),
        2 => matches!(i, Some(5..=6)),
        3 => i == Some(1),
        8 => is(&["utc", "local"]),
        9 => is(&["append_only", "overwrite_with_latest"]),
        10 | 11 => i.is_some() && v[0] != b'-',
        13 => i.is_some(),
        6 => &v[..] == b"false",
        _ => &v[..] == b"true" || &v[..] == b"false",
    };
    s::check(r.is_ok() == valid, &format!("{}: accepted exactly if valid", keys[k]));
    if let Ok(t) = r {
        if k == 0 {
            s::check(t.is_mor() == is(&["mor", "merge-on-read", "merge_on_read"]), "table type");
        }
        s::check(t.timezone() == if k == 8 && is(&["local"]) { "local" } else { "utc" }, "timezone");
        s::cover("accepted");
    } else {
        s::cover("rejected");
    }
}
/// Settings that are absent: required ones are errors, others have their defaults, and reading works.
#[no_mangle]
pub extern "C" fn hv_conf_missing() {
    let all = [
        ("hoodie.table.name", "t"),
        ("hoodie.table.type", "MERGE_ON_READ"),
        ("hoodie.table.version", "6"),
        ("hoodie.timeline.layout.version", "1"),
        ("hoodie.table.precombine.field", "ts"),
        ("hoodie.populate.meta.fields", "true"),
        ("hoodie.datasource.write.hive_style_partitioning", "false"),
        ("hoodie.datasource.write.partitionpath.urlencode", "false"),
        ("hoodie.table.base.file.format", "PARQUET"),
        ("hoodie.table.timeline.timezone", "UTC"),
    ];
    let mut have = vec![];
    let mut text = String::new();
    for (k, v) in all {
        let on = s::choose(2, "present") == 1;
        have.push(on);
        if on {
            text += &format!("{k}={v}\n");
        }
    }
    let c0 = "20240101000000100";
    let d = "20240101000000200";
    let base = [rec(c0, 0, "a", 1, 5), rec(c0, 1, "b", 2, 5)];
    let delta = [rec(d, 0, "a", 10, 6), rec(d, 1, "b", 20, 4)];
    let mut st = conf_store(&text);
    st.put(&base_name(0, c0), parquet(&batch(&base, &[])));
    put_commit(&mut st, c0, 3, base_metadata(0, c0));
    st.put(&log_name(0, c0, 1), data_block(d, &delta));
    put_delta(&mut st, d, 3, delta_metadata(0, c0, &[1]));
    st.install();
    match block_on(Table::new(BASE)) {
        Err(_) => {
            s::check(!(have[0] && have[1] && have[2] && have[3]), "no error when everything required is there");
            s::cover("rejected");
        }
        Ok(t) => {
            s::check(have[0] && have[1] && have[2] && have[3], "a required setting that is missing is an error");
            let v = values(&block_on(t.read_snapshot(&[])).unwrap());
            // without a precombine field the table is append-only
            s::check(v == if have[4] { vec![2, 10] } else { vec![1, 2, 10, 20] }, "rows");
            s::cover("accepted");
        }
    }
}
/// Any listing parallelism gives the same file slices.
#[no_mangle]
pub extern "C" fn hv_conf_parallelism() {
    let n = s::u8_in(0, 20, "n");
    let mut st = conf_store(&props(&[("hoodie.table.type", "cow"), ("hoodie.table.partition.fields", "p")]));
    let c0 = "20240101000000100";
    let ps = ["a", "b", "c"];
    let k = 1 + s::choose(3, "partitions");
    let mut md = vec![];
    for p in &ps[..k] {
        st.put(&format!("{p}/{}", base_name(0, c0)), parquet(&batch(&[rec(c0, 0, p, 1, 5)], &[("p", p)])));
        md.push(format!(r#""{p}":[{{"fileId":"{}","path":"{p}/{}"}}]"#, fid(0), base_name(0, c0)));
    }
    put_commit(&mut st, c0, 3, format!(r#"{{"partitionToWriteStats":{{{}}}}}"#, md.join(",")));
    st.install();
    let t = block_on(Table::new_with_options(BASE, [("hoodie.read.listing.parallelism", n.to_string())])).unwrap();
    let sl = block_on(t.get_file_slices(&[])).unwrap();
    s::check(sl.len() == k && ps[..k].iter().all(|p| sl.iter().any(|x| x.partition_path == *p)), "every partition is listed");
    s::observe_u64(sl.len() as u64, "slices");
    s::cover("end");
}
