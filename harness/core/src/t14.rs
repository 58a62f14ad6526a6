//! Times: ranges, local timelines.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use crate::t3::*;
use crate::t4::*;
use crate::t2::days;
use hudi_core::timeline::instant::*;
use hudi_core::verif_hooks::InstantRange;
use symrt as s;

/// The time zones in which a local timeline is read, as POSIX rules.
const ZONES: [&str; 4] = ["EST5EDT,M3.2.0,M11.1.0", "UTC0", "XST-5:30", "AEST-10AEDT,M10.1.0,M4.1.0/3"];
/// Seconds to subtract from local time, by zone and local minute of 2024-11-03 (EST) or 2024-04-07 (AEST); None where ambiguous.
fn offset(zone: usize, fall: bool, minute: i64) -> Option<i64> {
    match zone {
        0 if !fall || minute < 60 => Some(-4 * 3600),
        0 if minute >= 120 => Some(-5 * 3600),
        1 => Some(0),
        2 => Some(19800),
        3 if fall || minute < 120 => Some(39600),
        3 if minute >= 180 => Some(36000),
        _ => None,
    }
}
/// Instants of a local timeline denote local time; a table keeps all its commits when clocks are set back.
#[no_mangle]
pub extern "C" fn hv_local() {
    let z = s::choose(4, "zone");
    std::env::set_var("TZ", ZONES[z]);
    let fall = s::choose(2, "day") == 1;
    let (day, d) = if fall { ("20241103", days(2024, 11, 3)) } else { ("20240407", days(2024, 4, 7)) };
    let h = s::u8_in(b'0', b'4', "hour");
    let m = s::bytes_in::<2>(b'0', b'9', "minute");
    s::assume(m[0] < b'6');
    let ts = format!("{day}0{}{}{}07123", h as char, m[0] as char, m[1] as char);
    let name = format!("{ts}.commit");
    let minute = (h - b'0') as i64 * 60 + (m[0] - b'0') as i64 * 10 + (m[1] - b'0') as i64;
    let tz = ["local", "LOCAL", "Local"][s::choose(3, "timezone")];
    let i = Instant::try_from_file_name_and_timezone(&name, tz);
    s::check(i.is_ok(), "every local time that exists is an instant");
    let i = i.unwrap();
    let epoch = |o: i64| (d * 86400 + minute * 60 + 7 - o) * 1000 + 123;
    match offset(z, fall, minute) {
        Some(o) => {
            s::check(i.epoch_millis == epoch(o), "local time");
            s::cover("unique")
        }
        None => {
            s::check(if z == 0 { i.epoch_millis == epoch(-4 * 3600) || i.epoch_millis == epoch(-5 * 3600) } else { i.epoch_millis == epoch(36000) || i.epoch_millis == epoch(39600) }, "either of the two local times");
            s::cover("ambiguous")
        }
    }
    s::observe_u64(i.epoch_millis as u64, "ms");
}

/// A table with a local timeline: no commit is lost, reads as of a local time and windows select by the instants' times.
#[no_mangle]
pub extern "C" fn hv_local_table() {
    let z = s::choose(3, "zone");
    std::env::set_var("TZ", ZONES[[0, 2, 3][z]]);
    let day = ["20241103", "20240407"][s::choose(2, "day")];
    let ts = |n: &str| format!("{day}0{}1500000", s::u8_in(b'0', b'3', n) as char);
    let mut h = vec![cm("20240301000000000".into(), Kind::Commit, vec![pw("", 0), pw("", 1)], vec![])];
    for (n, w) in [("u", vec![pw("", 0)]), ("v", vec![pw("", 1), pw("", 2)])] {
        h.push(cm(ts(n), Kind::Commit, w, vec![]));
    }
    s::assume(h[1].ts < h[2].ts);
    let mut st = MemStore::new();
    let mut p = COW.to_vec();
    p.push(("hoodie.table.timeline.timezone", ["LOCAL", "local"][s::choose(2, "spelling")]));
    st.put(".hoodie/hoodie.properties", props(&p));
    for (i, c) in h.iter().enumerate() {
        put_action(&mut st, &c.ts, "commit", "inflight", "commit", 3, metadata(c));
        for w in &c.writes {
            st.put(&join(&w.part, &base_name(w.fg, &c.ts)), base_file(c, i, w, &[]));
        }
    }
    st.install();
    let t = open();
    let tl: Vec<String> = t.get_timeline().completed_commits.iter().map(|i| i.timestamp.clone()).collect();
    s::check(tl == h.iter().map(|c| c.ts.clone()).collect::<Vec<_>>(), "every commit of the local timeline");
    let vis = |t: &str| {
        let mut e: Vec<i32> = visible(&h, t).iter().map(|(_, f, c)| (10 * c + f) as i32).collect();
        e.sort_unstable();
        e
    };
    s::check(values(&block_on(t.read_snapshot(&[])).unwrap()) == vis(&h[2].ts), "snapshot rows");
    let at = ts("at");
    let got = block_on(t.read_snapshot_as_of(&at, &[]));
    s::check(got.is_ok(), "a read as of an existing local time succeeds");
    s::check(values(&got.unwrap()) == vis(&at), "rows as of a local time");
    let inc = values(&block_on(t.read_incremental_records(&h[1].ts, None)).unwrap());
    s::check(inc == vec![21, 22], "rows after a local time");
    s::cover("end");
}

/// A time with the given form: milliseconds or seconds, and its milliseconds within the minute.
fn time(form: usize, name: &str) -> (String, u32) {
    let b = s::bytes_in::<2>(b'0', b'9', name);
    s::assume(b[0] < b'3');
    let sec = 40 + (b[0] - b'0') as u32;
    let ms = (b[1] - b'0') as u32;
    let p = "202401010000";
    match form {
        0 => (format!("{p}4{}00{}", b[0] as char, b[1] as char), sec * 1000 + ms),
        _ => {
            s::assume(ms == 0);
            (format!("{p}4{}", b[0] as char), sec * 1000)
        }
    }
}
/// Instant ranges hold exactly the times between their ends, each end included or not, whatever form the times have.
#[no_mangle]
pub extern "C" fn hv_range() {
    let utc = ["UTC", "utc"][s::choose(2, "timezone")];
    let (t, x) = time(s::choose(2, "form"), "t");
    let kind = s::choose(5, "kind");
    let (lo, hi) = (s::choose(2, "lower form"), s::choose(2, "upper form"));
    let (a, l) = time(lo, "from");
    let (b, h) = time(hi, "to");
    let (r, e) = match kind {
        0 => (InstantRange::up_to(&b, utc), x <= h),
        1 => (InstantRange::within(&a, &b, utc), l < x && x < h),
        2 => (InstantRange::within_open_closed(&a, &b, utc), l < x && x <= h),
        3 => {
            let (i, j) = (s::any_bool("from included"), s::any_bool("to included"));
            (InstantRange::new(utc.to_string(), Some(a), Some(b), i, j), (l < x || i && l == x) && (x < h || j && x == h))
        }
        _ => {
            let i = s::any_bool("from included");
            (InstantRange::new(utc.to_string(), Some(a), None, i, s::any_bool("to included")), l < x || i && l == x)
        }
    };
    s::check(r.timezone() == utc, "time zone");
    s::check(r.is_in_range(&t, utc).ok() == Some(e), "in range");
    s::check(r.not_in_range(&t, utc).ok() == Some(!e), "not in range");
    let bad = ["", "2024", "2024010100004x", "202401010000400009", "20241301000000", "\u{e9}024010100004"][s::choose(6, "malformed")];
    s::check(r.is_in_range(bad, utc).is_err(), "a malformed time is an error");
    s::check(InstantRange::new(utc.to_string(), None, Some(bad.to_string()), true, true).is_in_range(&t, utc).is_err(), "a malformed end is an error");
    s::check(InstantRange::up_to(&t, "mars").is_in_range(&t, "utc").is_err(), "an unknown time zone is an error");
    s::cover(if e { "in" } else { "out" });
}

/// Log batches whose columns are in another order, of other types, missing or more than those of the base file.
#[no_mangle]
pub extern "C" fn hv_merge_columns() {
    use arrow_array::*;
    use arrow_schema::*;
    use std::sync::Arc;
    let names = ["_hoodie_commit_seqno", "_hoodie_record_key", "ts", "val", "x", "y"];
    let p = [s::any_i32("p"), s::any_i32("p"), s::any_i32("p")];
    let keys = ["a", "b", ["a", "c"][s::choose(2, "key")]];
    let col = |n: &str, r: std::ops::Range<usize>, wide: bool| -> (FieldRef, ArrayRef) {
        let a: ArrayRef = match n {
            "_hoodie_commit_seqno" => Arc::new(StringArray::from(r.map(|i| format!("2024_{i}")).collect::<Vec<_>>())),
            "_hoodie_record_key" => Arc::new(StringArray::from(r.map(|i| keys[i]).collect::<Vec<_>>())),
            _ => {
                let v = |i: usize| match n {
                    "ts" => p[i],
                    "val" => i as i32,
                    "x" => 100 + i as i32,
                    "y" => 200 + i as i32,
                    _ => 300 + i as i32,
                };
                if wide { Arc::new(Int64Array::from(r.map(|i| v(i) as i64).collect::<Vec<_>>())) } else { Arc::new(Int32Array::from(r.map(v).collect::<Vec<_>>())) }
            }
        };
        (Arc::new(Field::new(n, a.data_type().clone(), true)), a)
    };
    let make = |names: &[&str], r: std::ops::Range<usize>, wide: &str| {
        let (f, a): (Vec<_>, Vec<_>) = names.iter().map(|n| col(n, r.clone(), wide == *n)).unzip();
        RecordBatch::try_new(Arc::new(Schema::new(f)), a).unwrap()
    };
    let base = make(&names, 0..2, "");
    let mut l: Vec<&str> = names.to_vec();
    let kind = s::choose(6, "columns of the log");
    let mut wide = "";
    match kind {
        0 => {}
        1 => {
            let (i, j) = (s::choose(6, "column"), s::choose(6, "column"));
            l.swap(i, j)
        }
        2 => {
            let i = s::choose(6, "missing");
            l.remove(i);
        }
        3 => l.insert(s::choose(7, "added"), "z"),
        4 => {
            let i = s::choose(6, "renamed");
            l[i] = "z"
        }
        _ => wide = ["ts", "val", "x", "y"][s::choose(4, "wider")],
    }
    let log = make(&l, 2..3, wide);
    let append = s::choose(2, "strategy") == 1;
    let m = hudi_core::merge::record_merger::RecordMerger::new(crate::t7::mconf(if append { "append_only" } else { "overwrite_with_latest" }));
    match m.merge_record_batches(&base.schema(), &[base.clone(), log]) {
        Err(_) => {
            s::check(kind == 2 || kind == 4 || kind == 5, "columns are found by name");
            s::cover("error")
        }
        Ok(out) => {
            s::check(out.schema() == base.schema(), "schema");
            let get = |c: &str| out.column_by_name(c).unwrap().as_any().downcast_ref::<Int32Array>().unwrap().clone();
            let v = get("val");
            let n = if !append && keys[2] == "a" { 2 } else { 3 };
            s::check(v.len() == n, "rows");
            for i in 0..n {
                // a missing column may be read as nulls
                let gone = |c: &str, r: usize| r == 2 && !l.contains(&c) && get(c).is_null(i);
                let r = (0..3).find(|r| get("x").value(i) == 100 + *r as i32).or((0..3).find(|r| get("val").value(i) == *r as i32 && *r == 2));
                s::check(r.is_some(), "a row");
                let r = r.unwrap();
                for (c, e) in [("ts", p[r]), ("val", r as i32), ("x", 100 + r as i32), ("y", 200 + r as i32)] {
                    s::check(gone(c, r) || !get(c).is_null(i) && get(c).value(i) == e, "every value in its own column");
                }
                s::check(append || keys[r] != "a" || keys[2] != "a" || kind == 2 || kind == 4 || p[r] >= p[2 - r], "the latest record of the key");
            }
            s::cover("merged");
        }
    }
}
