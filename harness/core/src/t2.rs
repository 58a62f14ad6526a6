//! Timeline: instants, listing, ordering, ranges.
use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use hudi_core::timeline::instant::*;
use std::str::FromStr;
use symrt as s;

/// (suffix, action if it denotes a completed write action)
const KINDS: &[(&str, Option<&str>)] = &[
    ("commit", Some("commit")),
    ("replacecommit", Some("replacecommit")),
    ("deltacommit", Some("deltacommit")),
    ("inflight", None),
    ("deltacommit.inflight", None),
    ("commit.requested", None),
    ("replacecommit.inflight", None),
    ("replacecommit.requested", None),
    ("deltacommit.requested", None),
    ("clean", None),
    ("rollback", None),
    ("compaction.requested", None),
    ("savepoint", None),
    ("commit.crc", None),
    ("clean.inflight", None),
];
fn names(v: &[Instant]) -> Vec<String> {
    v.iter().map(|i| i.file_name()).collect()
}
/// N timeline files with symbolic kinds and symbolic timestamps, in a symbolic listing order.
fn tl(kinds: &[u8], digits: usize, mixed: bool) {
    let mut f: Vec<(String, String, Option<&str>)> = vec![];
    for k in kinds {
        let k = s::choose(*k, "kind");
        let mut ts = sym_ts(digits, "ts");
        if mixed && s::choose(2, "secs") == 1 {
            // seconds-only timestamp
            ts = format!("2024010100000{}", &ts[16..17]);
        }
        f.push((format!("{}.{}", ts, KINDS[k].0), ts, KINDS[k].1));
    }
    // distinct instants
    let full = |t: &str| if t.len() == 14 { format!("{t}000") } else { t.to_string() };
    for i in 0..f.len() {
        for j in 0..i {
            s::assume(full(&f[i].1) != full(&f[j].1));
        }
    }
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    for x in &f {
        st.put(&format!(".hoodie/{}", x.0), "{}");
    }
    st.put(".hoodie/.aux/20230101000000000.commit", "{}");
    if s::choose(2, "order") == 1 {
        st.files.reverse();
    }
    st.install();
    let t = open();
    let mut exp: Vec<_> = f.iter().filter(|x| x.2.is_some()).cloned().collect();
    exp.sort_by(|a, b| full(&a.1).cmp(&full(&b.1)));
    let tl = t.get_timeline();
    let n = |v: &[&(String, String, Option<&str>)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    let all: Vec<_> = exp.iter().collect();
    s::check(names(&tl.completed_commits) == n(&all), "exactly the completed write actions, in time order");
    for (a, got) in [
        ("commit", block_on(tl.get_completed_commits(false)).unwrap()),
        ("deltacommit", block_on(tl.get_completed_deltacommits(false)).unwrap()),
        ("replacecommit", block_on(tl.get_completed_replacecommits(false)).unwrap()),
    ] {
        let e: Vec<_> = exp.iter().filter(|x| x.2 == Some(a)).collect();
        s::check(names(&got) == n(&e), "per-action listing");
    }
    let mut d = names(&block_on(tl.get_completed_commits(true)).unwrap());
    d.reverse();
    let e: Vec<_> = exp.iter().filter(|x| x.2 == Some("commit")).collect();
    s::check(d == n(&e), "descending listing is the reverse");
    match tl.get_latest_commit_timestamp() {
        Ok(x) => s::check(exp.last().map(|e| e.1 == x).unwrap_or(false), "latest commit"),
        Err(_) => s::check(exp.is_empty(), "no latest commit only for an empty timeline"),
    }
    s::observe(names(&tl.completed_commits).join(",").as_bytes(), "timeline");
    s::cover(if exp.is_empty() { "empty" } else { "end" });
}
#[no_mangle]
pub extern "C" fn hv_tl_kinds() {
    tl(&[KINDS.len() as u8, 4], 2, false)
}
#[no_mangle]
pub extern "C" fn hv_tl_mixed() {
    tl(&[4, 2, 2], 1, true)
}
#[no_mangle]
pub extern "C" fn hv_tl_deep() {
    tl(&[6, 4, 4, 2], 2, false)
}
fn put_name(st: &mut MemStore, n: &str) -> bool {
    match object_store::path::Path::parse(format!("t/.hoodie/{n}")) {
        Ok(_) => {
            st.put(&format!(".hoodie/{n}"), "{}");
            true
        }
        Err(_) => false,
    }
}
/// A stray file in the timeline directory never disturbs the valid instants.
#[no_mangle]
pub extern "C" fn hv_tl_stray() {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    st.put(".hoodie/20240101000000000.commit", "{}");
    let ext = ["commit", "inflight", "deltacommit"][s::choose(3, "ext")];
    let stem: String = match s::choose(9, "stem") {
        0 => String::new(),
        1 => "2024".into(),
        2 => "2024010100000".into(),
        3 => "202401010000000".into(),
        4 => "2024010100000000000".into(),
        5 => "2024010100000\u{e9}".into(),
        6 => "20240101000000\u{e9}1".into(),
        7 => "hoodie".into(),
        _ => "20240101000000abc".into(),
    };
    s::assume(put_name(&mut st, &format!("{stem}.{ext}")));
    st.install();
    let t = open();
    s::check(names(&t.get_timeline().completed_commits) == vec!["20240101000000000.commit"], "stray file ignored");
    s::cover("end");
}

/// Reference calendar: days since 1970-01-01 (valid Gregorian dates).
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2 / 400;
    let yoe = y2 - era * 400;
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn num(b: &[u8]) -> i64 {
    b.iter().fold(0, |a, x| a * 10 + (x - b'0') as i64)
}
fn mdays(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => 28 + ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) as i64,
        _ => 31,
    }
}
/// Instant file names with symbolic timestamp digits at `pos`, every action/state.
fn instant(pos: &[usize], secs: bool, kinds: u8) {
    let mut d = if secs { b"20240228235958".to_vec() } else { b"20240228235958999".to_vec() };
    for p in pos {
        if *p < d.len() {
            d[*p] = s::u8_in(b'0', b'9', "digit");
        }
    }
    let k = s::choose(kinds, "suffix");
    let (suf, act, stt) = [
        ("commit", "commit", ""),
        ("inflight", "commit", "inflight"),
        ("commit.requested", "commit", "requested"),
        ("deltacommit", "deltacommit", ""),
        ("deltacommit.inflight", "deltacommit", "inflight"),
        ("deltacommit.requested", "deltacommit", "requested"),
        ("replacecommit", "replacecommit", ""),
        ("replacecommit.inflight", "replacecommit", "inflight"),
        ("replacecommit.requested", "replacecommit", "requested"),
    ][k];
    let name = format!("{}.{}", std::str::from_utf8(&d).unwrap(), suf);
    let (y, mo, da, h, mi, se) = (num(&d[0..4]), num(&d[4..6]), num(&d[6..8]), num(&d[8..10]), num(&d[10..12]), num(&d[12..14]));
    let ms = if secs { 0 } else { num(&d[14..17]) };
    s::assume(se < 60 && y > 0); // leap seconds and year 0 are left out
    let valid = mo >= 1 && mo <= 12 && da >= 1 && da <= mdays(y, mo) && h < 24 && mi < 60;
    match Instant::from_str(&name) {
        Ok(i) => {
            s::check(valid, "only calendar timestamps parse");
            s::check(i.file_name() == name, "file name round trip");
            s::check(i.timestamp.as_bytes() == &d[..], "timestamp kept");
            s::check(i.action.as_ref() == act && i.state.as_ref() == stt, "action and state");
            s::check(i.epoch_millis == (((days(y, mo, da) * 24 + h) * 60 + mi) * 60 + se) * 1000 + ms, "epoch millis");
            s::check(i.is_replacecommit() == (act == "replacecommit"), "replacecommit");
            s::observe_u64(i.epoch_millis as u64, "ms");
            s::cover("valid");
        }
        Err(_) => {
            s::check(!valid, "every calendar timestamp parses");
            s::cover("invalid");
        }
    }
}
#[no_mangle]
pub extern "C" fn hv_inst_date() {
    instant(&[4, 5, 6, 7], false, 1)
}
#[no_mangle]
pub extern "C" fn hv_inst_time() {
    instant(&[8, 10, 12, 13, 15], false, 9)
}
#[no_mangle]
pub extern "C" fn hv_inst_secs() {
    instant(&[3, 5, 7, 9, 13], true, 9)
}
#[no_mangle]
pub extern "C" fn hv_inst_millis() {
    instant(&[9, 11, 14, 15, 16], false, 1)
}
#[no_mangle]
pub extern "C" fn hv_inst_year() {
    instant(&[2, 3, 7], false, 1)
}
#[no_mangle]
pub extern "C" fn hv_inst_year4() {
    instant(&[0, 1, 2, 3, 7], false, 1)
}
/// Arbitrary bytes where a timestamp should be: an error or an instant that renders back to the same name, never a panic.
#[no_mangle]
pub extern "C" fn hv_inst_garbage() {
    let n = s::choose(6, "len");
    let mut b = s::bytes_in::<5>(1, 127, "b")[..n].to_vec();
    let tail: &[u8] = [b"".as_slice(), b".commit", b"0101000000.commit", b"0101000000000.commit", b"0101000000000.inflight"][s::choose(5, "tail")];
    b.extend_from_slice(tail);
    let name = String::from_utf8(b).unwrap();
    match Instant::from_str(&name) {
        Ok(i) => {
            s::check(i.file_name() == name || name.ends_with(".commit.inflight"), "round trip");
            s::check(i.timestamp.bytes().all(|c| c.is_ascii_digit()), "timestamps are digits");
            s::cover("accepted");
        }
        Err(_) => s::cover("rejected"),
    }
}
/// Strings that are not instant names: missing/extra parts, unknown actions and states, multi-byte text.
#[no_mangle]
pub extern "C" fn hv_inst_parts() {
    let a = ["", "commit", "deltacommit", "replacecommit", "clean", "Commit", "inflight", "requested", "commit "][s::choose(9, "action")];
    let st = ["", ".x", ".inflight", ".requested", ".completed", ".inflight.x", ".INFLIGHT"][s::choose(7, "state")];
    let t = ["20240101000000000", "20240101000000", "2024", "", "2024010100000\u{e9}", "20240101000000\u{e9}\u{e9}", "2024\u{20ac}101000000"][s::choose(7, "ts")];
    let name = format!("{t}.{a}{st}");
    let known = matches!(a, "commit" | "deltacommit" | "replacecommit");
    let ok = (t == "20240101000000000" || t == "20240101000000") && ((known && matches!(st, "" | ".inflight" | ".requested")) || (a == "inflight" && st.is_empty()));
    let r = Instant::from_str(&name);
    s::check(r.is_ok() == ok, "accepts exactly well-formed names");
    if let Ok(i) = r {
        let action = if a == "inflight" { "commit" } else { a };
        s::check(i.action.as_ref() == action, "action");
        s::check(i.relative_path().ok() == Some(format!(".hoodie/{}", i.file_name())), "relative path");
        s::check(i.file_name() == name.replace(".commit.inflight", ".inflight"), "file name");
        s::check(i.state.as_ref() == if a == "inflight" { "inflight" } else { st.trim_start_matches('.') }, "state");
        s::cover("ok");
    } else {
        s::cover("err");
    }
}
