//! Partition filters: pruning through the table API.
use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use crate::t4::{cm, pw};
use symrt as s;

pub const OPS: [&str; 6] = ["=", "!=", "<", "<=", ">", ">="];
pub fn cmp_op(op: usize, o: std::cmp::Ordering) -> bool {
    use std::cmp::Ordering::*;
    match op {
        0 => o == Equal,
        1 => o != Equal,
        2 => o == Less,
        3 => o != Greater,
        4 => o == Greater,
        _ => o != Less,
    }
}
const TS: &str = "20240101000000100";
fn bs(b: bool) -> &'static str {
    if b { "true" } else { "false" }
}
/// A table with one file group per partition; `cols` in partition-field order, `schema_rev` reverses the column order.
fn table(fields: &[&str], parts: &[Vec<&str>], dirs: &[String], hive: bool, enc: bool, schema_rev: bool) -> Vec<String> {
    let mut st = MemStore::new();
    st.put(
        ".hoodie/hoodie.properties",
        props(&[
            ("hoodie.table.type", "COPY_ON_WRITE"),
            ("hoodie.table.partition.fields", &fields.join(",")),
            ("hoodie.datasource.write.hive_style_partitioning", bs(hive)),
            ("hoodie.datasource.write.partitionpath.urlencode", bs(enc)),
        ]),
    );
    let c = cm(TS.into(), Kind::Commit, dirs.iter().enumerate().map(|(i, d)| pw(d, i)).collect(), vec![]);
    for (i, w) in c.writes.iter().enumerate() {
        let mut p: Vec<(&str, &str)> = fields.iter().zip(&parts[i]).map(|(f, v)| (*f, *v)).collect();
        if schema_rev {
            p.reverse();
        }
        st.put(&join(&w.part, &base_name(w.fg, &c.ts)), base_file(&c, 0, w, &p));
        st.put(&join(&w.part, ".hoodie_partition_metadata"), "x");
    }
    put_timeline(&mut st, &c, metadata(&c));
    st.install();
    dirs.iter().enumerate().map(|(i, d)| join(d, &base_name(i, TS))).collect()
}
fn run(filters: &[(&str, &str, &str)], names: &[String], expect: &[bool]) {
    let t = open();
    let got = block_on(t.get_file_slices(filters)).unwrap();
    let mut n = 0;
    for (i, x) in names.iter().enumerate() {
        let present = got.iter().any(|g| join(&g.partition_path, &g.base_file.file_name()) == *x);
        s::check(present == expect[i], if expect[i] { "a matching partition is read" } else { "a non-matching partition is skipped" });
        n += expect[i] as usize;
    }
    s::check(got.len() == n, "each slice once");
    let rows: Vec<i32> = (0..names.len()).filter(|i| expect[*i]).map(|i| i as i32).collect();
    s::check(values(&block_on(t.read_snapshot(filters)).unwrap()) == rows, "rows of the matching partitions");
    s::observe_u64(got.len() as u64, "n");
    s::cover(if n == 0 { "none" } else if n == names.len() { "all" } else { "some" });
}
fn dir(fields: &[&str], vals: &[&str], hive: bool) -> String {
    fields.iter().zip(vals).map(|(f, v)| if hive { format!("{f}={v}") } else { v.to_string() }).collect::<Vec<_>>().join("/")
}
/// String partition values against a symbolic filter literal and operator.
fn strings(len: usize) {
    let hive = s::choose(2, "hive") == 1;
    let vals = ["a", "ab", "B", "m-1"];
    let parts: Vec<Vec<&str>> = vals.iter().map(|v| vec![*v]).collect();
    let dirs: Vec<String> = vals.iter().map(|v| dir(&["p"], &[v], hive)).collect();
    let names = table(&["p"], &parts, &dirs, hive, s::choose(2, "enc") == 1, false);
    let n = s::choose(len as u8 + 1, "len");
    let mut lit = vec![b'a'; n];
    s::fill_in(&mut lit, b' ', b'~', "lit");
    let lit = String::from_utf8(lit).unwrap();
    let op = s::choose(6, "op");
    let e: Vec<bool> = vals.iter().map(|v| cmp_op(op, v.as_bytes().cmp(lit.as_bytes()))).collect();
    run(&[("p", OPS[op], &lit)], &names, &e);
}
#[no_mangle]
pub extern "C" fn hv_prune_str() {
    strings(2)
}
#[no_mangle]
pub extern "C" fn hv_prune_str3() {
    strings(3)
}
/// Integer partition values compare numerically, not as text.
#[no_mangle]
pub extern "C" fn hv_prune_int() {
    let hive = s::choose(2, "hive") == 1;
    let vals = ["9", "10", "-5", "0"];
    let nums = [9i32, 10, -5, 0];
    let parts: Vec<Vec<&str>> = vals.iter().map(|v| vec![*v]).collect();
    let dirs: Vec<String> = vals.iter().map(|v| dir(&["i"], &[v], hive)).collect();
    let names = table(&["i"], &parts, &dirs, hive, false, false);
    let d: [u8; 2] = s::bytes_in(b'0', b'9', "lit");
    let neg = s::choose(2, "neg") == 1;
    let one = s::choose(2, "one") == 1;
    let mut v = (d[0] - b'0') as i32;
    let mut lit = String::new();
    if neg {
        lit.push('-');
    }
    lit.push(d[0] as char);
    if !one {
        lit.push(d[1] as char);
        v = v * 10 + (d[1] - b'0') as i32;
    }
    if neg {
        v = -v;
    }
    let op = s::choose(6, "op");
    let e: Vec<bool> = nums.iter().map(|x| cmp_op(op, x.cmp(&v))).collect();
    run(&[("i", OPS[op], &lit)], &names, &e);
}
/// Two partition fields, with the table schema listing them in either order, and one or two filters.
#[no_mangle]
pub extern "C" fn hv_prune_two() {
    two(false)
}
#[no_mangle]
pub extern "C" fn hv_prune_two_all() {
    two(true)
}
fn two(all: bool) {
    let hive = s::choose(2, "hive") == 1;
    let f = ["p", "q"];
    let v = [["a", "x"], ["a", "y"], ["x", "a"], ["b", "b"]];
    let parts: Vec<Vec<&str>> = v.iter().map(|x| x.to_vec()).collect();
    let dirs: Vec<String> = v.iter().map(|x| dir(&f, x, hive)).collect();
    let names = table(&f, &parts, &dirs, hive, false, s::choose(2, "schema order") == 1);
    let l: [u8; 2] = s::bytes_in(b'a', b'z', "lit");
    let (a, b) = ((l[0] as char).to_string(), (l[1] as char).to_string());
    let (o1, o2) = (s::choose(6, "op1"), if all { s::choose(6, "op2") } else { [1, 3][s::choose(2, "op2")] });
    let only = s::choose(3, "filters");
    let mut fl = vec![];
    if only != 1 {
        fl.push(("q", OPS[o2], b.as_str()));
    }
    if only != 2 {
        fl.push(("p", OPS[o1], a.as_str()));
    }
    let e: Vec<bool> = v
        .iter()
        .map(|x| (only == 2 || cmp_op(o1, x[0].cmp(&a))) && (only == 1 || cmp_op(o2, x[1].cmp(&b))))
        .collect();
    run(&fl, &names, &e);
}
/// Percent-encoded partition directories: the filter sees the decoded value.
#[no_mangle]
pub extern "C" fn hv_prune_enc() {
    let hive = s::choose(2, "hive") == 1;
    let enc = ["a%2Fb", "a%3Db", "a%20b", "a%25b", "a+b", "ab"];
    let dec = ["a/b", "a=b", "a b", "a%b", "a+b", "ab"];
    let parts: Vec<Vec<&str>> = dec.iter().map(|v| vec![*v]).collect();
    let dirs: Vec<String> = enc.iter().map(|v| dir(&["p"], &[v], hive)).collect();
    let names = table(&["p"], &parts, &dirs, hive, true, false);
    let c: [u8; 1] = s::bytes_in(b' ', b'~', "lit");
    let lit = format!("a{}b", c[0] as char);
    let op = s::choose(6, "op");
    let e: Vec<bool> = dec.iter().map(|v| cmp_op(op, v.as_bytes().cmp(lit.as_bytes()))).collect();
    run(&[("p", OPS[op], &lit)], &names, &e);
}
/// Symbolic partition values (one digit each) against a concrete literal.
#[no_mangle]
pub extern "C" fn hv_prune_dirs() {
    let d: [u8; 2] = s::bytes_in(b'0', b'9', "dir");
    s::assume(d[0] != d[1]);
    let hive = s::choose(2, "hive") == 1;
    let int = s::choose(2, "int") == 1;
    let f = if int { "i" } else { "p" };
    let vals: Vec<String> = vec![format!("{}", d[0] as char), format!("1{}", d[1] as char)];
    let parts: Vec<Vec<&str>> = vals.iter().map(|v| vec![if int { "1" } else { v.as_str() }]).collect();
    let dirs: Vec<String> = vals.iter().map(|v| dir(&[f], &[v], hive)).collect();
    let names = table(&[f], &parts, &dirs, hive, false, false);
    let lit = ["5", "10", "15", "1"][s::choose(4, "lit")];
    let n: i32 = lit.parse().unwrap();
    let op = s::choose(6, "op");
    let num = [(d[0] - b'0') as i32, 10 + (d[1] - b'0') as i32];
    let e: Vec<bool> = (0..2).map(|i| cmp_op(op, if int { num[i].cmp(&n) } else { vals[i].as_bytes().cmp(lit.as_bytes()) })).collect();
    run(&[(f, OPS[op], lit)], &names, &e);
}
/// Partition columns of other types compare by type; a literal that is no value of the type is an error.
#[no_mangle]
pub extern "C" fn hv_prune_types() {
    types(3)
}
#[no_mangle]
pub extern "C" fn hv_prune_types_all() {
    types(6)
}
fn types(ops: u8) {
    let k = s::choose(7, "type");
    let (f, vals): (&str, [&str; 4]) = [
        ("byte", ["9", "10", "-128", "127"]),
        ("short", ["-9", "300", "-32768", "95"]),
        ("long", ["9999999995", "-7", "12", "-9999999995"]),
        ("dec", ["9.50", "10.25", "-0.05", "0.50"]),
        ("day", ["2024-02-09", "2024-02-10", "2023-12-31", "2024-02-28"]),
        ("flag", ["true", "false", "true", "false"]),
        ("double", ["9.5", "10.25", "-0.75", "0.5"]),
    ][k];
    let d: [u8; 2] = s::bytes_in(b'0', b'9', "lit");
    let n = (d[0] - b'0') as i64 * 10 + (d[1] - b'0') as i64;
    let neg = s::choose(2, "negative") == 1;
    let sg = if neg { "-" } else { "" };
    let m = if neg { -1 } else { 1 };
    let dd = format!("{}{}", d[0] as char, d[1] as char);
    // literal and its order relative to each value
    let nums = |x: [i64; 4], v: i64| x.map(|y| y.cmp(&v));
    let (lit, ord) = match k {
        0 => (format!("{sg}{dd}"), nums([9, 10, -128, 127], m * n)),
        1 => (format!("{sg}3{dd}"), nums([-9, 300, -32768, 95], m * (300 + n))),
        2 => (format!("{sg}99999999{dd}"), nums([9999999995, -7, 12, -9999999995], m * (9999999900 + n))),
        3 => (format!("{sg}{}.{}5", d[0] as char, d[1] as char), nums([950, 1025, -5, 50], m * (n * 10 + 5))),
        4 => {
            s::assume((1..=29).contains(&n) && !neg);
            (format!("2024-02-{dd}"), nums([9, 10, 0, 28], n))
        }
        5 => {
            s::assume(d[0] == b'0' && d[1] < b'2');
            (if d[1] == b'1' { "true" } else { "false" }.to_string(), nums([1, 0, 1, 0], (d[1] - b'0') as i64))
        }
        _ => (format!("{sg}{}.{}", d[0] as char, d[1] as char), [950i64, 1025, -75, 50].map(|y| y.cmp(&(m * n * 10)))),
    };
    s::assume(k != 6 || d[1] == b'0' || d[1] == b'5');
    let hive = s::choose(2, "hive") == 1;
    let parts: Vec<Vec<&str>> = vals.iter().map(|v| vec![*v]).collect();
    let dirs: Vec<String> = (0..4).map(|i| if k == 5 && i > 1 { format!("{}x", i) } else { dir(&[f], &[vals[i]], hive) }).collect();
    // the two booleans once each
    let c = if k == 5 { 2 } else { 4 };
    let names = table(&[f], &parts[..c], &dirs[..c], hive, if ops == 6 { s::choose(2, "enc") == 1 } else { hive }, false);
    let op = if ops == 6 { s::choose(6, "op") } else { [0, 2, 5][s::choose(3, "op")] };
    let e: Vec<bool> = ord[..c].iter().map(|o| cmp_op(op, *o)).collect();
    run(&[(f, OPS[op], &lit)], &names, &e);
    for bad in if k == 3 { ["x", "1.2.3", "5x", "-x"] } else { ["x", "1e999x", "2024-13-01", ""] } {
        let r = block_on(open().get_file_slices(&[(f, OPS[op], bad)]));
        s::check(r.is_err(), &format!("a literal of another type is an error ({bad})"));
    }
    s::check(block_on(open().get_file_slices(&[("nope", "=", "1")])).is_err(), "an unknown field is an error");
}
/// Three partition fields of different types and up to five filters, all of which must hold.
#[no_mangle]
pub extern "C" fn hv_prune_many() {
    let hive = s::choose(2, "hive") == 1;
    let f = ["p", "i", "day"];
    let v = [["a", "9", "2024-01-05"], ["a", "10", "2024-01-06"], ["b", "9", "2024-01-06"], ["b", "11", "2024-01-10"]];
    let parts: Vec<Vec<&str>> = v.iter().map(|x| x.to_vec()).collect();
    let dirs: Vec<String> = v.iter().map(|x| dir(&f, x, hive)).collect();
    let names = table(&f, &parts, &dirs, hive, s::choose(2, "enc") == 1, s::choose(2, "schema order") == 1);
    let p = (s::u8_in(b'a', b'c', "p") as char).to_string();
    let i = s::u8_in(b'8', b'9', "i");
    let d = s::u8_in(b'5', b'7', "day");
    let (li, ld) = ((i as char).to_string(), format!("2024-01-0{}", d as char));
    let (ni, nd) = ((i - b'0') as i32, (d - b'0') as i32);
    let all: [(&str, &str, &str, Box<dyn Fn(usize) -> bool>); 5] = [
        ("p", "<=", &p, Box::new(|x| v[x][0] <= p.as_str())),
        ("day", ">=", &ld, Box::new(|x| [5, 6, 6, 10][x] >= nd)),
        ("i", ">", &li, Box::new(|x| [9, 10, 9, 11][x] > ni)),
        ("day", "!=", "2024-01-10", Box::new(|x| x != 3)),
        ("p", "!=", "b", Box::new(|x| x < 2)),
    ];
    let first = s::choose(5, "first");
    let n = 3 + s::choose(3, "filters");
    let chosen: Vec<usize> = (0..n).map(|k| (first + 2 * k) % 5).collect();
    let fl: Vec<(&str, &str, &str)> = chosen.iter().map(|c| (all[*c].0, all[*c].1, all[*c].2)).collect();
    let e: Vec<bool> = (0..4).map(|x| chosen.iter().all(|c| (all[*c].3)(x))).collect();
    run(&fl, &names, &e);
}
