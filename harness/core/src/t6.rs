//! Filters, splits, file names, file groups from commit metadata.
use crate::hist::*;
use crate::store::*;
use crate::t4::cm;
use crate::t5::{cmp_op, OPS};
use arrow_array::*;
use arrow_schema::*;
use hudi_core::expr::filter::*;
use hudi_core::expr::ExprOperator;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::builder::*;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::FileGroup;
use std::str::FromStr;
use symrt as s;

fn schemable(f: &Filter, dt: DataType) -> SchemableFilter {
    let sc = Schema::new(vec![Field::new("x", DataType::Boolean, true), Field::new("c", dt, true)]);
    SchemableFilter::try_from((f.clone(), &sc)).unwrap()
}
fn bools(a: &BooleanArray) -> Vec<Option<bool>> {
    (0..a.len()).map(|i| if a.is_null(i) { None } else { Some(a.value(i)) }).collect()
}
/// Comparison and negation on an integer column with a null.
#[no_mangle]
pub extern "C" fn hv_filter_int() {
    let v = s::any_i32("v");
    let col = Int32Array::from(vec![Some(v), None, Some(7)]);
    let op = s::choose(6, "op");
    let lit = ["7", "0", "-1", "2147483647", "-2147483648", "12"][s::choose(6, "lit")];
    let n: i32 = lit.parse().unwrap();
    let f = Filter::try_from(("c", OPS[op], lit)).unwrap();
    let got = bools(&schemable(&f, DataType::Int32).apply_comparsion(&col).unwrap());
    s::check(got == vec![Some(cmp_op(op, v.cmp(&n))), None, Some(cmp_op(op, 7.cmp(&n)))], "comparison");
    let neg = f.negate().unwrap();
    let g2 = bools(&schemable(&neg, DataType::Int32).apply_comparsion(&col).unwrap());
    s::check((0..3).all(|i| g2[i] == got[i].map(|x| !x)), "negation is the complement, null stays null");
    s::check(neg.negate().unwrap().operator == f.operator && neg.field_name == "c" && neg.field_value == lit, "double negation");
    let back: (String, String, String) = f.clone().into();
    let f2 = Filter::try_from((back.0.as_str(), back.1.as_str(), back.2.as_str())).unwrap();
    s::check(f2.field_name == f.field_name && f2.operator == f.operator && f2.field_value == f.field_value, "tuple round trip");
    s::cover("end");
}
#[no_mangle]
pub extern "C" fn hv_filter_long() {
    let v = s::any_i64("v");
    let col = Int64Array::from(vec![Some(v), None]);
    let op = s::choose(6, "op");
    let d: [u8; 2] = s::bytes_in(b'0', b'9', "lit");
    let lit = format!("{}{}", d[0] as char, d[1] as char);
    let n = (d[0] - b'0') as i64 * 10 + (d[1] - b'0') as i64;
    let f = Filter::try_from(("c", OPS[op], lit.as_str())).unwrap();
    let got = bools(&schemable(&f, DataType::Int64).apply_comparsion(&col).unwrap());
    s::check(got == vec![Some(cmp_op(op, v.cmp(&n))), None], "comparison");
    s::cover("end");
}
#[no_mangle]
pub extern "C" fn hv_filter_str() {
    let n = s::choose(3, "len");
    let mut b = vec![b' '; n];
    s::fill_in(&mut b, b' ', b'~', "v");
    let v = String::from_utf8(b).unwrap();
    let l: [u8; 2] = s::bytes_in(b' ', b'~', "lit");
    let lit = String::from_utf8(l[..1 + s::choose(2, "litlen")].to_vec()).unwrap();
    let col = StringArray::from(vec![Some(v.as_str()), None, Some("")]);
    let op = s::choose(6, "op");
    let f = [col_fn0, col_fn1, col_fn2, col_fn3, col_fn4, col_fn5][op](&lit);
    s::check(f.operator.to_string() == OPS[op], "operator token");
    let got = bools(&schemable(&f, DataType::Utf8).apply_comparsion(&col).unwrap());
    s::check(got == vec![Some(cmp_op(op, v.as_bytes().cmp(lit.as_bytes()))), None, Some(cmp_op(op, b"".as_slice().cmp(lit.as_bytes())))], "comparison");
    s::cover("end");
}
fn col_fn0(l: &str) -> Filter { col("c").eq(l) }
fn col_fn1(l: &str) -> Filter { col("c").ne(l) }
fn col_fn2(l: &str) -> Filter { col("c").lt(l) }
fn col_fn3(l: &str) -> Filter { col("c").lte(l) }
fn col_fn4(l: &str) -> Filter { col("c").gt(l) }
fn col_fn5(l: &str) -> Filter { col("c").gte(l) }
/// A literal is taken as exactly the integer it spells, and is an error if it spells none of the column's type.
#[no_mangle]
pub extern "C" fn hv_filter_literal() {
    let n = s::choose(6, "len");
    let mut b = vec![b' '; n];
    s::fill_in(&mut b, b' ', b'~', "lit");
    let lit = String::from_utf8(b.clone()).unwrap();
    let (neg, digits) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, &b[..]),
    };
    let ok = !digits.is_empty() && digits.iter().all(|c| c.is_ascii_digit());
    let (long, op) = (s::choose(2, "long") == 1, s::choose(6, "op"));
    let dt = if long { DataType::Int64 } else { DataType::Int32 };
    let sc = Schema::new(vec![Field::new("x", DataType::Utf8, true), Field::new("c", dt, true)]);
    let f = Filter::try_from(("c", OPS[op], lit.as_str())).unwrap();
    match SchemableFilter::try_from((f, &sc)) {
        Err(_) => {
            s::check(!ok, "an integer is accepted");
            s::cover("error");
        }
        Ok(sf) => {
            s::check(ok, "a literal that is no integer is an error");
            let mut x = 0i32;
            for d in digits {
                x = x * 10 + (d - b'0') as i32;
            }
            if neg {
                x = -x;
            }
            let v = s::any_i32("v");
            let got = if long {
                bools(&sf.apply_comparsion(&Int64Array::from(vec![v as i64])).unwrap())
            } else {
                bools(&sf.apply_comparsion(&Int32Array::from(vec![v])).unwrap())
            };
            s::check(got == vec![Some(cmp_op(op, v.cmp(&x)))], "compares with the literal's value");
            s::cover("value");
        }
    }
}
/// Literals beyond the column type's range, of the wrong type, and filters on unknown columns are errors.
#[no_mangle]
pub extern "C" fn hv_filter_range() {
    let op = s::choose(6, "op");
    let (dt, lit, ok) = [
        (DataType::Int8, "127", true), (DataType::Int8, "128", false), (DataType::Int8, "-129", false),
        (DataType::Int16, "-32768", true), (DataType::Int16, "32768", false),
        (DataType::Int32, "2147483647", true), (DataType::Int32, "2147483648", false), (DataType::Int32, "-2147483649", false),
        (DataType::Int64, "-9223372036854775808", true), (DataType::Int64, "9223372036854775808", false), (DataType::Int64, "99999999999999999999", false),
        (DataType::UInt32, "4294967295", true), (DataType::UInt32, "-1", false),
        (DataType::Boolean, "true", true), (DataType::Boolean, "maybe", false),
        (DataType::Date32, "2024-02-29", true), (DataType::Date32, "2023-02-29", false),
        (DataType::Float64, "1.5", true), (DataType::Float64, "1.5x", false),
        (DataType::Utf8, "anything", true),
    ][s::choose(20, "lit")].clone();
    let name = ["c", "d"][s::choose(2, "col")];
    let sc = Schema::new(vec![Field::new("c", dt, true)]);
    let r = SchemableFilter::try_from((Filter::try_from((name, OPS[op], lit)).unwrap(), &sc));
    s::check(r.is_ok() == (ok && name == "c"), "accepted exactly when it is a value of the column's type");
    s::cover(if r.is_ok() { "ok" } else { "error" });
}
/// Operator tokens: exactly the six are accepted.
#[no_mangle]
pub extern "C" fn hv_filter_ops() {
    let n = s::choose(4, "len");
    let mut b = vec![0; n];
    s::fill_in(&mut b, 0, 127, "op");
    let t = String::from_utf8(b).unwrap();
    let i = OPS.iter().position(|o| *o == t);
    match (ExprOperator::from_str(&t), i) {
        (Ok(o), Some(i)) => {
            s::check(o.to_string() == OPS[i], "token");
            s::cover("accepted")
        }
        (Err(_), None) => s::cover("rejected"),
        _ => s::check(false, "accepts exactly the six operators"),
    }
    s::check(from_str_tuples(&[("a", "=", "1"), ("b", t.as_str(), "2")]).is_ok() == i.is_some(), "one bad filter rejects all");
}
/// A filter made from any name, operator and value holds and gives back exactly these.
#[no_mangle]
pub extern "C" fn hv_filter_tuple() {
    let text = |n: &str| {
        let k = s::choose(3, n);
        let mut b = vec![0; k];
        s::fill_in(&mut b, 0, 127, n);
        String::from_utf8(b).unwrap()
    };
    let (n, v) = (text("name"), text("value"));
    let k = s::choose(6, "operator");
    let build = s::choose(2, "built") == 1;
    let f = if build {
        let c = col(n.clone());
        s::check(c.name() == n, "column name");
        [c.eq(v.clone()), c.ne(v.clone()), c.lt(v.clone()), c.lte(v.clone()), c.gt(v.clone()), c.gte(v.clone())][["=", "!=", "<", "<=", ">", ">="].iter().position(|o| *o == OPS[k]).unwrap()].clone()
    } else {
        let f = Filter::try_from((n.as_str(), OPS[k], v.as_str()));
        s::check(f.is_ok(), "every name and value is accepted");
        f.unwrap()
    };
    s::check(f.field_name == n && f.field_value == v && f.operator.to_string() == OPS[k], "parts");
    let t: (String, String, String) = f.negate().and_then(|g| g.negate()).unwrap().into();
    s::check(t == (n, OPS[k].to_string(), v), "tuple");
    s::cover(if build { "built" } else { "parsed" });
}
/// Splits: a partition of the file slices, whatever the requested number.
fn splits(max: u8) {
    let mut m = 1 + s::choose(max, "slices");
    let c = cm("20240101000000100".into(), Kind::Commit, (0..m).map(crate::t3::w).collect(), vec![]);
    let h = vec![c];
    crate::t3::lay(&h, None, 0, COW, &crate::t3::nopart).install();
    let t = open();
    // small numbers and numbers close to the maximum
    let n = if s::choose(2, "huge") == 1 { usize::MAX - s::any_u8("n") as usize } else { s::any_u8("n") as usize };
    let api = s::choose(3, "api");
    let sp = match api {
        0 => block_on(t.get_file_slices_splits(n, &[])),
        1 => block_on(t.get_file_slices_splits_as_of(n, "20240101000000100", &[])),
        _ => {
            m = 0;
            block_on(t.get_file_slices_splits_as_of(n, "20230101000000100", &[]))
        }
    }
    .unwrap();
    s::check(m > 0 || sp.is_empty(), "no slices, no splits");
    let mut seen = vec![0; m];
    for chunk in &sp {
        s::check(!chunk.is_empty(), "no empty split");
        for x in chunk {
            for (i, k) in seen.iter_mut().enumerate() {
                if x.base_file.file_id == fid(i) {
                    *k += 1;
                }
            }
        }
    }
    s::check(seen.iter().all(|k| *k == 1), "every slice in exactly one split");
    s::check(sp.len() <= n.max(1), "at most n splits");
    let biggest = sp.iter().map(|c| c.len()).max().unwrap_or(0);
    let k = n.max(1);
    s::check(m == 0 || if k >= m { biggest == 1 } else { (biggest as u8 - 1) * (k as u8) < m as u8 }, "splits are even: none larger than ceil(slices/n)");
    s::observe_u64(sp.len() as u64, "splits");
    s::cover(if n > m { "more" } else { "fewer" });
}
#[no_mangle]
pub extern "C" fn hv_splits() {
    splits(4)
}
#[no_mangle]
pub extern "C" fn hv_splits9() {
    splits(9)
}
// ---- file names ----
fn sym_part(max: u8, alphabet: &[u8], name: &str) -> String {
    let n = s::choose(max + 1, name);
    let mut b = vec![0u8; n];
    for x in b.iter_mut() {
        *x = alphabet[s::choose(alphabet.len() as u8, name)];
    }
    String::from_utf8(b).unwrap()
}
/// Base file names: `<id>_<token>_<instant>.<ext>`, and nothing else.
#[no_mangle]
pub extern "C" fn hv_basename() {
    let stem = sym_part(5, b"a-_.", "stem");
    let tail = ["_0-1-1_20240101000000100.parquet", "_0-1_2.parquet", ".parquet", "_20240101000000100.parquet", "", "_1.parquet_x"][s::choose(6, "tail")];
    let name = format!("{stem}{tail}");
    let exp = name.rsplit_once('.').and_then(|(st, ext)| {
        let p: Vec<&str> = st.split('_').collect();
        (p.len() == 3).then(|| (p[0].to_string(), p[1].to_string(), p[2].to_string(), ext.to_string()))
    });
    match (BaseFile::from_str(&name), exp) {
        (Ok(b), Some(e)) => {
            s::check((b.file_id.clone(), b.write_token.clone(), b.commit_timestamp.clone(), b.extension.clone()) == e, "parts");
            s::check(b.file_name() == name, "encodes back to the same name");
            s::cover("valid");
        }
        (Err(_), None) => s::cover("invalid"),
        (Ok(b), None) => {
            s::observe(b.file_name().as_bytes(), "accepted");
            s::check(false, "a malformed base file name is an error")
        }
        _ => s::check(false, "a well-formed base file name is accepted"),
    }
}
/// Bytes anywhere in a well-formed name.
#[no_mangle]
pub extern "C" fn hv_basename_bytes() {
    let mut n = b"fg-0_0-1-1_20240101000000100.parquet".to_vec();
    let at = s::choose(n.len() as u8 - 1, "at");
    s::fill_in(&mut n[at..at + 2], 1, 126, "b");
    let name = String::from_utf8(n).unwrap();
    let exp = name.rsplit_once('.').and_then(|(st, ext)| {
        let p: Vec<&str> = st.split('_').collect();
        (p.len() == 3).then(|| (p[0].to_string(), p[1].to_string(), p[2].to_string(), ext.to_string()))
    });
    match BaseFile::from_str(&name) {
        Ok(b) => {
            s::check(Some((b.file_id.clone(), b.write_token.clone(), b.commit_timestamp.clone(), b.extension.clone())) == exp, "parts");
            s::check(b.file_name() == name, "encodes back to the same name");
            s::cover("valid");
        }
        Err(_) => {
            s::check(exp.is_none(), "a well-formed base file name is accepted");
            s::cover("invalid")
        }
    }
}
fn log_expect(name: &str) -> Option<(String, String, String, String, String)> {
    let r = name.strip_prefix('.')?;
    let (id, rest) = r.split_once('_')?;
    let (mid, tok) = rest.rsplit_once('_')?;
    let p: Vec<&str> = mid.split('.').collect();
    if p.len() != 3 || id.is_empty() || tok.is_empty() || p.iter().any(|x| x.is_empty()) {
        return None;
    }
    Some((id.into(), p[0].into(), p[1].into(), p[2].into(), tok.into()))
}
fn logname(name: &str) {
    let exp = log_expect(name);
    match LogFile::from_str(name) {
        Ok(l) => {
            s::check(Some((l.file_id.clone(), l.base_commit_timestamp.clone(), l.extension.clone(), l.version.clone(), l.write_token.clone())) == exp, "parts");
            s::check(l.file_name() == name, "encodes back to the same name");
            s::cover("valid");
        }
        Err(_) => {
            s::check(exp.is_none(), "a well-formed log file name is accepted");
            s::cover("invalid")
        }
    }
}
#[no_mangle]
pub extern "C" fn hv_logname_bytes() {
    let mut n = b".fg-0_20240101000000100.log.1_0-1-1".to_vec();
    let at = s::choose(n.len() as u8 - 1, "at");
    s::fill_in(&mut n[at..at + 2], 1, 126, "b");
    logname(&String::from_utf8(n).unwrap())
}
#[no_mangle]
pub extern "C" fn hv_logname() {
    let a = sym_part(4, b"a._", "a");
    let b = sym_part(4, b"1._", "b");
    logname(&format!(".{a}{}{b}", ["_2024.log.1_0", "", "_1.l", "é_1.log.2_"][s::choose(4, "mid")]))
}
/// Log files of a slice are ordered by base instant, numeric version, write token.
#[no_mangle]
pub extern "C" fn hv_logorder() {
    let mk = |i: usize| {
        let d: [u8; 3] = s::bytes_in(b'0', b'9', "d");
        let two = s::choose(2, "two digits") == 1;
        s::assume(d[1] != b'0' );
        let ver = if two { format!("{}{}", d[1] as char, d[2] as char) } else { (d[1] as char).to_string() };
        let vn = if two { (d[1] - b'0') as u32 * 10 + (d[2] - b'0') as u32 } else { (d[1] - b'0') as u32 };
        let ts = format!("2024010100000010{}", d[0] as char);
        let tok = format!("{}-0-1", i % 2);
        (format!(".fg0-0_{ts}.log.{ver}_{tok}"), (d[0], vn, i % 2))
    };
    let (a, b) = (mk(0), mk(1));
    let (x, y) = (LogFile::from_str(&a.0).unwrap(), LogFile::from_str(&b.0).unwrap());
    s::check(x.cmp(&y) == a.1.cmp(&b.1), "order of two log files");
    s::check(y.cmp(&x) == b.1.cmp(&a.1), "order is antisymmetric");
    s::cover("end");
}
#[no_mangle]
pub extern "C" fn hv_logorder3() {
    let mut fg = FileGroup::new_with_base_file_name(fid(0), "".into(), &base_name(0, "20240101000000100")).unwrap();
    let mut e: Vec<(u32, String)> = vec![];
    for i in 0..3 {
        let d: [u8; 2] = s::bytes_in(b'0', b'9', "d");
        let two = s::choose(2, "two digits") == 1;
        s::assume(d[0] != b'0');
        let ver = if two { format!("{}{}", d[0] as char, d[1] as char) } else { (d[0] as char).to_string() };
        let vn = if two { (d[0] - b'0') as u32 * 10 + (d[1] - b'0') as u32 } else { (d[0] - b'0') as u32 };
        s::assume(e.iter().all(|x| x.0 != vn));
        let n = format!(".fg0-0_20240101000000100.log.{ver}_{i}-0-1");
        fg.add_log_file_from_name(&n).unwrap();
        e.push((vn, n));
    }
    e.sort();
    let sl = fg.get_file_slice_as_of("20240101000000100").unwrap();
    let got: Vec<String> = sl.log_files.iter().map(|l| l.file_name()).collect();
    s::check(got == e.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "log files of the slice in version order");
    s::cover("end");
}
// ---- file groups from commit metadata ----
/// A deltacommit whose write stats list log files of two file groups in several stats.
#[no_mangle]
pub extern "C" fn hv_md_groups() {
    let n = 3;
    let mut stats: Vec<Vec<String>> = vec![vec![], vec![]];
    let mut exp: Vec<((usize, usize), String)> = vec![];
    let mut seen: Vec<(usize, usize)> = vec![];
    let d: [u8; 3] = s::bytes_in(b'1', b'9', "v");
    for i in 0..n {
        let (p, f) = (s::choose(2, "part"), s::choose(2, "fg"));
        let log = format!(".{}_20240101000000100.log.{}_{i}-0-1", fid(f), d[i] as char);
        stats[p].push(format!(
            r#"{{"fileId":"{}","path":"{}/{log}","baseFile":"{}","logFiles":["{log}"]}}"#,
            fid(f),
            ["a", "b"][p],
            base_name(f, "20240101000000100")
        ));
        exp.push(((p, f), log));
        if !seen.contains(&(p, f)) {
            seen.push((p, f));
        }
    }
    let parts: Vec<String> = (0..2).filter(|p| !stats[*p].is_empty()).map(|p| format!(r#""{}":[{}]"#, ["a", "b"][p], stats[p].join(","))).collect();
    let md: serde_json::Map<String, serde_json::Value> = serde_json::from_str(&format!(r#"{{"partitionToWriteStats":{{{}}}}}"#, parts.join(","))).unwrap();
    let got = build_file_groups(&md).unwrap();
    s::check(got.len() == seen.len(), "one file group per written file group");
    for (p, f) in &seen {
        let g = got.iter().find(|g| g.partition_path == ["a", "b"][*p] && g.file_id == fid(*f));
        s::check(g.is_some(), "every written file group is there");
        let Some(g) = g else { continue };
        let sl = g.get_file_slice_as_of("20240101000000100").unwrap();
        s::check(sl.base_file.file_name() == base_name(*f, "20240101000000100"), "base file");
        let want: Vec<&String> = exp.iter().filter(|x| x.0 == (*p, *f)).map(|x| &x.1).collect();
        s::check(sl.log_files.len() == want.len() && want.iter().all(|w| sl.log_files.iter().any(|l| l.file_name() == **w)), "every log file of every write stat");
    }
    s::cover("end");
}
/// Malformed commit metadata is an error, not a panic and not silently partial.
#[no_mangle]
pub extern "C" fn hv_md_bad() {
    let bad = [
        (r#"{}"#, false),
        (r#"{"partitionToWriteStats":[]}"#, false),
        (r#"{"partitionToWriteStats":{"a":{}}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"path":"a/f_1_2.parquet"}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":1,"path":"a/f_1_2.parquet"}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f"}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","path":7}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","path":".."}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","path":"a/nope"}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","baseFile":"f_1_2.parquet"}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","baseFile":3,"logFiles":[]}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","baseFile":"f_1_2.parquet","logFiles":{}}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","baseFile":"f_1_2.parquet","logFiles":[1]}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","baseFile":"f_1_2.parquet","logFiles":["x"]}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","baseFile":"f_1_2.parquet","logFiles":[".f_3.log.1_0"]}]}}"#, false),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","baseFile":"f_1_2.parquet","logFiles":[".f_2.log.1_0"]}]}}"#, true),
        (r#"{"partitionToWriteStats":{"a":[{"fileId":"f","path":"a/f_1_2.parquet"}]}}"#, true),
        (r#"{"partitionToWriteStats":{}}"#, true),
    ];
    let (j, ok) = bad[s::choose(bad.len() as u8, "case")];
    let md: serde_json::Map<String, serde_json::Value> = serde_json::from_str(j).unwrap();
    s::check(build_file_groups(&md).is_ok() == ok, "accepted exactly when well-formed");
    let rep = [
        (r#"{}"#, false),
        (r#"{"partitionToReplaceFileIds":[]}"#, false),
        (r#"{"partitionToReplaceFileIds":{"a":"f"}}"#, false),
        (r#"{"partitionToReplaceFileIds":{"a":[1]}}"#, false),
        (r#"{"partitionToReplaceFileIds":{"a":["f","g"],"b":["f"]}}"#, true),
    ];
    let k = s::choose(rep.len() as u8, "replaced");
    let md: serde_json::Map<String, serde_json::Value> = serde_json::from_str(rep[k].0).unwrap();
    let r = build_replaced_file_groups(&md);
    s::check(r.is_ok() == rep[k].1, "replaced file groups accepted exactly when well-formed");
    if let Ok(r) = r {
        s::check(r.len() == 3, "all replaced file groups");
    }
    s::cover("end");
}
