//! Avro log records become exactly the Arrow values they hold.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::*;
use arrow_schema::DataType as D;
use hudi_core::config::HudiConfigs;
use hudi_core::file_group::log_file::reader::LogFileReader;
use hudi_core::storage::Storage;
use hudi_core::verif_hooks::InstantRange;
use std::collections::HashMap;
use std::sync::Arc;
use symrt as s;

const NOW: &str = "20240101000000600";
#[derive(Clone)]
enum T {
    Bool,
    Int,
    Long,
    Float,
    Double,
    Bytes,
    Str,
    Enum,
    Fixed,
    Uuid,
    Date,
    TimeMs,
    TimeUs,
    TsMs,
    TsUs,
    TsNs,
    LtsMs,
    LtsUs,
    LtsNs,
    Arr(Box<T>),
    Rec(Vec<T>),
    /// Union with null, first or last.
    Opt(Box<T>, bool),
}
use T::*;
fn arr(t: T) -> T {
    Arr(Box::new(t))
}
fn opt(t: T) -> T {
    Opt(Box::new(t), true)
}
#[derive(Clone)]
enum J {
    Null,
    Bits(u64),
    /// A number and its variable-length encoding.
    Var(u64, Vec<u8>),
    Bin(Vec<u8>),
    Seq(Vec<J>),
}
impl PartialEq for J {
    fn eq(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bits(a) | J::Var(a, _), J::Bits(b) | J::Var(b, _)) => a == b,
            (J::Bin(a), J::Bin(b)) => a == b,
            (J::Seq(a), J::Seq(b)) => a == b,
            _ => false,
        }
    }
}
/// Any number of at most `max` groups of 7 bits, the last one below `top`.
fn var(max: usize, top: u8) -> J {
    let n = s::choose(max as u8, "groups") + 1;
    let mut b = vec![0; n];
    s::fill_in(&mut b, 0, 127, "group");
    s::assume(n < max || b[n - 1] < top);
    let z = b.iter().rev().fold(0u64, |a, g| a << 7 | *g as u64);
    b[..n - 1].iter_mut().for_each(|g| *g |= 0x80);
    J::Var((z >> 1) ^ (z & 1).wrapping_neg(), b)
}
fn json(t: &T, n: &mut usize) -> String {
    let lg = |b: &str, l: &str| format!(r#"{{"type":"{b}","logicalType":"{l}"}}"#);
    *n += 1;
    let id = *n;
    match t {
        Bool => r#""boolean""#.into(),
        Int => r#""int""#.into(),
        Long => r#""long""#.into(),
        Float => r#""float""#.into(),
        Double => r#""double""#.into(),
        Bytes => r#""bytes""#.into(),
        Str => r#""string""#.into(),
        Enum => format!(r#"{{"type":"enum","name":"e{id}","symbols":["A","Bc","D"]}}"#),
        Fixed => format!(r#"{{"type":"fixed","name":"x{id}","size":3}}"#),
        Uuid => lg("string", "uuid"),
        Date => lg("int", "date"),
        TimeMs => lg("int", "time-millis"),
        TimeUs => lg("long", "time-micros"),
        TsMs => lg("long", "timestamp-millis"),
        TsUs => lg("long", "timestamp-micros"),
        TsNs => lg("long", "timestamp-nanos"),
        LtsMs => lg("long", "local-timestamp-millis"),
        LtsUs => lg("long", "local-timestamp-micros"),
        LtsNs => lg("long", "local-timestamp-nanos"),
        Arr(i) => format!(r#"{{"type":"array","items":{}}}"#, json(i, n)),
        Rec(fs) => {
            let fs: Vec<String> = fs.iter().enumerate().map(|(i, f)| format!(r#"{{"name":"g{i}","type":{}}}"#, json(f, n))).collect();
            format!(r#"{{"type":"record","name":"r{id}","fields":[{}]}}"#, fs.join(","))
        }
        Opt(i, true) => format!(r#"["null",{}]"#, json(i, n)),
        Opt(i, false) => format!(r#"[{},"null"]"#, json(i, n)),
    }
}
/// A value of the type: full range for scalars unless `small`, arrays of up to `max` items.
fn gen(t: &T, small: bool, max: usize) -> J {
    match t {
        Bool => J::Bits(s::u8_in(0, 1, "bool") as u64),
        Enum => J::Bits(s::u8_in(0, 2, "enum") as u64),
        Int | Date | TimeMs => if small { var(1, 128) } else { var(5, 16) },
        Float => J::Bits(s::any_u32("float") as u64),
        Double => J::Bits(s::any_u64("double")),
        Bytes | Str => {
            let mut b = vec![0; s::choose(if small { 1 } else { 3 }, "len") + small as usize];
            s::fill_in(&mut b, 0, if matches!(t, Str) { 127 } else { 255 }, "bytes");
            J::Bin(b)
        }
        Fixed => J::Bin(s::bytes::<3>("fixed").to_vec()),
        Uuid => J::Bin(vec![[0x12, 0xf0][s::choose(2, "uuid")]; 16]),
        Arr(i) => J::Seq((0..s::choose(max as u8 + 1, "items")).map(|_| gen(i, small, max)).collect()),
        Rec(fs) => J::Seq(fs.iter().map(|f| gen(f, small, max)).collect()),
        Opt(i, _) => {
            if s::choose(2, "null") == 0 {
                J::Null
            } else {
                gen(i, small, max)
            }
        }
        _ => if small { var(1, 128) } else { var(10, 2) },
    }
}
fn enc(t: &T, v: &J, b: &mut Vec<u8>) {
    match (t, v) {
        (Opt(i, first), v) => {
            let null = *v == J::Null;
            b.push(if null != *first { 2 } else { 0 });
            if !null {
                enc(i, v, b)
            }
        }
        (Bool, J::Bits(x)) => b.push(*x as u8),
        (Float, J::Bits(x)) => b.extend((*x as u32).to_le_bytes()),
        (Double, J::Bits(x)) => b.extend(x.to_le_bytes()),
        (Fixed, J::Bin(x)) => b.extend(x),
        (Uuid, J::Bin(x)) => {
            let h: Vec<String> = x.iter().map(|c| format!("{c:02x}")).collect();
            b.extend(av_str(format!("{}-{}-{}-{}-{}", h[..4].concat(), h[4..6].concat(), h[6..8].concat(), h[8..10].concat(), h[10..].concat()).as_bytes()))
        }
        (_, J::Bin(x)) => b.extend(av_str(x)),
        (Arr(i), J::Seq(xs)) => {
            if !xs.is_empty() {
                b.extend(av_long(xs.len() as i64));
                xs.iter().for_each(|x| enc(i, x, b));
            }
            b.push(0)
        }
        (Rec(fs), J::Seq(xs)) => fs.iter().zip(xs).for_each(|(f, x)| enc(f, x, b)),
        (_, J::Var(_, x)) => b.extend(x),
        (_, J::Bits(x)) => b.extend(av_long(*x as i64)),
        _ => unreachable!(),
    }
}
fn rd(t: &T, a: &dyn Array, i: usize) -> J {
    macro_rules! p {
        ($($t:ty),*) => {{ $( if let Some(a) = a.as_primitive_opt::<$t>() { return J::Bits(a.value(i) as i64 as u64); } )* s::check(false, "column type"); J::Null }};
    }
    if let Opt(t, _) = t {
        return if a.is_null(i) { J::Null } else { rd(t, a, i) };
    }
    s::check(a.is_valid(i), "a value is never null");
    match t {
        Bool => J::Bits(a.as_boolean().value(i) as u64),
        Float => J::Bits(a.as_primitive::<Float32Type>().value(i).to_bits() as u64),
        Double => J::Bits(a.as_primitive::<Float64Type>().value(i).to_bits()),
        Bytes => J::Bin(a.as_binary::<i32>().value(i).to_vec()),
        Str => J::Bin(a.as_string::<i32>().value(i).as_bytes().to_vec()),
        Enum => J::Bits(["A", "Bc", "D"].iter().position(|x| *x == a.as_string::<i32>().value(i)).unwrap_or(9) as u64),
        Fixed | Uuid => J::Bin(a.as_fixed_size_binary().value(i).to_vec()),
        Int => p!(Int32Type),
        Long => p!(Int64Type),
        Date => p!(Date32Type),
        TimeMs => p!(Time32MillisecondType),
        TimeUs => p!(Time64MicrosecondType),
        TsMs | LtsMs => p!(TimestampMillisecondType),
        TsUs | LtsUs => p!(TimestampMicrosecondType),
        // avro 0.17 reads nanosecond timestamps as plain numbers
        TsNs | LtsNs => p!(TimestampNanosecondType, Int64Type),
        Arr(t) => {
            let v = a.as_list::<i32>().value(i);
            J::Seq((0..v.len()).map(|k| rd(t, &*v, k)).collect())
        }
        Rec(fs) => J::Seq(fs.iter().enumerate().map(|(k, f)| rd(f, &**a.as_struct().column(k), i)).collect()),
        Opt(..) => unreachable!(),
    }
}
fn decode(schema: &str, recs: &[Vec<u8>]) -> Result<Vec<RecordBatch>, String> {
    let log = block(1, 3, &[(INSTANT, NOW), (SCHEMA, schema)], &avro_content(recs));
    let mut st = MemStore::new();
    st.put("log", log);
    st.install();
    let conf = Arc::new(HudiConfigs::new([("hoodie.base.path", BASE)]));
    block_on(async {
        let st = Storage::new(Arc::new(HashMap::new()), conf.clone()).unwrap();
        let mut r = LogFileReader::new(conf, st, "log").await.unwrap();
        r.read_all_blocks(&InstantRange::up_to(NOW, "utc"))
    })
    .map(|bs| bs.iter().flat_map(|b| b.record_batches.clone()).collect())
    .map_err(|e| e.to_string())
}
/// `n` records of the column types round-trip.
fn conv(ts: &[T], n: usize, small: bool, max: usize) {
    let top = Rec(ts.to_vec());
    let schema = json(&top, &mut 0);
    let rows: Vec<J> = (0..n).map(|i| gen(&top, small || i > 0, max)).collect();
    let recs: Vec<Vec<u8>> = rows
        .iter()
        .map(|r| {
            let mut b = vec![];
            enc(&top, r, &mut b);
            b
        })
        .collect();
    let bs = decode(&schema, &recs);
    s::check(bs.is_ok(), "supported types are read");
    let bs = bs.unwrap();
    s::check(bs.iter().map(|b| b.num_rows()).sum::<usize>() == n, "one row per record");
    let b = &bs[0];
    for (i, t) in ts.iter().enumerate() {
        let f = b.schema().field(i).clone();
        s::check(*f.name() == format!("g{i}") && f.is_nullable() == matches!(t, Opt(..)), "column name and nullability");
    }
    let all = bs.iter().flat_map(|b| (0..b.num_rows()).map(|i| J::Seq(ts.iter().enumerate().map(|(k, t)| rd(t, &**b.column(k), i)).collect())));
    for (got, exp) in all.zip(&rows) {
        s::check(got == *exp, "the row holds the record's values");
    }
    s::cover(if rows.iter().any(|r| matches!(r, J::Seq(v) if v.contains(&J::Null))) { "null" } else { "values" });
}
#[no_mangle]
pub extern "C" fn hv_avro_scalar() {
    let all = [Bool, Int, Long, Float, Double, Bytes, Str, Enum, Fixed, Uuid, Date, TimeMs, TimeUs, TsMs, TsUs, TsNs, LtsMs, LtsUs, LtsNs];
    let t = all[s::choose(all.len() as u8, "type")].clone();
    let t = match s::choose(3, "null") {
        0 => t,
        1 => Opt(Box::new(t), true),
        _ => Opt(Box::new(t), false),
    };
    // between two columns, whose values must not move
    conv(&[Bool, t, Bool], 2, false, 0);
}
fn list(n: usize) {
    let e = [Bool, Int, Long, Float, Double, Str, Enum][s::choose(7, "item")].clone();
    let e = if s::choose(2, "nullable item") == 1 { opt(e) } else { e };
    let l = if s::choose(2, "nullable list") == 1 { opt(arr(e)) } else { arr(e) };
    conv(&[l, Bool], n, true, 2);
}
#[no_mangle]
pub extern "C" fn hv_avro_list() {
    list(2)
}
#[no_mangle]
pub extern "C" fn hv_avro_list3() {
    list(3)
}
#[no_mangle]
pub extern "C" fn hv_avro_nested() {
    let r = || Rec(vec![opt(Int), Str]);
    let o = |t: T| if s::choose(2, "opt") == 1 { opt(t) } else { t };
    let t = match s::choose(6, "shape") {
        0 => o(Rec(vec![Int, o(r())])),
        1 => o(arr(o(r()))),
        2 => o(arr(o(arr(o(Int))))),
        3 => o(Rec(vec![o(arr(o(Bool)))])),
        4 => arr(arr(Rec(vec![Int]))),
        _ => o(arr(Rec(vec![arr(Rec(vec![Int]))]))),
    };
    conv(&[t, Int], 2, true, 2);
}
#[no_mangle]
pub extern "C" fn hv_avro_unsupported() {
    let l = |b: &str, l: &str| format!(r#"{{"type":"{b}","logicalType":"{l}","precision":4,"scale":2}}"#);
    let lst = |t: &str| format!(r#"{{"type":"array","items":{t}}}"#);
    let rec = r#"{"type":"record","name":"n","fields":[{"name":"x","type":"int"}]}"#;
    // every value is encoded by zero bytes: zero, empty or the first variant
    let (ty, second): (String, &str) = match s::choose(10, "type") {
        0 => (r#"{"type":"map","values":"int"}"#.into(), r#""int""#),
        1 => (r#"["null","int","string"]"#.into(), r#""int""#),
        2 => (l("bytes", "decimal"), r#""int""#),
        3 => (rec.into(), r#""n""#),
        4 => (r#"{"type":"record","name":"q","fields":[{"name":"x","type":["null","q"]}]}"#.into(), r#""int""#),
        5 => (r#"{"type":"fixed","name":"d","size":12,"logicalType":"duration"}"#.into(), r#""int""#),
        6 => (lst(&l("long", "timestamp-millis")), r#""int""#),
        7 => (lst(r#""bytes""#), r#""int""#),
        8 => (lst(r#"{"type":"map","values":"int"}"#), r#""int""#),
        _ => (r#""null""#.into(), r#""int""#),
    };
    let ty = match s::choose(3, "in") {
        0 => ty,
        1 if !ty.starts_with('[') && ty != r#""null""# => format!(r#"[{ty},"null"]"#),
        _ => format!(r#"{{"type":"record","name":"w","fields":[{{"name":"i","type":{ty}}}]}}"#),
    };
    let schema = format!(r#"{{"type":"record","name":"r","fields":[{{"name":"a","type":{ty}}},{{"name":"b","type":{second}}}]}}"#);
    let r = decode(&schema, &[vec![0; 24]]);
    s::observe_u64(r.is_ok() as u64, "ok");
    match r {
        Ok(b) => {
            s::check(b[0].num_rows() == 1 && b[0].num_columns() == 2, "one row per record");
            s::cover("read");
        }
        Err(_) => s::cover("error"),
    }
}
