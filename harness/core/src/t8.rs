//! Log files: framing, order of files and blocks, corruption.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use arrow_array::*;
use arrow_schema::*;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::reader::FileGroupReader;
use std::str::FromStr;
use std::sync::Arc;
use symrt as s;

const C0: &str = "20240101000000500";
fn slice(logs: &[String]) -> FileSlice {
    let mut f = FileSlice::new(BaseFile::from_str(&base_name(0, C0)).unwrap(), String::new());
    for l in logs {
        f.log_files.insert(LogFile::from_str(l).unwrap());
    }
    f
}
fn reader(opts: &[(&str, &str)]) -> FileGroupReader {
    let mut o = vec![("hoodie.table.record.merge.strategy", "append_only"), ("hoodie.populate.meta.fields", "false")];
    o.extend(opts);
    FileGroupReader::new_with_options(BASE, o).unwrap()
}
fn vals(b: &RecordBatch) -> Vec<i32> {
    let c = b.column_by_name("val").unwrap().as_any().downcast_ref::<Int32Array>().unwrap();
    (0..c.len()).map(|i| c.value(i)).collect()
}
/// Blocks of every kind and format version: all records, in order of file version and position.
fn frame(nblocks: usize, kinds: u8) {
    let mut st = MemStore::new();
    st.put(&base_name(0, C0), parquet(&batch(&[rec(C0, 0, "k", 1, 1)], &[])));
    let d = "20240101000000600";
    let ver = s::u8_in(b'1', b'9', "ver");
    let names = vec![format!(".{}_{}.log.{}_0-1-1", fid(0), C0, ver as char), log_name(0, C0, 10)];
    let mut exp = vec![vec![1], vec![]];
    let mut files = vec![vec![], vec![]];
    for i in 0..nblocks {
        let f = if i == 0 { 0 } else { s::choose(2, "file") };
        let v = [1, 2, 3][s::choose(3, "version")];
        let n = 100 * i as i32 + 100;
        let sym = s::any_i32("val");
        let rs = [rec(d, 0, "k", n, 1), rec(d, 1, "k", sym, 1)];
        let (b, vs): (Vec<u8>, Vec<i32>) = match s::choose(kinds, "kind") {
            0 => (block(v, 5, &[(SCHEMA, "{}"), (INSTANT, d)], &parquet(&batch(&rs, &[]))), vec![n, sym]),
            1 => (avro_block(v, d, &rs[..1]), vec![n]),
            2 => (block(v, 0, &[(COMMAND, "0"), (TARGET, "20240101000000550"), (INSTANT, d)], &[]), vec![]),
            3 => (block_f(v, 5, &[(6, "id"), (INSTANT, d), (5, ""), (4, "x")], &parquet(&batch(&rs[..1], &[])), &[(5, "p"), (6, "")]), vec![n]),
            _ => (avro_block(v, d, &[]), vec![]),
        };
        files[f].extend(b);
        exp[f].extend(vs);
    }
    // listed in any order
    for k in [[0, 1], [1, 0]][s::choose(2, "order")] {
        st.put(&names[k], files[k].clone());
    }
    let f = slice(&if s::choose(2, "insert") == 0 { names.clone() } else { vec![names[1].clone(), names[0].clone()] });
    st.install();
    let got = vals(&block_on(reader(&[]).read_file_slice(&f)).unwrap());
    s::check(got == exp.concat(), "every record of every block, in order");
    s::observe(format!("{}", got.len()).as_bytes(), "rows");
    s::cover(if got.len() > 1 { "rows" } else { "empty" });
}
#[no_mangle]
pub extern "C" fn hv_log_frame() {
    frame(2, 5)
}
#[no_mangle]
pub extern "C" fn hv_log_frame3() {
    frame(3, 3)
}

// ---- corruption ----
const TINY: &str = r#"{"type":"record","name":"r","fields":[{"name":"val","type":["null","int"]}]}"#;
const D: &str = "20240101000000600";
fn tiny_base() -> Vec<u8> {
    let sc = Arc::new(Schema::new(vec![Field::new("val", DataType::Int32, true)]));
    parquet(&RecordBatch::try_new(sc, vec![Arc::new(Int32Array::from(vec![1]))]).unwrap())
}
fn tiny_rec(v: i64) -> Vec<u8> {
    let mut b = vec![2];
    b.extend(av_long(v));
    b
}
fn tiny_log(version: u32) -> (Vec<u8>, Vec<usize>) {
    let a = block(version, 3, &[(INSTANT, D), (SCHEMA, TINY)], &avro_content(&[tiny_rec(7), tiny_rec(-300)]));
    let c = block(version, 0, &[(INSTANT, D), (TARGET, "20240101000000550"), (COMMAND, "0")], &[]);
    let ends = vec![0, a.len(), a.len() + c.len()];
    ([a, c].concat(), ends)
}
fn read_tiny(log: Vec<u8>) -> Result<Vec<i32>, ()> {
    let mut st = MemStore::new();
    st.put(&base_name(0, C0), tiny_base());
    st.put(&log_name(0, C0, 1), log);
    st.install();
    block_on(reader(&[]).read_file_slice(&slice(&[log_name(0, C0, 1)]))).map(|b| vals(&b)).map_err(|_| ())
}
/// The log file ends anywhere.
#[no_mangle]
pub extern "C" fn hv_log_trunc() {
    let (log, ends) = tiny_log([1, 2, 3][s::choose(3, "version")]);
    let n = s::pick(log.len(), "cut");
    let r = read_tiny(log[..n].to_vec());
    let whole = ends.iter().filter(|e| **e <= n).max().unwrap();
    s::observe_u64(r.is_ok() as u64, "ok");
    match r {
        Ok(v) => {
            // nothing but an incomplete magic may follow the last complete block
            s::check(n - whole < 6, "a block cut short is an error");
            s::check(v == if *whole > 0 { vec![1, 7, -300] } else { vec![1] }, "records of complete blocks");
            s::cover("boundary");
        }
        Err(_) => s::cover("error"),
    }
}
/// `k` arbitrary bytes at any position: an error or records, never a panic; framing damage is noticed.
fn corrupt(k: usize, stride: usize) {
    let (mut log, ends) = tiny_log(1);
    let at = s::pick((log.len() - k) / stride + 1, "at") * stride;
    s::fill_in(&mut log[at..at + k], 0, 255, "bytes");
    let magic = ends[..2].iter().all(|e| log[*e..*e + 6] == *b"#HUDI#");
    let r = read_tiny(log);
    s::check(magic || r.is_err(), "a damaged magic is an error");
    s::observe_u64(r.is_ok() as u64, "ok");
    s::cover(if r.is_ok() { "read" } else { "error" });
}
#[no_mangle]
pub extern "C" fn hv_log_corrupt1() {
    corrupt(1, 1)
}
#[no_mangle]
pub extern "C" fn hv_log_corrupt2() {
    corrupt(2, 2)
}
