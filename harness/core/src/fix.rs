//! Table fixtures: hoodie.properties, commit metadata, base files.
use crate::store::*;
use arrow_array::*;
use arrow_schema::*;
use std::sync::Arc;

pub const BASE: &str = "memory:///t";

pub fn props(extra: &[(&str, &str)]) -> String {
    let mut s = String::from("hoodie.table.name=t\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\n");
    for (k, v) in extra {
        s += &format!("{k}={v}\n");
    }
    s
}

/// One record: (commit time, seqno, key, partition path, payload value, precombine value)
#[derive(Clone, Debug)]
pub struct Rec {
    pub ct: String,
    pub seq: String,
    pub key: String,
    pub part: String,
    pub val: i32,
    pub ts: i64,
}
/// The type of a partition column goes by its name: `i..` are integers, most are strings.
pub fn column_type(name: &str) -> DataType {
    match name {
        "byte" => DataType::Int8,
        "short" => DataType::Int16,
        "long" => DataType::Int64,
        "double" => DataType::Float64,
        "float" => DataType::Float32,
        "flag" => DataType::Boolean,
        "day" => DataType::Date32,
        "dec" => DataType::Decimal128(9, 2),
        _ if name.starts_with('i') => DataType::Int32,
        _ => DataType::Utf8,
    }
}
pub fn schema(parts: &[&str]) -> Arc<Schema> {
    let mut f = vec![
        Field::new("_hoodie_commit_time", DataType::Utf8, true),
        Field::new("_hoodie_commit_seqno", DataType::Utf8, true),
        Field::new("_hoodie_record_key", DataType::Utf8, true),
        Field::new("_hoodie_partition_path", DataType::Utf8, true),
        Field::new("_hoodie_file_name", DataType::Utf8, true),
        Field::new("val", DataType::Int32, true),
        Field::new("ts", DataType::Int64, true),
    ];
    for p in parts {
        f.push(Field::new(*p, column_type(p), true));
    }
    Arc::new(Schema::new(f))
}
pub fn batch(recs: &[Rec], parts: &[(&str, &str)]) -> RecordBatch {
    let s = |f: &dyn Fn(&Rec) -> String| Arc::new(StringArray::from(recs.iter().map(|r| f(r)).collect::<Vec<_>>())) as ArrayRef;
    let mut cols = vec![
        s(&|r| r.ct.clone()),
        s(&|r| r.seq.clone()),
        s(&|r| r.key.clone()),
        s(&|r| r.part.clone()),
        s(&|_| "f".to_string()),
        Arc::new(Int32Array::from(recs.iter().map(|r| r.val).collect::<Vec<_>>())) as ArrayRef,
        Arc::new(Int64Array::from(recs.iter().map(|r| r.ts).collect::<Vec<_>>())) as ArrayRef,
    ];
    for (k, v) in parts {
        let t = column_type(k);
        cols.push(if t != DataType::Int32 && t != DataType::Utf8 { new_null_array(&t, recs.len()) } else if k.starts_with('i') { Arc::new(Int32Array::from(vec![v.parse::<i32>().unwrap_or(0); recs.len()])) as ArrayRef } else { Arc::new(StringArray::from(vec![*v; recs.len()])) });
    }
    RecordBatch::try_new(schema(&parts.iter().map(|p| p.0).collect::<Vec<_>>()), cols).unwrap()
}
/// Plain, uncompressed, no dictionary, no statistics: writing never looks at the values.
pub fn parquet(b: &RecordBatch) -> Vec<u8> {
    parquet_groups(b, 1 << 20)
}
/// A parquet file whose row groups hold `n` rows.
pub fn parquet_groups(b: &RecordBatch, n: usize) -> Vec<u8> {
    parquet_as(b, n, parquet::basic::Compression::UNCOMPRESSED, false)
}
/// The same with a compression, and with or without dictionaries and statistics.
pub fn parquet_as(b: &RecordBatch, n: usize, c: parquet::basic::Compression, rich: bool) -> Vec<u8> {
    use parquet::file::properties::*;
    let p = WriterProperties::builder()
        .set_dictionary_enabled(rich)
        .set_max_row_group_size(n)
        .set_statistics_enabled(if rich { EnabledStatistics::Page } else { EnabledStatistics::None })
        .set_offset_index_disabled(!rich)
        .set_compression(c)
        .build();
    let mut out = vec![];
    let opts = parquet::arrow::arrow_writer::ArrowWriterOptions::new().with_properties(p).with_skip_arrow_metadata(true);
    let mut w = parquet::arrow::arrow_writer::ArrowWriter::try_new_with_options(&mut out, b.schema(), opts).unwrap();
    w.write(b).unwrap();
    w.close().unwrap();
    out
}
