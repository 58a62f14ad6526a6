// Writes small copy-on-write Hudi tables under a scratch directory that is removed again.
#![allow(dead_code)]
use arrow_array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema};
use hudi_core::table::Table;
use std::fs;
use std::path::PathBuf;
use std::sync::Arc;

pub struct Tab { pub dir: PathBuf }
impl Drop for Tab { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.dir); } }
pub type Row<'a> = (&'a str, &'a str, i64); // commit time, key, value
pub struct W<'a> { pub part: &'a str, pub fid: &'a str, pub rows: &'a [Row<'a>] }
pub fn rt<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap().block_on(f) }
impl Tab {
    pub fn new(name: &str, partition_fields: &str, extra: &str) -> Tab {
        let dir = std::env::temp_dir().join(format!("hudi-demo-{}-{}", name, std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join(".hoodie")).unwrap();
        fs::write(dir.join(".hoodie/hoodie.properties"), format!("hoodie.table.name=t\nhoodie.table.type=COPY_ON_WRITE\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.base.file.format=PARQUET\nhoodie.table.recordkey.fields=key\nhoodie.table.partition.fields={partition_fields}\nhoodie.table.checksum=1\nhoodie.archivelog.folder=archived\nhoodie.table.metadata.partitions=\nhoodie.populate.meta.fields=true\n{extra}")).unwrap();
        Tab { dir }
    }
    pub fn instant(&self, name: &str, content: &str) { fs::write(self.dir.join(".hoodie").join(name), content).unwrap(); }
    pub fn file(&self, w: &W, ts: &str) -> String {
        let name = format!("{}_0-1-2_{}.parquet", w.fid, ts);
        let d = self.dir.join(w.part);
        fs::create_dir_all(&d).unwrap();
        let schema = Arc::new(Schema::new(vec![Field::new("_hoodie_commit_time", DataType::Utf8, true), Field::new("key", DataType::Utf8, true), Field::new("value", DataType::Int64, true), Field::new("p", DataType::Utf8, true)]));
        let cols: Vec<ArrayRef> = vec![Arc::new(StringArray::from_iter_values(w.rows.iter().map(|r| r.0))), Arc::new(StringArray::from_iter_values(w.rows.iter().map(|r| r.1))), Arc::new(Int64Array::from_iter_values(w.rows.iter().map(|r| r.2))), Arc::new(StringArray::from_iter_values(w.rows.iter().map(|_| w.part.trim_start_matches("p="))))];
        let b = RecordBatch::try_new(schema.clone(), cols).unwrap();
        let mut wr = parquet::arrow::ArrowWriter::try_new(fs::File::create(d.join(&name)).unwrap(), schema, None).unwrap();
        wr.write(&b).unwrap();
        wr.close().unwrap();
        name
    }
    /// A complete commit ("commit") or replacecommit with the given replaced (partition, file id).
    pub fn commit(&self, ts: &str, action: &str, ws: &[W], replaced: &[(&str, &str)]) {
        let mut stats: Vec<(String, Vec<String>)> = vec![];
        for w in ws {
            let n = self.file(w, ts);
            let p = if w.part.is_empty() { n } else { format!("{}/{}", w.part, n) };
            let s = format!("{{\"fileId\":\"{}\",\"path\":\"{}\"}}", w.fid, p);
            match stats.iter_mut().find(|x| x.0 == w.part) { Some(x) => x.1.push(s), None => stats.push((w.part.to_string(), vec![s])) }
        }
        let st: Vec<String> = stats.iter().map(|(p, s)| format!("\"{}\":[{}]", p, s.join(","))).collect();
        let mut rp: Vec<(String, Vec<String>)> = vec![];
        for (p, f) in replaced { match rp.iter_mut().find(|x| x.0 == *p) { Some(x) => x.1.push(format!("\"{f}\"")), None => rp.push((p.to_string(), vec![format!("\"{f}\"")])) } }
        let rs: Vec<String> = rp.iter().map(|(p, s)| format!("\"{}\":[{}]", p, s.join(","))).collect();
        self.instant(&format!("{ts}.{action}"), &format!("{{\"partitionToWriteStats\":{{{}}},\"partitionToReplaceFileIds\":{{{}}},\"extraMetadata\":{{}},\"operationType\":\"UPSERT\"}}", st.join(","), rs.join(",")));
    }
    pub fn uri(&self) -> String { self.dir.to_str().unwrap().to_string() }
    pub async fn open(&self) -> Table { Table::new(&self.uri()).await.unwrap() }
}
/// (key, value) of all rows, sorted.
pub fn rows(batches: &[RecordBatch]) -> Vec<(String, i64)> {
    let mut v = vec![];
    for b in batches {
        let k = b.column_by_name("key").unwrap().as_any().downcast_ref::<StringArray>().unwrap().clone();
        let x = b.column_by_name("value").unwrap().as_any().downcast_ref::<Int64Array>().unwrap().clone();
        for i in 0..b.num_rows() { v.push((k.value(i).to_string(), x.value(i))); }
    }
    v.sort();
    v
}
pub fn files(s: &[hudi_core::file_group::file_slice::FileSlice]) -> Vec<String> { let mut v: Vec<String> = s.iter().map(|f| f.base_file_relative_path().unwrap()).collect(); v.sort(); v }
pub fn r(v: &[(&str, i64)]) -> Vec<(String, i64)> { v.iter().map(|x| (x.0.to_string(), x.1)).collect() }
