//! DataFusion scans, executed: the rows they deliver.
use crate::d0::*;
use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use arrow_array::*;
use datafusion::catalog::TableProvider;
use datafusion::execution::context::SessionConfig;
use datafusion::execution::TaskContext;
use datafusion::logical_expr::*;
use datafusion_common::ScalarValue;
use futures::StreamExt;
use hudi_datafusion::HudiDataSource;
use std::collections::HashMap;
use std::sync::Arc;
use symrt as s;

/// Five files of three rows in two row groups with statistics and dictionaries; row `r` of file `i` has the value
/// `10 * i + r` and the precombine value `-r`. The first file is older than the column `z`, which the others have.
fn table() -> Vec<(i32, i64, Option<i32>)> {
    let (st, rows) = store();
    st.install();
    rows
}
fn store() -> (MemStore, Vec<(i32, i64, Option<i32>)>) {
    table_of(["a", "b", "a", "c", "b"].as_slice())
}
fn table_of(dirs: &[&str]) -> (MemStore, Vec<(i32, i64, Option<i32>)>) {
    let n = dirs.len();
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(&[("hoodie.table.type", "COPY_ON_WRITE"), ("hoodie.table.partition.fields", "p"), ("hoodie.datasource.write.hive_style_partitioning", "false")]));
    let mut rows = vec![];
    let cs: Vec<Commit> = (0..2)
        .map(|k| Commit { ts: format!("2024010100000050{k}"), st: St::Completed, kind: Kind::Commit, writes: (0..n).filter(|i| (*i > 0) as usize == k).map(|i| Write { part: dirs[i].into(), fg: i }).collect(), replaces: vec![] })
        .collect();
    for (k, c) in cs.iter().enumerate() {
        for w in &c.writes {
            let recs: Vec<Rec> = (0..3).map(|r| Rec { ct: c.ts.clone(), seq: "s".into(), key: format!("k{}{r}", w.fg), part: w.part.clone(), val: (10 * w.fg + r) as i32, ts: -(r as i64) }).collect();
            let i = (w.fg as i32).to_string();
            let cols = [("p", w.part.as_str()), ("iz", i.as_str())];
            let b = batch(&recs, &cols[..k + 1]);
            rows.extend(recs.iter().map(|r| (r.val, r.ts, if k == 1 { Some(w.fg as i32) } else { None })));
            st.put(&join(&w.part, &base_name(w.fg, &c.ts)), parquet_as(&b, 2, parquet::basic::Compression::UNCOMPRESSED, true));
        }
        put_timeline(&mut st, c, metadata(c));
    }
    (st, rows)
}
type Rows = Vec<(i32, i64, Option<i32>)>;
/// Everything a query does: open the table, ask for its columns, plan the scan and read it.
fn query() -> datafusion_common::Result<Rows> {
    let ds = block_on(HudiDataSource::new_with_options(BASE, [("hoodie.read.input.partitions", "2")]))?;
    let mut names: Vec<String> = ds.schema().fields().iter().map(|f| f.name().clone()).collect();
    let m = mock();
    let filters = vec![bin(Expr::Column(datafusion_common::Column::new_unqualified("p")), Operator::NotEq, Expr::Literal(ScalarValue::Utf8(Some("b".into()))))];
    let plan = block_on(ds.scan(&m, None, &filters, None))?;
    let cx = Arc::new(TaskContext::new(None, "s".into(), SessionConfig::new(), HashMap::new(), HashMap::new(), HashMap::new(), m.1.clone()));
    let mut got = vec![];
    for i in 0..plan.properties().output_partitioning().partition_count() {
        let mut st = plan.execute(i, cx.clone())?;
        while let Some(b) = block_on(st.next()) {
            let b = b?;
            names.retain(|n| b.column_by_name(n).is_some());
            if names.len() < 9 {
                return Ok(vec![]);
            }
            let c32 = |k: &str| b.column_by_name(k).unwrap().as_any().downcast_ref::<Int32Array>().unwrap().clone();
            let (v, z) = (c32("val"), c32("iz"));
            let t = b.column_by_name("ts").unwrap().as_any().downcast_ref::<Int64Array>().unwrap().clone();
            got.extend((0..b.num_rows()).map(|r| (v.value(r), t.value(r), if z.is_null(r) { None } else { Some(z.value(r)) })));
        }
    }
    got.sort();
    Ok(got)
}
/// Any one storage operation of a query fails.
#[no_mangle]
pub extern "C" fn hv_df_fault() {
    let (mut st, rows) = table_of(&["a", "b", "a"]);
    let at = s::u8_in(0, 127, "operation") as usize;
    st.fail_at = Some((at, s::choose(3, "kind") as u8));
    st.install();
    match query() {
        Ok(v) => {
            s::check(v == rows.into_iter().filter(|r| r.0 / 10 != 1).collect::<Vec<_>>(), "a query that succeeds despite a failed storage operation is complete");
            s::observe_u64(v.len() as u64, "rows");
            s::check(ops() <= at, "a failed storage operation is reported");
            s::cover("not reached");
        }
        Err(_) => {
            s::check(ops() > at, "no error without a failed operation");
            s::cover("error");
        }
    }
}
fn run(preds: bool) {
    let all = table();
    let groups = s::choose(3, "input partitions") * 2 + 1;
    let ds = block_on(HudiDataSource::new_with_options(BASE, [("hoodie.read.input.partitions", groups.to_string())])).unwrap();
    let int = |k: &str, v: i64| if k == "ts" { ScalarValue::Int64(Some(v)) } else { ScalarValue::Int32(Some(v as i32)) };
    let col = |k: &str| Expr::Column(datafusion_common::Column::new_unqualified(k));
    let mut filters = vec![];
    let mut wanted: Box<dyn Fn(&(i32, i64, Option<i32>)) -> bool> = Box::new(|_| true);
    if preds {
        let op = OPS[s::choose(6, "op")];
        let k = ["val", "ts", "iz"][s::choose(3, "column")];
        let b = s::u8_in(0, 60, "literal") as i64 - 5;
        let left = s::choose(2, "literal first") == 1;
        filters.push(if left { bin(Expr::Literal(int(k, b)), op, col(k)) } else { bin(col(k), op, Expr::Literal(int(k, b))) });
        wanted = Box::new(move |r| {
            let v = match k {
                "val" => Some(r.0 as i64),
                "ts" => Some(r.1),
                _ => r.2.map(|x| x as i64),
            };
            let Some(v) = v else { return false };
            let (x, y) = if left { (b, v) } else { (v, b) };
            match op {
                Operator::Eq => x == y,
                Operator::NotEq => x != y,
                Operator::Lt => x < y,
                Operator::LtEq => x <= y,
                Operator::Gt => x > y,
                _ => x >= y,
            }
        });
    }
    let limit = if preds { None } else { [None, Some(0), Some(1), Some(4), Some(14), Some(20)][s::choose(6, "limit")] };
    let names: Vec<String> = ds.schema().fields().iter().map(|f| f.name().clone()).collect();
    let at = |k: &str| names.iter().position(|n| n == k).unwrap();
    let proj = match s::choose(if preds { 1 } else { 3 }, "projection") {
        0 => None,
        1 => Some(vec![at("val"), at("ts"), at("iz")]),
        _ => Some(vec![at("iz"), at("ts"), at("p"), at("val")]),
    };
    let m = mock();
    let plan = block_on(ds.scan(&m, proj.as_ref(), &filters, limit));
    s::check(plan.is_ok(), "a scan with any predicate succeeds");
    let plan = plan.unwrap();
    let cx = Arc::new(TaskContext::new(None, "s".into(), SessionConfig::new(), HashMap::new(), HashMap::new(), HashMap::new(), m.1.clone()));
    let mut got: Vec<(i32, i64, Option<i32>)> = vec![];
    let n = plan.properties().output_partitioning().partition_count();
    s::check(n <= groups, "at most the requested number of groups");
    for i in 0..n {
        let mut st = plan.execute(i, cx.clone()).unwrap();
        while let Some(b) = block_on(st.next()) {
            if let Err(e) = &b { if !s::symbolic() { println!("ERR {e}"); } }
            s::check(b.is_ok(), "the scan's files can be read");
            let b = b.unwrap();
            s::check(b.schema() == plan.schema(), "the plan's schema");
            let c32 = |k: &str| b.column_by_name(k).unwrap().as_any().downcast_ref::<Int32Array>().unwrap().clone();
            let (v, z) = (c32("val"), c32("iz"));
            let t = b.column_by_name("ts").unwrap().as_any().downcast_ref::<Int64Array>().unwrap().clone();
            got.extend((0..b.num_rows()).map(|r| (v.value(r), t.value(r), if z.is_null(r) { None } else { Some(z.value(r)) })));
        }
    }
    got.sort();
    let mut dedup = got.clone();
    dedup.dedup();
    s::check(dedup.len() == got.len(), "each row once");
    s::check(got.iter().all(|r| all.contains(r)), "rows of the table");
    if let Some(l) = limit {
        s::check(got.len() >= l.min(all.len()), "as many rows as asked for");
        s::cover("limit");
    } else {
        s::check(all.iter().all(|r| !wanted(r) || got.contains(r)), "every row the predicates select");
        s::cover(if got.len() < all.len() { "some" } else { "all" });
    }
    s::observe_u64(got.len() as u64, "rows");
}
#[no_mangle]
pub extern "C" fn hv_df_rows() {
    run(false)
}
#[no_mangle]
pub extern "C" fn hv_df_rows_pred() {
    run(true)
}
