//! DataFusion scans: which files of which partitions a scan with predicates reads.
use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use datafusion::catalog::{Session, TableProvider};
use datafusion::datasource::physical_plan::ParquetExec;
use datafusion::execution::context::SessionConfig;
use datafusion::execution::runtime_env::RuntimeEnv;
use datafusion::logical_expr::*;
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_common::{DFSchema, Result, ScalarValue};
use datafusion_expr::execution_props::ExecutionProps;
use hudi_datafusion::HudiDataSource;
use std::any::Any;
use std::collections::HashMap;
use std::sync::Arc;
use symrt as s;

pub struct Mock(pub SessionConfig, pub Arc<RuntimeEnv>, pub ExecutionProps);
#[async_trait::async_trait]
impl Session for Mock {
    fn session_id(&self) -> &str {
        "s"
    }
    fn config(&self) -> &SessionConfig {
        &self.0
    }
    async fn create_physical_plan(&self, _: &LogicalPlan) -> Result<Arc<dyn ExecutionPlan>> {
        unimplemented!()
    }
    fn create_physical_expr(&self, expr: Expr, schema: &DFSchema) -> Result<Arc<dyn PhysicalExpr>> {
        datafusion::physical_expr::create_physical_expr(&expr, schema, &self.2)
    }
    fn scalar_functions(&self) -> &HashMap<String, Arc<ScalarUDF>> {
        unimplemented!()
    }
    fn aggregate_functions(&self) -> &HashMap<String, Arc<AggregateUDF>> {
        unimplemented!()
    }
    fn window_functions(&self) -> &HashMap<String, Arc<WindowUDF>> {
        unimplemented!()
    }
    fn runtime_env(&self) -> &Arc<RuntimeEnv> {
        &self.1
    }
    fn execution_props(&self) -> &ExecutionProps {
        &self.2
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
pub fn mock() -> Mock {
    Mock(SessionConfig::new(), Arc::new(RuntimeEnv::default()), ExecutionProps::new())
}
const TS: &str = "20240101000000500";
/// One file group per partition value of the field `f`; returns the object paths of the files.
fn table(f: &str, vals: &[&str], hive: bool) -> Vec<String> {
    let mut st = MemStore::new();
    let hv = if hive { "true" } else { "false" };
    st.put(
        ".hoodie/hoodie.properties",
        props(&[("hoodie.table.type", "COPY_ON_WRITE"), ("hoodie.table.partition.fields", f), ("hoodie.datasource.write.hive_style_partitioning", hv)]),
    );
    let dirs: Vec<String> = vals.iter().map(|v| if hive { format!("{f}={v}") } else { v.to_string() }).collect();
    let c = Commit { ts: TS.into(), st: St::Completed, kind: Kind::Commit, writes: dirs.iter().enumerate().map(|(i, d)| Write { part: d.clone(), fg: i }).collect(), replaces: vec![] };
    for (i, w) in c.writes.iter().enumerate() {
        st.put(&join(&w.part, &base_name(w.fg, &c.ts)), base_file(&c, 0, w, &[(f, vals[i]), (if f == "i" { "I" } else { "P" }, "b")]));
    }
    put_timeline(&mut st, &c, metadata(&c));
    st.install();
    c.writes.iter().map(|w| format!("t/{}", join(&w.part, &base_name(w.fg, &c.ts)))).collect()
}
/// The files of each group a scan reads.
fn scan(ds: &HudiDataSource, projection: Option<&Vec<usize>>, filters: &[Expr]) -> Vec<Vec<(String, usize)>> {
    let m = mock();
    let plan = block_on(ds.scan(&m, projection, filters, None));
    if let Err(e) = &plan { if !s::symbolic() { println!("ERR {e}"); } }
    s::check(plan.is_ok(), "a scan with any predicate succeeds");
    let plan = plan.unwrap();
    let e = plan.as_any().downcast_ref::<ParquetExec>().unwrap();
    if let Some(p) = projection {
        let names: Vec<String> = plan.schema().fields().iter().map(|f| f.name().clone()).collect();
        let exp: Vec<String> = p.iter().map(|i| ds.schema().field(*i).name().clone()).collect();
        s::check(names == exp, "the projected columns");
    }
    e.base_config().file_groups.iter().map(|g| g.iter().map(|f| (f.object_meta.location.to_string(), f.object_meta.size)).collect()).collect()
}
#[derive(Clone)]
enum V {
    S(Vec<u8>),
    I(i32),
}
/// Three-valued answer of `v op lit`.
fn cmp(op: Operator, v: &V, lit: &Option<V>) -> Option<bool> {
    let o = match (v, lit.as_ref()) {
        (V::S(a), Some(V::S(b))) => Some(a.cmp(b)),
        (V::I(a), Some(V::I(b))) => Some(a.cmp(b)),
        _ => None,
    };
    match op {
        Operator::IsDistinctFrom => Some(o.map_or(true, |o| o.is_ne())),
        Operator::IsNotDistinctFrom => Some(o.map_or(false, |o| o.is_eq())),
        _ => o.map(|o| match op {
            Operator::Eq => o.is_eq(),
            Operator::NotEq => o.is_ne(),
            Operator::Lt => o.is_lt(),
            Operator::LtEq => o.is_le(),
            Operator::Gt => o.is_gt(),
            _ => o.is_ge(),
        }),
    }
}
pub const OPS: [Operator; 8] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq, Operator::IsDistinctFrom, Operator::IsNotDistinctFrom];
fn lit(v: &Option<V>, int: bool) -> Expr {
    Expr::Literal(match v {
        Some(V::S(x)) => ScalarValue::Utf8(Some(String::from_utf8(x.clone()).unwrap())),
        Some(V::I(x)) => ScalarValue::Int32(Some(*x)),
        None if int => ScalarValue::Int32(None),
        None => ScalarValue::Utf8(None),
    })
}
pub fn bin(l: Expr, op: Operator, r: Expr) -> Expr {
    Expr::BinaryExpr(BinaryExpr::new(Box::new(l), op, Box::new(r)))
}
type Eval = Box<dyn Fn(&V) -> bool>;
/// A symbolic predicate, and whether a row of a partition with the given value may satisfy it.
fn predicate(f: &'static str, kinds: u8, ops: u8) -> (Expr, Eval) {
    let int = f.starts_with('i');
    let op = OPS[s::choose(ops, "op")];
    // NULL, a number from -3 to 20, or a string of up to two printable characters
    let l: Option<V> = if s::choose(2, "null") == 1 {
        None
    } else if int {
        let [b] = s::bytes_in(0, 23, "number");
        Some(V::I(b as i32 - 3))
    } else {
        let b: [u8; 2] = s::bytes_in(32, 126, "text");
        Some(V::S(b[..s::choose(3, "length")].to_vec()))
    };
    let c = || Expr::Column(datafusion_common::Column::new_unqualified(f));
    let swap = |o: Operator| match o {
        Operator::Lt => Operator::Gt,
        Operator::Gt => Operator::Lt,
        Operator::LtEq => Operator::GtEq,
        Operator::GtEq => Operator::LtEq,
        o => o,
    };
    let e = lit(&l, int);
    match s::choose(kinds, "kind") {
        0 => (bin(c(), op, e), Box::new(move |v| cmp(op, v, &l) == Some(true))),
        1 => (bin(e, op, c()), Box::new(move |v| cmp(swap(op), v, &l) == Some(true))),
        2 => (Expr::Not(Box::new(bin(c(), op, e))), Box::new(move |v| cmp(op, v, &l) == Some(false))),
        3 => (Expr::Not(Box::new(bin(e, op, c()))), Box::new(move |v| cmp(swap(op), v, &l) == Some(false))),
        // columns that are not partition fields say nothing about partitions
        4 => (bin(Expr::Column(datafusion_common::Column::new_unqualified("val")), op, Expr::Literal(ScalarValue::Int32(Some(1)))), Box::new(|_| true)),
        5 => (bin(Expr::Literal(ScalarValue::Int64(Some(1))), op, Expr::Column(datafusion_common::Column::new_unqualified("ts"))), Box::new(|_| true)),
        6 => (bin(bin(c(), op, e), Operator::Or, bin(c(), Operator::Eq, lit(&Some(if int { V::I(10) } else { V::S(b"a".to_vec()) }), int))), Box::new(move |v| cmp(op, v, &l) == Some(true) || cmp(Operator::Eq, v, &Some(if int { V::I(10) } else { V::S(b"a".to_vec()) })) == Some(true))),
        7 => (Expr::IsNull(Box::new(c())), Box::new(|_| false)),
        // a column whose name differs from the partition field's in case only
        8 => (bin(Expr::Column(datafusion_common::Column::new_unqualified(if int { "I" } else { "P" })), op, Expr::Literal(ScalarValue::Utf8(Some("b".into())))), Box::new(|_| true)),
        _ => (bin(c(), op, c()), Box::new(|_| true)),
    }
}
fn run(n: usize, kinds: u8, ops: u8, groups: u8) {
    let int = s::choose(2, "int") == 1;
    let hive = groups > 1 && s::choose(2, "hive") == 1;
    let (f, vals, vs): (&'static str, Vec<&str>, Vec<V>) = if int { ("i", vec!["5", "10"], vec![V::I(5), V::I(10)]) } else { ("p", vec!["a", "ab"], vec![V::S(b"a".to_vec()), V::S(b"ab".to_vec())]) };
    let files = table(f, &vals, hive);
    let groups = s::choose(groups, "input partitions") + 1;
    let ds = block_on(HudiDataSource::new_with_options(BASE, [("hoodie.read.input.partitions", groups.to_string())])).unwrap();
    let ps: Vec<(Expr, Eval)> = (0..n).map(|_| predicate(f, kinds, ops)).collect();
    let exprs: Vec<Expr> = ps.iter().map(|p| p.0.clone()).collect();
    let support = ds.supports_filters_pushdown(&exprs.iter().collect::<Vec<_>>()).unwrap();
    s::check(support.len() == n && support.iter().all(|x| *x != TableProviderFilterPushDown::Exact), "pruned scans are filtered again");
    // what DataFusion passes to the scan
    let pushed: Vec<Expr> = exprs.iter().zip(&support).filter(|(_, x)| **x == TableProviderFilterPushDown::Inexact).map(|(e, _)| e.clone()).collect();
    let got = scan(&ds, None, &pushed);
    s::check(got.len() <= groups && got.iter().all(|g| !g.is_empty()), "at most the requested number of groups");
    let mut flat: Vec<&String> = got.iter().flatten().map(|f| &f.0).collect();
    flat.sort();
    flat.dedup();
    s::check(flat.len() == got.iter().map(|g| g.len()).sum::<usize>(), "each file once");
    s::check(flat.iter().all(|x| files.contains(x)), "files of the table");
    for (i, v) in vs.iter().enumerate() {
        if ps.iter().all(|p| p.1(v)) {
            s::check(flat.contains(&&files[i]), "partitions that may hold matching rows are read");
        }
    }
    s::observe_u64(flat.len() as u64, "files");
    s::cover(if pushed.is_empty() { "not pushed" } else if flat.len() < 2 { "pruned" } else { "all" });
}
#[no_mangle]
pub extern "C" fn hv_df_filters() {
    run(1, 10, 8, 3)
}
/// Two predicates, both of which a row has to satisfy.
#[no_mangle]
pub extern "C" fn hv_df_pair() {
    run(2, 2, 3, 1)
}
#[no_mangle]
pub extern "C" fn hv_df_pair_all() {
    run(2, 3, 6, 1)
}
/// Partition values of any printable characters; projections.
#[no_mangle]
pub extern "C" fn hv_df_paths() {
    let b: [u8; 2] = s::bytes_in(32, 126, "value");
    // the value is embedded in the JSON of the commit metadata as it is
    s::assume(b.iter().all(|c| !matches!(c, b'/' | b'"' | b'\\')) && b != *b"..");
    let v = String::from_utf8(b.to_vec()).unwrap();
    let hive = s::choose(2, "hive") == 1;
    let files = table("p", &[&v], hive);
    let part = if hive { format!("p={v}") } else { v.clone() };
    let size = base_file(&Commit { ts: TS.into(), st: St::Completed, kind: Kind::Commit, writes: vec![], replaces: vec![] }, 0, &Write { part, fg: 0 }, &[("p", &v), ("P", "b")]).len();
    let ds = block_on(HudiDataSource::new(BASE)).unwrap();
    let proj = match s::choose(3, "projection") {
        0 => None,
        1 => Some(vec![5, 2]),
        _ => Some(vec![]),
    };
    let got = scan(&ds, proj.as_ref(), &[]);
    s::check(got.len() == 1 && got[0].len() == 1, "each file once");
    s::check(got[0][0].0 == files[0], "the file's path");
    s::check(got[0][0].1 == size, "the file's size");
    s::cover("end");
}
/// Tables created with a command in a session.
#[no_mangle]
pub extern "C" fn hv_df_create() {
    let b: [u8; 2] = s::bytes_in(b'0', b'9', "groups");
    let n = String::from_utf8(b.to_vec()).unwrap();
    let files = table("p", &["a", "b", "c"], false);
    let mut options = HashMap::new();
    let given = s::choose(2, "given") == 1;
    if given {
        options.insert("hoodie.read.input.partitions".to_string(), n.clone());
    }
    let bad = s::choose(3, "bad");
    if bad == 1 {
        options.insert("hoodie.read.listing.parallelism".to_string(), "x".to_string());
    }
    let session = s::choose(2, "session") == 1;
    let cmd = CreateExternalTable {
        schema: Arc::new(DFSchema::empty()),
        name: "t".into(),
        location: if bad == 2 { "memory:///u".to_string() } else { BASE.to_string() },
        file_type: "HUDI".into(),
        table_partition_cols: vec![],
        if_not_exists: false,
        temporary: false,
        definition: None,
        order_exprs: vec![],
        unbounded: false,
        options,
        constraints: datafusion_common::Constraints::empty(),
        column_defaults: HashMap::new(),
    };
    let mut m = mock();
    if session {
        m.0 = m.0.with_option_extension(InSession);
    }
    let p = block_on(datafusion::catalog::TableProviderFactory::create(&hudi_datafusion::HudiTableFactory::new(), &m, &cmd));
    s::check(p.is_ok() == (bad == 0), "created unless an option is invalid or there is no table");
    let Ok(p) = p else {
        s::cover("rejected");
        return;
    };
    let ds = p.as_any().downcast_ref::<HudiDataSource>().unwrap();
    let got = scan(ds, None, &[]);
    let k = if given { n.parse::<usize>().unwrap().max(1) } else if session { 2 } else { 1 };
    let per = (files.len() + k - 1) / k;
    s::check(got.len() == (files.len() + per - 1) / per, "the number of groups asked for");
    let mut flat: Vec<String> = got.iter().flatten().map(|f| f.0.clone()).collect();
    flat.sort();
    s::check(flat == files, "all files");
    s::observe_u64(got.len() as u64, "groups");
    s::cover(if given { "given" } else if session { "session" } else { "default" });
}
/// An option set in the session; the command's options go first.
#[derive(Clone, Debug)]
struct InSession;
impl datafusion_common::config::ConfigExtension for InSession {
    const PREFIX: &'static str = "hoodie";
}
impl datafusion_common::config::ExtensionOptions for InSession {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn cloned(&self) -> Box<dyn datafusion_common::config::ExtensionOptions> {
        Box::new(self.clone())
    }
    fn set(&mut self, _: &str, _: &str) -> Result<()> {
        Ok(())
    }
    fn entries(&self) -> Vec<datafusion_common::config::ConfigEntry> {
        vec![datafusion_common::config::ConfigEntry { key: "hoodie.read.input.partitions".into(), value: Some("2".into()), description: "" }]
    }
}
/// More files and groups than are read at a time.
#[no_mangle]
pub extern "C" fn hv_df_many() {
    let vals = ["a", "b", "c", "d", "e", "f", "g", "h", "j", "k", "l", "m"];
    let n = 9 + s::choose(4, "files");
    let files = table("p", &vals[..n], false);
    let groups = [1, 5, 9, 10, 11, 12, 40][s::choose(7, "input partitions")];
    let ds = block_on(HudiDataSource::new_with_options(BASE, [("hoodie.read.input.partitions", groups.to_string())])).unwrap();
    let from = s::choose(n as u8, "from");
    let e = bin(Expr::Column(datafusion_common::Column::new_unqualified("p")), Operator::GtEq, Expr::Literal(ScalarValue::Utf8(Some(vals[from].into()))));
    let got = scan(&ds, None, &[e]);
    s::check(got.len() <= groups && got.iter().all(|g| !g.is_empty()), "at most the requested number of groups");
    let mut flat: Vec<String> = got.iter().flatten().map(|f| f.0.clone()).collect();
    flat.sort();
    s::check(flat[..] == files[from..], "exactly the files of the matching partitions");
    s::observe_u64(flat.len() as u64, "files");
    s::cover("end");
}
