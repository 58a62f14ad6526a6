//! A small in-memory object store: immediate futures, listing in insertion order.
use bytes::Bytes;
use futures::stream::{self, BoxStream};
use object_store::path::Path;
use object_store::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Debug, Default, Clone)]
pub struct MemStore {
    pub files: Vec<(String, Bytes)>,
    /// The storage operation (counted from 0) that fails: with an I/O error (0), as "not found" (1), or, where it
    /// delivers content, with an I/O error after the first half of it (2).
    pub fail_at: Option<(usize, u8)>,
    /// Files another process creates while this one reads: (visible from this operation on, path, content).
    pub later: Vec<(usize, String, Bytes)>,
    /// Operations that take a while: (operation, polls until it is done).
    pub slow: Vec<(usize, usize)>,
}
/// Pending for a number of polls.
struct Wait(usize);
impl std::future::Future for Wait {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
/// Storage operations so far.
static OPS: AtomicUsize = AtomicUsize::new(0);
pub fn ops() -> usize {
    OPS.load(Ordering::Relaxed)
}
impl std::fmt::Display for MemStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("mem")
    }
}
/// Operation number of things that happen at `skip_ops`.
pub const LATER: usize = 1_000_000;
pub fn skip_ops() {
    OPS.store(LATER, Ordering::Relaxed);
}
fn injected() -> Error {
    Error::Generic { store: "mem", source: "injected failure".into() }
}
fn meta(p: &str, n: usize) -> ObjectMeta {
    ObjectMeta {
        location: Path::parse(p).unwrap(),
        last_modified: chrono::DateTime::<chrono::Utc>::from_timestamp(0, 0).unwrap(),
        size: n,
        e_tag: None,
        version: None,
    }
}
impl MemStore {
    pub fn new() -> Self {
        Self::default()
    }
    /// `path` is relative to the table base `/t`.
    pub fn put(&mut self, path: &str, data: impl Into<Bytes>) {
        self.files.push((format!("t/{path}"), data.into()));
    }
    pub fn install(self) {
        hudi_core::verif_hooks::set_object_store(Some(Arc::new(self)));
    }
    pub fn put_later(&mut self, from: usize, path: &str, data: impl Into<Bytes>) {
        self.later.push((from, format!("t/{path}"), data.into()));
    }
    /// One operation: its number, unless it is the one to fail. The optional global configuration is not counted.
    fn op(&self, p: &str, content: bool) -> Result<usize> {
        if p.ends_with("hudi-defaults.conf") {
            return Ok(OPS.load(Ordering::Relaxed));
        }
        let n = OPS.fetch_add(1, Ordering::Relaxed);
        match self.fail_at {
            Some((k, kind)) if k == n && (kind == 0 || kind == 2 && !content) => Err(injected()),
            Some((k, 1)) if k == n => Err(Error::NotFound { path: String::new(), source: "injected".into() }),
            _ => Ok(n),
        }
    }
    async fn wait(&self, n: usize) {
        for (k, polls) in &self.slow {
            if *k == n {
                Wait(*polls).await;
            }
        }
    }
    fn now(&self, n: usize) -> impl Iterator<Item = (&str, &Bytes)> {
        self.files.iter().map(|(k, v)| (k.as_str(), v)).chain(self.later.iter().filter(move |x| x.0 <= n).map(|x| (x.1.as_str(), &x.2)))
    }
    fn find(&self, p: &Path, n: usize) -> Result<&Bytes> {
        let s = p.as_ref();
        self.now(n).find(|(k, _)| *k == s).map(|(_, v)| v).ok_or_else(|| Error::NotFound {
            path: String::new(),
            source: "absent".into(),
        })
    }
}
#[async_trait::async_trait]
impl ObjectStore for MemStore {
    async fn put_opts(&self, _: &Path, _: PutPayload, _: PutOptions) -> Result<PutResult> {
        Err(Error::NotImplemented)
    }
    async fn put_multipart_opts(&self, _: &Path, _: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        Err(Error::NotImplemented)
    }
    async fn get_opts(&self, location: &Path, o: GetOptions) -> Result<GetResult> {
        let at = self.op(location.as_ref(), !o.head)?;
        self.wait(at).await;
        let b = self.find(location, at)?;
        let n = b.len();
        let r = match o.range {
            None => 0..n,
            Some(GetRange::Bounded(r)) => {
                if r.start > r.end || r.start >= n.max(1) {
                    return Err(Error::Generic { store: "mem", source: "range".into() });
                }
                r.start..r.end.min(n)
            }
            Some(GetRange::Offset(k)) => k.min(n)..n,
            Some(GetRange::Suffix(k)) => n.saturating_sub(k)..n,
        };
        let data = b.slice(r.clone());
        let half = data.len() / 2;
        let chunks = match self.fail_at {
            Some((k, 2)) if k == at && !location.as_ref().ends_with("hudi-defaults.conf") => vec![Ok(data.slice(..half)), Err(injected())],
            // content comes in several pieces
            Some((_, 2)) => vec![Ok(data.slice(..half)), Ok(Bytes::new()), Ok(data.slice(half..))],
            _ => vec![Ok(data)],
        };
        Ok(GetResult {
            payload: GetResultPayload::Stream(Box::pin(stream::iter(chunks))),
            meta: meta(location.as_ref(), n),
            range: r,
            attributes: Default::default(),
        })
    }
    async fn delete(&self, _: &Path) -> Result<()> {
        Err(Error::NotImplemented)
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let pre = prefix.map(|p| format!("{}/", p.as_ref())).unwrap_or_default();
        let v: Vec<_> = self.files.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, b)| Ok(meta(k, b.len()))).collect();
        Box::pin(stream::iter(v))
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        let pre = prefix.map(|p| if p.as_ref().is_empty() { String::new() } else { format!("{}/", p.as_ref()) }).unwrap_or_default();
        let (mut objects, mut dirs) = (vec![], vec![] as Vec<String>);
        let at = self.op(&pre, false)?;
        self.wait(at).await;
        for (k, b) in self.now(at) {
            if !k.starts_with(&pre) {
                continue;
            }
            let rest = &k[pre.len()..];
            match rest.find('/') {
                None => objects.push(meta(k, b.len())),
                Some(i) => {
                    let d = k[..pre.len() + i].to_string();
                    if !dirs.contains(&d) {
                        dirs.push(d);
                    }
                }
            }
        }
        Ok(ListResult {
            common_prefixes: dirs.iter().map(|d| Path::parse(d).unwrap()).collect(),
            objects,
        })
    }
    async fn copy(&self, _: &Path, _: &Path) -> Result<()> {
        Err(Error::NotImplemented)
    }
    async fn copy_if_not_exists(&self, _: &Path, _: &Path) -> Result<()> {
        Err(Error::NotImplemented)
    }
}

/// Every future in the harnesses completes without waiting on anything outside.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    for _ in 0..10_000 {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("future never completed");
}
