//! Calls into the code under test: panics become errors of the case, not of
//! the harness.

use crate::graph::{Graph, Kind, Node};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use structopt::StructOpt;
use twiggy_analyze as analyze;
use twiggy_ir as ir;
use twiggy_opt as opt;
use twiggy_parser as parser;
use twiggy_traits as traits;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static WORKER: Cell<u64> = const { Cell::new(0) };
    static WATCH: RefCell<Option<Arc<Watch>>> = RefCell::new(None);
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Whether the last panic of this thread happened in the code under test.
pub fn last_panic_is_theirs() -> bool {
    LAST_PANIC.with(|p| {
        let p = p.borrow();
        let file = p.split(".rs:").next().unwrap_or("");
        file.starts_with('/') && file.contains("/repo/")
    })
}

/// A destination for reports. Reports of the generated cases are small; one
/// that is longer than `LONGEST` never ends.
#[derive(Default)]
pub struct Sink(pub Vec<u8>);

const LONGEST: usize = 192 << 20;
pub const TOO_LONG: &str = "the report has no end";

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() > LONGEST {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, TOO_LONG));
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Watches one thread from another: whether it is inside the code under test,
/// and for how long in processor time, which does not depend on how busy the
/// machine is.
pub struct Watch {
    clock: i32,
    /// Processor time of the thread in ns when it entered, 0 outside.
    entered: AtomicU64,
    longest: AtomicU64,
    what: Mutex<String>,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

impl Watch {
    /// Watch the current thread, which works for `worker`, as long as it lives.
    pub fn this_thread(worker: u64) -> Arc<Watch> {
        let mut clock = 0;
        // SAFETY: the arguments are as documented, for 64-bit Linux.
        assert_eq!(unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) }, 0);
        let w = Arc::new(Watch { clock, entered: AtomicU64::new(0), longest: AtomicU64::new(0), what: Mutex::new(String::new()) });
        WATCH.with(|x| *x.borrow_mut() = Some(w.clone()));
        WORKER.with(|x| x.set(worker));
        WATCHES.lock().unwrap().push((worker, w.clone()));
        w
    }
    fn now(&self) -> Option<u64> {
        let mut t = [0i64; 2];
        // SAFETY: as above.
        let ok = unsafe { clock_gettime(self.clock, &mut t) } == 0;
        ok.then(|| t[0] as u64 * 1_000_000_000 + t[1] as u64 + 1)
    }
    fn enter(&self, what: &str) -> bool {
        if self.entered.load(Ordering::SeqCst) != 0 {
            return false;
        }
        *self.what.lock().unwrap() = what.into();
        self.entered.store(self.now().unwrap_or(0), Ordering::SeqCst);
        true
    }
    fn leave(&self) {
        let d = self.now().unwrap_or(0).saturating_sub(self.entered.swap(0, Ordering::SeqCst));
        self.longest.fetch_max(d, Ordering::SeqCst);
    }
    pub fn longest(&self) -> f64 {
        self.longest.load(Ordering::SeqCst) as f64 / 1e9
    }
    /// What the thread has been doing for more than `limit` s of its time.
    pub fn stuck(&self, limit: u64) -> Option<String> {
        let since = self.entered.load(Ordering::SeqCst);
        let now = self.now()?;
        // still in the same call after the time was taken
        if since == 0 || now.saturating_sub(since) < limit * 1_000_000_000 || self.entered.load(Ordering::SeqCst) != since {
            return None;
        }
        let what = self.what.lock().unwrap().clone();
        Some(format!("{what} {NO_END} {limit} s of processor time"))
    }
}

/// End the process `pid` with `SIGXCPU` once it has used `PATIENCE` more.
pub fn limit(pid: u32) {
    extern "C" {
        fn clock_getcpuclockid(pid: i32, clock: *mut i32) -> i32;
        fn prlimit(pid: i32, what: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32;
    }
    const RLIMIT_CPU: i32 = 0;
    let (mut clock, mut t) = (0, [0i64; 2]);
    // SAFETY: the arguments are as documented, for 64-bit Linux. The process is
    // a child that has not been waited for.
    unsafe {
        if clock_getcpuclockid(pid as i32, &mut clock) == 0 && clock_gettime(clock, &mut t) == 0 {
            let soft = t[0] as u64 + PATIENCE;
            prlimit(pid as i32, RLIMIT_CPU, &[soft, u64::MAX], std::ptr::null_mut());
        }
    }
}

pub const SIGXCPU: i32 = 24;

/// All watched threads, with the worker each belongs to.
pub static WATCHES: Mutex<Vec<(u64, Arc<Watch>)>> = Mutex::new(vec![]);

/// The worker that this thread works for.
pub fn worker() -> u64 {
    WORKER.with(|w| w.get())
}

pub const NO_END: &str = "has not finished after";

/// More than this many seconds for one of the generated inputs, which take a
/// fraction of a second, is taken for no end.
pub const PATIENCE: u64 = 60;

/// Run `f`, turning a panic into `Err("panic at ...")`.
pub fn catch<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let _ = crate::alloc::refused();
    let watch = WATCH.with(|w| w.borrow().clone()).filter(|w| w.enter(what));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    if let Some(w) = watch {
        w.leave();
    }
    let r = r.map_err(|_| format!("{what} panicked at {}", last_panic()));
    match crate::alloc::refused() {
        Some(m) => Err(format!("{what} ends in an allocation failure at {m}")),
        None => r,
    }
}

/// `Ok(Ok(_))` parsed, `Ok(Err(_))` rejected, `Err(_)` panicked.
pub fn parse_wasm(bytes: &[u8]) -> Result<Result<ir::Items, String>, String> {
    catch("parsing", || parser::parse(bytes).map_err(|e| e.to_string()))
}

pub fn must_parse(bytes: &[u8]) -> Result<ir::Items, String> {
    parse_wasm(bytes)?.map_err(|e| format!("a well-formed module is rejected: {e}"))
}

pub fn kind_of(i: &ir::Item) -> Kind {
    match i.kind() {
        ir::ItemKind::Code(_) => Kind::Code,
        ir::ItemKind::Data(_) => Kind::Data,
        ir::ItemKind::Debug(_) => Kind::Debug,
        ir::ItemKind::Misc(_) => Kind::Misc,
    }
}

/// Read the real graph back (without the meta root).
pub fn view(items: &ir::Items) -> Result<(Graph, Vec<ir::Id>), String> {
    catch("reading the items", || {
        let root = items.meta_root();
        let mut g = Graph { total: items.size(), unique: true, ..Default::default() };
        let mut ids = vec![];
        let mut index = BTreeMap::new();
        for it in items.iter() {
            if it.id() == root {
                continue;
            }
            index.insert(it.id(), ids.len());
            ids.push(it.id());
            g.nodes.push(Node {
                name: it.name().to_string(),
                size: it.size(),
                kind: kind_of(it),
                generic: it.monomorphization_of().map(|s| s.to_string()),
            });
        }
        g.edges = vec![Default::default(); ids.len()];
        for (i, id) in ids.iter().enumerate() {
            for to in items.neighbors(*id) {
                g.edges[i].insert(index[&to]);
            }
        }
        for to in items.neighbors(root) {
            g.roots.insert(index[&to]);
        }
        let mut names = std::collections::BTreeSet::new();
        g.unique = g.nodes.iter().all(|n| names.insert(n.name.clone()));
        (g, ids)
    })
}

/// A parsed command line (input file names are irrelevant in-process).
pub fn options(args: &[String]) -> Result<opt::Options, String> {
    let argv: Vec<String> = std::iter::once("twiggy".to_string()).chain(args.iter().cloned()).collect();
    catch("option parsing", || opt::Options::from_iter_safe(&argv).map_err(|e| e.to_string()))?
        .map_err(|e| format!("options {args:?} rejected: {e}"))
}

pub type Emitted = Box<dyn traits::Emit>;

pub fn analyze(items: &mut ir::Items, new: Option<&mut ir::Items>, o: &opt::Options) -> anyhow::Result<Emitted> {
    match o {
        opt::Options::Top(t) => analyze::top(items, t),
        opt::Options::Dominators(t) => analyze::dominators(items, t),
        opt::Options::Paths(t) => analyze::paths(items, t),
        opt::Options::Monos(t) => analyze::monos(items, t),
        opt::Options::Garbage(t) => analyze::garbage(items, t),
        opt::Options::Diff(t) => analyze::diff(items, new.expect("diff needs two inputs"), t),
    }
}

/// Run one command on loaded items as the command line would.
/// Outer error: a panic. Inner error: the command reported an error.
pub fn run(items: &mut ir::Items, new: Option<&mut ir::Items>, args: &[String]) -> Result<Result<Vec<u8>, String>, String> {
    use opt::CommonCliOptions;
    let o = options(args)?;
    let what = format!("twiggy {}", args.join(" "));
    catch(&what, || {
        let data = analyze(items, new, &o).map_err(|e| e.to_string())?;
        let mut buf = Sink::default();
        let r = data.emit(items, &mut buf, o.output_format()).map_err(|e| e.to_string());
        if buf.0.len() > LONGEST {
            return Err(format!("{TOO_LONG}: more than {} MB", LONGEST >> 20));
        }
        r?;
        Ok(buf.0)
    })
    .and_then(|r| match r {
        Err(m) if m.starts_with(TOO_LONG) => Err(m),
        r => Ok(r),
    })
}

/// As `run`, for commands that must succeed.
pub fn run_ok(items: &mut ir::Items, new: Option<&mut ir::Items>, args: &[String]) -> Result<Vec<u8>, String> {
    run(items, new, args)?.map_err(|e| format!("twiggy {}: unexpected error: {e}", args.join(" ")))
}

pub fn argv(parts: &[&str]) -> Vec<String> {
    parts.iter().map(|s| s.to_string()).collect()
}
