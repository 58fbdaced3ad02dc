//! P10: spawned functions and races.

use ffi::future::{from_closure, to_closure};
use ffi::{Any, ByteString, Closure, List, Number, TypeInformation};
use pbt::{ensure, ensure_eq, fail, CaseResult, Gen};
use std::future::Future;
use std::mem::{forget, transmute};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::{Duration, Instant};
use tokio::runtime::{Builder, Runtime};

ffi::import!(_pen_spawn, async fn(closure: Closure) -> Closure);
ffi::import!(_pen_yield, async fn() -> ffi::None);
ffi::import!(_pen_race, async fn(list: List) -> List);

static SINGLE: LazyLock<Runtime> = LazyLock::new(|| Builder::new_current_thread().enable_all().build().unwrap());
static MULTIPLE: LazyLock<Runtime> = LazyLock::new(|| Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap());

fn run<T: Send + 'static>(multiple: bool, future: impl Future<Output = T> + Send + 'static) -> T {
    if multiple {
        MULTIPLE.block_on(async { tokio::spawn(future).await }).unwrap_or_else(|error| std::panic::resume_unwind(error.into_panic()))
    } else {
        SINGLE.block_on(future)
    }
}

/// Waits for something that other tasks bring about.
async fn eventually(mut condition: impl FnMut() -> bool) -> bool {
    let start = Instant::now();
    for i in 0.. {
        if condition() {
            return true;
        }
        if i < 100 {
            tokio::task::yield_now().await
        } else if start.elapsed() > Duration::from_secs(20) {
            return false;
        } else {
            tokio::time::sleep(Duration::from_millis(1)).await
        }
    }
    unreachable!()
}

/// A value that knows how it is handled.
struct Token {
    id: u64,
    synchronized: AtomicBool,
    handles: AtomicUsize,
}

mod token {
    use super::*;
    fn get(x: &u64) -> &Arc<Token> {
        unsafe { transmute(x) }
    }
    pub extern "C" fn clone(x: u64) -> u64 {
        let token = get(&x);
        token.handles.fetch_add(1, SeqCst);
        unsafe { transmute(token.clone()) }
    }
    pub extern "C" fn drop(x: u64) {
        let token: Arc<Token> = unsafe { transmute(x) };
        token.handles.fetch_sub(1, SeqCst);
    }
    pub extern "C" fn synchronize(x: u64) {
        get(&x).synchronized.store(true, SeqCst)
    }
}

static TOKEN: TypeInformation = TypeInformation::new(token::clone, token::drop, token::synchronize);

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Kind {
    Number,
    String,
    Token,
}

const KINDS: [Kind; 3] = [Kind::Number, Kind::String, Kind::Token];

/// Tokens by the values' identifiers.
type Tokens = Mutex<Vec<(u64, Arc<Token>)>>;

fn make(kind: Kind, id: u64, tokens: &Tokens) -> Any {
    match kind {
        Kind::Number => Number::from(id as f64).into(),
        Kind::String => {
            Any::from(ByteString::from(format!("the value {id}").as_str()))
        }
        Kind::Token => {
            let token = Arc::new(Token { id, synchronized: false.into(), handles: 1.into() });
            tokens.lock().unwrap().push((id, token.clone()));
            Any::new(&TOKEN, unsafe { transmute::<Arc<Token>, u64>(token) })
        }
    }
}

/// The identifier of a value, and if it may be shared between threads.
fn read(x: Any) -> Option<(u64, bool)> {
    if x.is_number() {
        return Some((f64::from(Number::try_from(x).unwrap()) as u64, true));
    }
    if x.is_string() {
        let string = ByteString::try_from(x).unwrap();
        return Some((std::str::from_utf8(string.as_slice()).ok()?.strip_prefix("the value ")?.parse().ok()?, true));
    }
    if !std::ptr::eq(x.type_information(), &TOKEN) {
        return None;
    }
    let token: Arc<Token> = unsafe { transmute(*x.payload()) };
    let result = (token.id, token.synchronized.load(SeqCst));
    forget(token);
    Some(result)
}

fn share(closure: &Closure) {
    let pointer: ffi::Arc<u8> = unsafe { transmute(closure.clone()) };
    pointer.synchronize()
}

#[derive(Clone, Debug, Hash)]
struct Function {
    id: u64,
    kind: Kind,
    /// How often it yields before and after it works.
    yields: (u64, u64),
    /// Functions that it spawns, each with the number of times that it asks for the result.
    children: Vec<(Function, u64)>,
    /// A function that must have run for this one to go on.
    after: Option<u64>,
}

struct World {
    runs: Vec<AtomicUsize>,
    ends: Vec<AtomicUsize>,
    tokens: Tokens,
    problem: Mutex<Option<(String, String)>>,
}

impl World {
    fn new(count: u64) -> Arc<Self> {
        Arc::new(Self {
            runs: (0..count).map(|_| 0.into()).collect(),
            ends: (0..count).map(|_| 0.into()).collect(),
            tokens: Default::default(),
            problem: Default::default(),
        })
    }
    fn report(&self, signature: &str, message: String) {
        self.problem.lock().unwrap().get_or_insert((signature.into(), message));
    }
    fn check(&self) -> CaseResult {
        match self.problem.lock().unwrap().take() {
            Some((signature, message)) => fail!(signature, "{message}"),
            None => Ok(()),
        }
    }
    fn result(&self, id: u64, x: Any, shared: bool) {
        match read(x) {
            None => self.report("result", format!("function {id} gives a value of another type")),
            Some((y, _)) if y != id => self.report("result", format!("function {id} gives the result of function {y}")),
            Some((_, false)) if shared => self.report("unsynchronized", format!("the result of function {id} is given to several threads but not marked as shared")),
            Some(_) => {}
        }
    }
    /// If several threads may get a result at the same time.
    fn several(demand: &Demand, multiple: bool) -> bool {
        let here = (demand.one_by_one + demand.together > 0) as usize;
        multiple && here + demand.tasks.iter().filter(|&&n| n > 0).count() > 1
    }
    async fn settle(&self) -> CaseResult {
        for (i, x) in self.runs.iter().enumerate() {
            ensure!(eventually(|| x.load(SeqCst) > 0).await, "not run", "function {i} has never been run");
        }
        for (i, x) in self.ends.iter().enumerate() {
            ensure!(eventually(|| x.load(SeqCst) > 0).await, "not finished", "function {i} has never been finished");
        }
        for (i, x) in self.runs.iter().enumerate() {
            ensure_eq!(x.load(SeqCst), 1, "runs", "runs of function {i}");
        }
        self.balance().await
    }
    async fn balance(&self) -> CaseResult {
        let tokens = std::mem::take(&mut *self.tokens.lock().unwrap());
        for (id, token) in tokens {
            ensure!(
                eventually(|| token.handles.load(SeqCst) == 0).await,
                "leak",
                "{} handles of value {id} are left",
                token.handles.load(SeqCst) as isize
            );
        }
        Ok(())
    }
}

fn function(g: &mut Gen, next: &mut u64, depth: u32) -> Function {
    let id = *next;
    *next += 1;
    let kind = *g.pick(&KINDS);
    let yields = (if g.bool() { g.below(4) } else { 0 }, if g.bool() { g.below(4) } else { 0 });
    let after = if id > 0 && g.chance(1, 5) { Some(g.below(id)) } else { None };
    let mut children = vec![];
    if depth < 3 && g.chance(1, 3) {
        for _ in 0..1 + g.below(3) {
            let demands = g.below(4);
            children.push((function(g, next, depth + 1), demands));
        }
    }
    Function { id, kind, yields, children, after }
}

fn spawn(f: Function, world: Arc<World>) -> std::pin::Pin<Box<dyn Future<Output = Closure> + Send>> {
    Box::pin(async move {
        let closure = to_closure(async move {
            world.runs[f.id as usize].fetch_add(1, SeqCst);
            for _ in 0..f.yields.0 {
                _pen_yield().await;
            }
            // A parent never waits for its own children here: they come later.
            if let Some(x) = f.after {
                while world.runs[x as usize].load(SeqCst) == 0 {
                    _pen_yield().await;
                }
            }
            for (child, demands) in f.children {
                let id = child.id;
                let closure = spawn(child, world.clone()).await;
                for _ in 0..demands {
                    let x = from_closure::<_, Any>(closure.clone()).await;
                    world.result(id, x, false);
                }
            }
            for _ in 0..f.yields.1 {
                _pen_yield().await;
            }
            world.ends[f.id as usize].fetch_add(1, SeqCst);
            make(f.kind, f.id, &world.tokens)
        });
        share(&closure);
        _pen_spawn(closure).await
    })
}

/// How often and from where a result is asked for.
#[derive(Clone, Debug, Hash)]
struct Demand {
    one_by_one: u64,
    together: u64,
    tasks: Vec<u64>,
    again: u64,
}

pub fn spawns(g: &mut Gen) -> CaseResult {
    let multiple = g.bool();
    let mut count = 0;
    let n = 1 + g.usize(4);
    let functions: Vec<(Function, Demand)> = (0..n)
        .map(|_| {
            let f = function(g, &mut count, 0);
            let mut few = |g: &mut Gen| if g.bool() { g.below(4) } else { 0 };
            let demand = Demand { one_by_one: few(g), together: few(g), tasks: (0..few(g)).map(|_| few(g)).collect(), again: few(g) };
            (f, demand)
        })
        .collect();
    g.describe(|| format!("threads: {multiple}, {functions:?}"));
    if functions.iter().any(|(_, x)| x.one_by_one + x.together + x.tasks.iter().sum::<u64>() + x.again > 1) {
        g.nontrivial(&(multiple, &functions));
    }
    g.label(if multiple { "several threads" } else { "one thread" });
    g.label_if(functions.iter().any(|(f, _)| !f.children.is_empty()), "nested");
    g.label_if(functions.iter().any(|(_, x)| x.one_by_one + x.together + x.tasks.iter().sum::<u64>() + x.again == 0), "result not used");
    run(multiple, async move {
        let world = World::new(count);
        let mut closures = vec![];
        // All are spawned first so that no function waits for one that is not.
        for (f, demand) in functions {
            let id = f.id;
            closures.push((id, spawn(f, world.clone()).await, demand));
        }
        let mut tasks = vec![];
        for (id, closure, demand) in &closures {
            share(closure);
            for &n in &demand.tasks {
                let (closure, world, id) = (closure.clone(), world.clone(), *id);
                let shared = World::several(demand, multiple);
                tasks.push(tokio::spawn(async move {
                    for _ in 0..n {
                        let x = from_closure::<_, Any>(closure.clone()).await;
                        world.result(id, x, shared);
                    }
                }));
            }
        }
        for (id, closure, demand) in &closures {
            let shared = World::several(demand, multiple);
            for _ in 0..demand.one_by_one {
                let x = from_closure::<_, Any>(closure.clone()).await;
                world.result(*id, x, shared);
            }
            let all = futures::future::join_all((0..demand.together).map(|_| from_closure::<_, Any>(closure.clone()))).await;
            for x in all {
                world.result(*id, x, shared);
            }
        }
        for task in tasks {
            if let Err(error) = task.await {
                std::panic::resume_unwind(error.into_panic())
            }
        }
        for (id, closure, demand) in closures {
            let mut kept = vec![];
            for _ in 0..demand.again {
                kept.push(from_closure::<_, Any>(closure.clone()).await);
            }
            drop(closure);
            // Results outlive the handle.
            for x in kept {
                world.result(id, x, false);
            }
        }
        world.check()?;
        world.settle().await?;
        world.check()
    })
}

#[derive(Clone, Debug, Hash)]
struct Element {
    kind: Kind,
    yields: u64,
    /// Comes only after the consumer has got this many elements of some source.
    after: Option<(usize, usize)>,
}

#[derive(Clone, Debug, Hash)]
struct Source {
    yields: u64,
    /// The list of lists has this one only after the consumer has got this many elements of an earlier one.
    after: Option<(usize, usize)>,
    lazy: bool,
    elements: Vec<Element>,
}

struct Progress {
    got: Vec<AtomicUsize>,
    ended: Vec<AtomicBool>,
    evaluations: Mutex<std::collections::HashMap<u64, usize>>,
    tokens: Tokens,
}

const WIDTH: u64 = 1 << 16;

async fn wait(progress: &Progress, yields: u64, after: Option<(usize, usize)>) {
    for _ in 0..yields {
        _pen_yield().await;
    }
    if let Some((source, n)) = after {
        while progress.got[source].load(SeqCst) < n {
            _pen_yield().await;
        }
    }
}

fn element(progress: &Progress, kind: Kind, id: u64) -> Any {
    *progress.evaluations.lock().unwrap().entry(id).or_default() += 1;
    let x = make(kind, id, &progress.tokens);
    crate::host::synchronize_any(&x);
    x
}

fn lazy_source(progress: Arc<Progress>, source: Arc<Source>, s: usize, i: usize) -> List {
    List::lazy(to_closure(async move {
        let Some(x) = source.elements.get(i) else {
            progress.ended[s].store(true, SeqCst);
            return List::new();
        };
        wait(&progress, x.yields, x.after).await;
        let first = element(&progress, x.kind, s as u64 * WIDTH + i as u64);
        List::prepend(lazy_source(progress.clone(), source.clone(), s, i + 1), first)
    }))
}

fn source_list(progress: &Arc<Progress>, source: &Source, s: usize) -> List {
    if source.lazy {
        lazy_source(progress.clone(), Arc::new(source.clone()), s, 0)
    } else {
        progress.ended[s].store(true, SeqCst);
        source.elements.iter().enumerate().map(|(i, x)| element(progress, x.kind, s as u64 * WIDTH + i as u64)).collect::<Vec<_>>().into()
    }
}

fn sources(progress: Arc<Progress>, all: Arc<Vec<Source>>, s: usize) -> List {
    List::lazy(to_closure(async move {
        let Some(source) = all.get(s) else { return List::new() };
        wait(&progress, source.yields, source.after).await;
        let list = source_list(&progress, source, s);
        List::prepend(sources(progress.clone(), all.clone(), s + 1), list)
    }))
}

fn plan(g: &mut Gen, count: usize, most: usize, gates: bool) -> Vec<Source> {
    let slow = g.bool();
    let mut all: Vec<Source> = vec![];
    let kinds = if g.bool() { vec![*g.pick(&KINDS)] } else { KINDS.to_vec() };
    for _ in 0..count {
        let n = if g.chance(1, 6) { 0 } else { g.usize(most + 1) };
        let mut few = |g: &mut Gen| if slow && g.chance(1, 3) { 1 + g.below(4) } else { 0 };
        let yields = few(g);
        let lazy = !g.chance(1, 4);
        let elements = (0..n).map(|_| Element { kind: *g.pick(&kinds), yields: few(g), after: None }).collect();
        all.push(Source { yields, after: None, lazy, elements });
    }
    if gates && count > 1 {
        // Elements wait for ones before them in an order in which the consumer could get all.
        let mut done = vec![0; count];
        // A list that is not lazy has all of its elements at once.
        let mut open: Vec<usize> = vec![];
        let mut next = 0;
        let mut last: Option<usize> = None;
        // How many lists are read at once.
        let haste = *g.pick(&[1, 1, 3, 15]);
        loop {
            let available: Vec<usize> = open.iter().copied().filter(|&s| done[s] < all[s].elements.len()).collect();
            if next < count && (available.is_empty() || g.chance(haste, haste + 1)) {
                if let Some(x) = last.filter(|_| g.chance(1, 3)) {
                    all[next].after = Some((x, done[x]));
                }
                open.push(next);
                next += 1;
            } else if available.is_empty() {
                break;
            } else {
                let s = *g.pick(&available);
                let i = done[s];
                if let Some(x) = last.filter(|&x| x != s && all[s].lazy) {
                    if g.chance(1, 2) {
                        all[s].elements[i].after = Some((x, done[x]));
                    }
                }
                done[s] += 1;
                last = Some(s);
            }
        }
    }
    all
}

async fn consume(progress: Arc<Progress>, all: Arc<Vec<Source>>, list: List, stop: Option<usize>) -> CaseResult {
    use futures::StreamExt;
    let stream = ffi::future::stream::from_list(list);
    futures::pin_mut!(stream);
    let mut total = 0;
    let mut kept = vec![];
    while stop.is_none_or(|n| total < n) {
        let Some(x) = stream.next().await else {
            for (s, source) in all.iter().enumerate() {
                ensure_eq!(progress.got[s].load(SeqCst), source.elements.len(), "lost", "elements of source {s}");
                ensure!(progress.ended[s].load(SeqCst), "early end", "the result ends before source {s} does");
            }
            return Ok(());
        };
        total += 1;
        kept.push(x.clone());
        let Some((id, _)) = read(x) else { fail!("element", "an element is no element of a source") };
        let (s, i) = ((id / WIDTH) as usize, (id % WIDTH) as usize);
        ensure!(s < all.len() && i < all[s].elements.len(), "element", "an element is no element of a source");
        let expected = progress.got[s].fetch_add(1, SeqCst);
        ensure!(i == expected, if i < expected { "duplicate" } else { "order" }, "source {s} gives its element {i} when its element {expected} is next");
    }
    Ok(())
}

fn race(g: &mut Gen, all: Vec<Source>, stop: Option<usize>) -> CaseResult {
    let multiple = g.bool();
    g.describe(|| format!("threads: {multiple}, stop: {stop:?}, {all:?}"));
    if all.iter().filter(|x| !x.elements.is_empty()).count() > 1 {
        g.nontrivial(&(multiple, &all));
    }
    g.label(if multiple { "several threads" } else { "one thread" });
    g.label_if(all.iter().any(|x| x.elements.is_empty()), "empty source");
    g.label_if(all.iter().any(|x| x.elements.iter().any(|x| x.after.is_some())), "element waits for others");
    g.label_if(all.iter().any(|x| x.after.is_some()), "source waits for others");
    g.label_if(all.iter().any(|x| x.elements.len() > 32), "more elements than buffered");
    g.label_if(all.len() > 32, "more sources than buffered");
    g.label_if(stop.is_some(), "stops early");
    let (count, all) = (all.len(), Arc::new(all));
    crate::host::SHARED.store(true, SeqCst);
    run(multiple, async move {
        let progress = Arc::new(Progress {
            got: (0..count).map(|_| 0.into()).collect(),
            ended: (0..count).map(|_| false.into()).collect(),
            evaluations: Default::default(),
            tokens: Default::default(),
        });
        let list = sources(progress.clone(), all.clone(), 0);
        let list = _pen_race(list).await;
        let result = consume(progress.clone(), all.clone(), list, stop).await;
        // Lets those go on that wait for a consumer that has stopped.
        for x in &progress.got {
            x.store(usize::MAX >> 1, SeqCst);
        }
        result?;
        for (s, x) in progress.ended.iter().enumerate() {
            ensure!(stop.is_some() || eventually(|| x.load(SeqCst)).await, "early end", "source {s} is not read to its end");
        }
        if stop.is_none() {
            for (id, n) in progress.evaluations.lock().unwrap().iter() {
                ensure_eq!(*n, 1, "evaluations", "evaluations of element {} of source {}", id % WIDTH, id / WIDTH);
            }
        }
        let tokens = std::mem::take(&mut *progress.tokens.lock().unwrap());
        if stop.is_none() {
            for (id, token) in tokens {
                ensure!(eventually(|| token.handles.load(SeqCst) == 0).await, "leak", "{} handles of element {id} are left", token.handles.load(SeqCst) as isize);
            }
        }
        Ok(())
    })
}

pub fn races(g: &mut Gen) -> CaseResult {
    let count = g.usize(6);
    let gates = g.bool();
    let all = plan(g, count, 12, gates);
    race(g, all, None)
}

/// More elements than the implementation keeps ready.
pub fn long_races(g: &mut Gen) -> CaseResult {
    let count = 1 + g.usize(8);
    let gates = g.bool();
    let all = plan(g, count, 200, gates);
    race(g, all, None)
}

/// More sources than the implementation keeps ready elements.
pub fn wide_races(g: &mut Gen) -> CaseResult {
    let count = 10 + g.usize(80);
    let most = *g.pick(&[1, 2, 4]);
    let all = plan(g, count, most, true);
    race(g, all, None)
}

pub fn stopped_races(g: &mut Gen) -> CaseResult {
    let count = 1 + g.usize(4);
    let all = plan(g, count, 40, true);
    let total: usize = all.iter().map(|x| x.elements.len()).sum();
    let stop = g.usize(total + 1);
    race(g, all, Some(stop))
}
