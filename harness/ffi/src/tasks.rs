//! F06: asynchronous calls. Programs of nested calls are run through every kind of call and compared with their value.

use crate::heap::{self, track, untracked};
use crate::token::Token;
use crate::{begin, finished, sound};
use futures::task::{waker, ArcWake};
use pbt::{ensure, ensure_eq, fail, Campaign, CaseResult, Gen, Property};
use pen_ffi::cps::{AsyncStack, ContinuationFunction, CpsError};
use pen_ffi::future::{from_closure, from_function, to_closure};
use pen_ffi::{Any, Arc, ByteString, Closure, Number};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wake {
    /// Wakes while being polled.
    Now,
    /// Wakes when the harness says so.
    Later,
}

static PARKED: Mutex<Vec<Waker>> = Mutex::new(vec![]);

pub fn yield_now(wake: Wake) -> impl Future<Output = ()> {
    let mut done = false;
    std::future::poll_fn(move |context: &mut Context| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        match wake {
            Wake::Now => context.waker().wake_by_ref(),
            Wake::Later => {
                let waker = context.waker().clone();
                untracked(|| PARKED.lock().unwrap().push(waker))
            }
        }
        Poll::Pending
    })
}

struct Signal {
    wakes: AtomicUsize,
}

impl ArcWake for Signal {
    fn wake_by_ref(this: &std::sync::Arc<Self>) {
        this.wakes.fetch_add(1, SeqCst);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Await,
    Function,
    Import,
    Call,
    Closure,
    Thunk,
    Boxed,
}

const MODES: [Mode; 7] = [Mode::Await, Mode::Function, Mode::Import, Mode::Call, Mode::Closure, Mode::Thunk, Mode::Boxed];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
    Number,
    Text,
    Shared,
    Words,
    Nothing,
    Outcome,
}

const SHAPES: [Shape; 6] = [Shape::Number, Shape::Text, Shape::Shared, Shape::Words, Shape::Nothing, Shape::Outcome];

#[derive(Debug)]
enum Program {
    Value(u64),
    Yield(u32, Wake, Box<Program>),
    Call(Mode, Shape, Box<Program>),
    Both(Box<Program>, Box<Program>),
    Loop(u32, Box<Program>),
    // Runs two calls at the same time.
    Join(Box<Program>, Box<Program>),
}

static EVALUATIONS: AtomicU64 = AtomicU64::new(0);

impl Program {
    fn value(&self) -> u64 {
        match self {
            Self::Value(x) => *x,
            Self::Yield(n, _, p) => p.value().wrapping_add(*n as u64),
            Self::Call(_, shape, p) => through(*shape, p.value()),
            Self::Both(p, q) | Self::Join(p, q) => p.value().wrapping_mul(31).wrapping_add(q.value()) & MASK,
            Self::Loop(n, p) => (p.value().wrapping_mul(*n as u64)) & MASK,
        }
    }
    fn leaves(&self) -> u64 {
        match self {
            Self::Value(_) => 1,
            Self::Yield(_, _, p) | Self::Call(_, _, p) => p.leaves(),
            Self::Both(p, q) | Self::Join(p, q) => p.leaves() + q.leaves(),
            Self::Loop(n, p) => p.leaves() * *n as u64,
        }
    }
    fn yields(&self) -> u64 {
        match self {
            Self::Value(_) => 0,
            Self::Yield(n, _, p) => *n as u64 + p.yields(),
            Self::Call(_, _, p) => p.yields(),
            Self::Both(p, q) | Self::Join(p, q) => p.yields() + q.yields(),
            Self::Loop(n, p) => p.yields() * *n as u64,
        }
    }
}

const MASK: u64 = (1 << 50) - 1;

fn through(shape: Shape, x: u64) -> u64 {
    match shape {
        Shape::Nothing => 7,
        Shape::Outcome => x ^ (x & 1),
        _ => x,
    }
}

type Link = Arc<Holder>;

pub struct Holder {
    _token: Token,
    program: *const Program,
}

unsafe impl Send for Holder {}
unsafe impl Sync for Holder {}

fn link(program: &Program) -> Link {
    Arc::new(Holder { _token: Token::new(), program })
}

fn run(program: &Program) -> Pin<Box<dyn Future<Output = u64> + '_>> {
    Box::pin(async move {
        match program {
            Program::Value(x) => {
                EVALUATIONS.fetch_add(1, SeqCst);
                *x
            }
            Program::Yield(n, wake, p) => {
                for _ in 0..*n {
                    yield_now(*wake).await;
                }
                run(p).await.wrapping_add(*n as u64)
            }
            Program::Both(p, q) => {
                let x = run(p).await;
                x.wrapping_mul(31).wrapping_add(run(q).await) & MASK
            }
            Program::Join(p, q) => {
                let (x, y) = futures::join!(run(p), run(q));
                x.wrapping_mul(31).wrapping_add(y) & MASK
            }
            Program::Loop(n, p) => {
                let mut sum = 0u64;
                for _ in 0..*n {
                    sum = sum.wrapping_add(run(p).await) & MASK;
                }
                sum
            }
            Program::Call(mode, shape, p) => call(*mode, *shape, p).await,
        }
    })
}

async fn go(link: &Link) -> u64 {
    run(unsafe { &*link.program }).await
}

#[repr(C)]
pub struct Words {
    token: Token,
    x: u64,
    text: ByteString,
    y: u64,
}

pub struct Payload {
    token: Token,
    value: u64,
    bytes: [u8; 33],
}

fn number(x: u64) -> Number {
    Number::new(x as f64)
}

fn text(x: u64) -> ByteString {
    ByteString::from(x.to_string())
}

fn shared(x: u64) -> Arc<Payload> {
    Arc::new(Payload { token: Token::new(), value: x, bytes: [x as u8; 33] })
}

fn words(x: u64) -> Words {
    Words { token: Token::new(), x, text: text(x), y: !x }
}

fn number_back(x: Number) -> u64 {
    f64::from(x) as u64
}

fn text_back(x: ByteString) -> u64 {
    std::str::from_utf8(x.as_slice()).unwrap().parse().unwrap()
}

fn shared_back(x: Arc<Payload>) -> u64 {
    assert!(x.token.intact() && x.bytes == [x.value as u8; 33], "result changed");
    x.value
}

fn words_back(x: Words) -> u64 {
    assert!(x.token.intact() && x.x == !x.y && text_back(x.text.clone()) == x.x, "result changed");
    x.x
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Failure(Arc<(Token, u64)>);

fn outcome(x: u64) -> Result<ByteString, Failure> {
    if x % 2 == 0 {
        Ok(text(x))
    } else {
        Err(Failure(Arc::new((Token::new(), x))))
    }
}

fn outcome_back(x: Any) -> u64 {
    match pen_ffi::Error::try_from(x.clone()) {
        Ok(e) => {
            drop(x);
            let f = Failure::try_from(crate::host::source(&e)).ok().expect("source of an error");
            assert!(f.0 .0.intact());
            f.0 .1 - 1
        }
        Err(()) => text_back(ByteString::try_from(x).ok().expect("string")),
    }
}

// Functions with arguments of several sizes.

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_number(link: Link) -> Number {
    number(go(&link).await)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_text(x: Number, link: Link, text_: ByteString) -> ByteString {
    let value = go(&link).await;
    assert_eq!(text_.as_slice(), f64::from(x).to_string().as_bytes(), "arguments");
    text(value)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_shared(words: Words, link: Link) -> Arc<Payload> {
    let value = go(&link).await;
    assert_eq!(words_back(words), 5, "arguments");
    shared(value)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_words(link: Link, x: pen_ffi::Boolean, other: Arc<Payload>) -> Words {
    let value = go(&link).await;
    assert_eq!(shared_back(other), bool::from(x) as u64, "arguments");
    words(value)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_nothing(link: Link) {
    go(&link).await;
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_outcome(link: Link) -> Result<ByteString, Failure> {
    outcome(go(&link).await)
}

// The same with a closure in front, as the entry functions of closures.

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_closure_number(closure: Closure, link: Link) -> Number {
    closed(&closure);
    number(go(&link).await)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_closure_text(closure: Closure, link: Link, x: Number) -> ByteString {
    let value = go(&link).await;
    closed(&closure);
    assert_eq!(f64::from(x), 2.5, "arguments");
    text(value)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_closure_shared(closure: Closure, link: Link) -> Arc<Payload> {
    let value = go(&link).await;
    closed(&closure);
    shared(value)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_closure_words(closure: Closure, other: Words, link: Link) -> Words {
    closed(&closure);
    let value = go(&link).await;
    assert_eq!(words_back(other), 9, "arguments");
    words(value)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_closure_nothing(closure: Closure, link: Link) {
    closed(&closure);
    go(&link).await;
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_closure_outcome(closure: Closure, link: Link) -> Result<ByteString, Failure> {
    closed(&closure);
    outcome(go(&link).await)
}

fn closed(closure: &Closure) {
    let (token, value) = unsafe { &*(closure.payload() as *const (Token, u64)) };
    assert!(token.intact() && *value == 77, "payload of a called closure");
}

fn closure(entry: *const u8) -> Closure {
    Closure::new(entry, (Token::new(), 77u64)).into_opaque()
}

// Functions without arguments take their program from here.
thread_local! {
    static NEXT: RefCell<Vec<Link>> = const { RefCell::new(vec![]) };
}

fn next() -> Link {
    NEXT.with(|n| n.borrow_mut().pop()).expect("HARNESS: no program")
}

fn submit(link: Link) {
    untracked(|| NEXT.with(|n| n.borrow_mut().push(link)))
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_bare_number() -> Number {
    let link = next();
    number(go(&link).await)
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_bare_words() -> Words {
    let link = next();
    words(go(&link).await)
}

mod imported {
    use super::*;
    use pen_ffi::import;

    import!(_task_number, async fn(link: Link) -> Number);
    import!(_task_text, async fn(x: Number, link: Link, text: ByteString) -> ByteString);
    import!(_task_shared, async fn(words: Words, link: Link) -> Arc<Payload>);
    import!(_task_words, async fn(link: Link, x: pen_ffi::Boolean, other: Arc<Payload>) -> Words);
    import!(_task_nothing, async fn(link: Link) -> pen_ffi::None);
    import!(_task_outcome, async fn(link: Link) -> Any);

    pub async fn run(shape: Shape, link: Link) -> u64 {
        match shape {
            Shape::Number => number_back(_task_number(link).await),
            Shape::Text => text_back(_task_text(Number::new(1.5), link, ByteString::from("1.5")).await),
            Shape::Shared => shared_back(_task_shared(words(5), link).await),
            Shape::Words => words_back(_task_words(link, true.into(), shared(1)).await),
            Shape::Nothing => {
                _task_nothing(link).await;
                7
            }
            Shape::Outcome => outcome_back(_task_outcome(link).await),
        }
    }
}

// A native function seen through its continuation-passing type.
macro_rules! cast {
    ($function:ident, fn($($argument:ty),*) -> $result:ty) => {
        unsafe { std::mem::transmute::<*const u8, extern "C" fn(&mut pen_ffi::cps::AsyncStack<$result>, pen_ffi::cps::ContinuationFunction<$result, $result>, $($argument),*)>($function as *const u8) }
    };
}

async fn called(shape: Shape, link: Link) -> u64 {
    use pen_ffi::call_function;
    match shape {
        Shape::Number => number_back(call_function!(fn(Link) -> Number, cast!(_task_number, fn(Link) -> Number), link).await),
        Shape::Text => text_back(
            call_function!(
                fn(Number, Link, ByteString) -> ByteString,
                cast!(_task_text, fn(Number, Link, ByteString) -> ByteString),
                Number::new(3.0),
                link,
                ByteString::from("3")
            )
            .await,
        ),
        Shape::Shared => shared_back(
            call_function!(fn(Words, Link) -> Arc<Payload>, cast!(_task_shared, fn(Words, Link) -> Arc<Payload>), words(5), link).await,
        ),
        Shape::Words => words_back(
            call_function!(
                fn(Link, pen_ffi::Boolean, Arc<Payload>) -> Words,
                cast!(_task_words, fn(Link, pen_ffi::Boolean, Arc<Payload>) -> Words),
                link,
                false.into(),
                shared(0)
            )
            .await,
        ),
        Shape::Nothing => {
            call_function!(fn(Link) -> pen_ffi::None, cast!(_task_nothing, fn(Link) -> pen_ffi::None), link).await;
            7
        }
        Shape::Outcome => outcome_back(call_function!(fn(Link) -> Any, cast!(_task_outcome, fn(Link) -> Any), link).await),
    }
}

async fn called_closure(shape: Shape, link: Link) -> u64 {
    use pen_ffi::call;
    // The macro sees the payload of a closure as its result.
    fn typed<T>(c: Closure) -> Closure<T> {
        unsafe { std::mem::transmute(c) }
    }
    match shape {
        Shape::Number => number_back(call!(fn(Link) -> Number, typed(closure(_task_closure_number as *const u8)), link).await),
        Shape::Text => text_back(
            call!(fn(Link, Number) -> ByteString, typed(closure(_task_closure_text as *const u8)), link, Number::new(2.5)).await,
        ),
        Shape::Shared => shared_back(call!(fn(Link) -> Arc<Payload>, typed(closure(_task_closure_shared as *const u8)), link).await),
        Shape::Words => {
            words_back(call!(fn(Words, Link) -> Words, typed(closure(_task_closure_words as *const u8)), words(9), link).await)
        }
        Shape::Nothing => {
            call!(fn(Link) -> pen_ffi::None, typed(closure(_task_closure_nothing as *const u8)), link).await;
            7
        }
        Shape::Outcome => outcome_back(call!(fn(Link) -> Any, typed(closure(_task_closure_outcome as *const u8)), link).await),
    }
}

async fn converted(shape: Shape, link: Link) -> u64 {
    match shape {
        Shape::Number => number_back(from_closure::<(), Number>(to_closure(async move { number(go(&link).await) })).await),
        Shape::Text => text_back(from_closure::<(), ByteString>(to_closure(async move { text(go(&link).await) })).await),
        Shape::Shared => {
            let c: Closure = async move { shared(go(&link).await) }.into();
            shared_back(from_closure::<(), Arc<Payload>>(c).await)
        }
        Shape::Words => words_back(from_closure::<(), Words>(to_closure(async move { words(go(&link).await) })).await),
        Shape::Nothing => {
            from_closure::<(), ()>(to_closure(async move {
                go(&link).await;
            }))
            .await;
            7
        }
        Shape::Outcome => outcome_back(
            from_closure::<(), Any>(to_closure(async move {
                let r: pen_ffi::extra::Result = outcome(go(&link).await).into();
                unsafe { std::mem::transmute::<_, Any>(r) }
            }))
            .await,
        ),
    }
}

async fn bare(shape: Shape, link: Link) -> u64 {
    unsafe {
        let x = match shape {
            Shape::Number | Shape::Outcome | Shape::Nothing => {
                type F = unsafe extern "C" fn(&mut AsyncStack<Number>, ContinuationFunction<Number, Number>);
                let mut f = Box::pin(from_function::<Number>(std::mem::transmute::<*const u8, F>(_task_bare_number as *const u8)));
                submit(link);
                number_back(f.as_mut().await)
            }
            _ => {
                type F = unsafe extern "C" fn(&mut AsyncStack<Words>, ContinuationFunction<Words, Words>);
                let mut f = Box::pin(from_function::<Words>(std::mem::transmute::<*const u8, F>(_task_bare_words as *const u8)));
                submit(link);
                words_back(f.as_mut().await)
            }
        };
        through(shape, x)
    }
}

async fn call(mode: Mode, shape: Shape, p: &Program) -> u64 {
    let link = link(p);
    match mode {
        Mode::Await => through(shape, go(&link).await),
        Mode::Function => called(shape, link).await,
        Mode::Import => imported::run(shape, link).await,
        Mode::Call => called_closure(shape, link).await,
        Mode::Closure => converted(shape, link).await,
        Mode::Thunk => bare(shape, link).await,
        // Within the runtime context.
        Mode::Boxed => {
            let x = pen_ffi::runtime::run(async {
                let inside = tokio::runtime::Handle::try_current().is_ok();
                (go(&link).await, inside)
            })
            .await;
            assert!(x.1, "no runtime context");
            through(shape, x.0)
        }
    }
}

fn program(g: &mut Gen, depth: u32, later: bool) -> Program {
    if depth == 0 {
        return Program::Value(g.below(1 << 40));
    }
    match g.weighted(&[1, 3, 6, 2, 1, 1]) {
        0 => Program::Value(g.below(1 << 40)),
        1 => {
            let wake = if later && g.bool() { Wake::Later } else { Wake::Now };
            Program::Yield(1 + g.below(3) as u32, wake, program(g, depth - 1, later).into())
        }
        2 => Program::Call(*g.pick(&MODES), *g.pick(&SHAPES), program(g, depth - 1, later).into()),
        3 => Program::Both(program(g, depth - 1, later).into(), program(g, depth - 1, later).into()),
        4 => Program::Loop(1 + g.below(5) as u32, program(g, depth.min(3) - 1, later).into()),
        _ => Program::Join(program(g, depth - 1, later).into(), program(g, depth - 1, later).into()),
    }
}

/// Polls a future that wakes itself until it is ready.
pub fn complete<T>(future: impl Future<Output = T>) -> T {
    let mut future = std::pin::pin!(future);
    let waker = futures::task::noop_waker();
    let mut context = Context::from_waker(&waker);
    for _ in 0..1_000_000 {
        if let Poll::Ready(value) = future.as_mut().poll(&mut context) {
            return value;
        }
    }
    panic!("a call does not finish")
}

fn calls(g: &mut Gen) -> CaseResult {
    // What the runtime keeps for good.
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| complete(pen_ffi::runtime::run(async {})));
    begin();
    PARKED.lock().unwrap().clear();
    NEXT.with(|n| n.borrow_mut().clear());
    EVALUATIONS.store(0, SeqCst);
    let depth = 1 + g.below(7) as u32;
    let mode = *g.pick(&MODES);
    let shape = *g.pick(&SHAPES);
    let program = Program::Call(mode, shape, program(g, depth, true).into());
    g.describe(|| format!("{program:?}"));
    let (expected, leaves, yields) = (program.value(), program.leaves(), program.yields());
    if yields > 10_000 {
        g.discard();
        return Ok(());
    }
    let spurious = g.chance(1, 4);
    let signal = std::sync::Arc::new(Signal { wakes: AtomicUsize::new(0) });
    let waker = waker(signal.clone());
    let mut context = Context::from_waker(&waker);
    let mut future = track(|| run(&program));
    let mut polls = 0;
    let value = loop {
        let before = signal.wakes.load(SeqCst);
        polls += 1;
        match track(|| future.as_mut().poll(&mut context)) {
            Poll::Ready(value) => break value,
            Poll::Pending => {
                sound()?;
                let woken = signal.wakes.load(SeqCst) > before;
                let mut parked = PARKED.lock().unwrap();
                if !woken || g.bool() {
                    if parked.is_empty() && !woken {
                        fail!("lost wake-up", "a suspended call never wakes its caller");
                    }
                    // Some of those that wait are woken.
                    let n = (1 + g.usize(parked.len().max(1))).min(parked.len());
                    let chosen: Vec<Waker> = (0..n).map(|_| parked.swap_remove(0)).collect();
                    drop(parked);
                    let before = signal.wakes.load(SeqCst);
                    let some = !chosen.is_empty();
                    chosen.into_iter().for_each(|w| w.wake());
                    ensure!(!some || signal.wakes.load(SeqCst) > before, "lost wake-up", "waking a suspended call does not reach its caller");
                } else {
                    drop(parked);
                }
                if spurious && g.chance(1, 3) {
                    g.label("polled without a wake-up");
                    if let Poll::Ready(value) = track(|| future.as_mut().poll(&mut context)) {
                        break value;
                    }
                }
            }
        }
        if polls > 100_000 {
            fail!("no end", "a call does not finish");
        }
    };
    track(|| drop(future));
    PARKED.lock().unwrap().clear();
    ensure_eq!(value, expected, "result", "the result of nested calls");
    ensure_eq!(EVALUATIONS.load(SeqCst), leaves, "evaluations", "how often the innermost functions ran");
    g.label(format!("{mode:?}"));
    g.label(format!("{shape:?}"));
    g.label_if(yields > 0, "suspends");
    if yields > 0 && leaves > 1 {
        g.nontrivial(&format!("{program:?}"));
    }
    drop(context);
    drop(waker);
    finished()
}

// ---------------------------------------------------------------- the protocol of asynchronous stacks

static STEPS: AtomicU64 = AtomicU64::new(0);

extern "C" fn continuation(_: &mut AsyncStack, value: u64) {
    STEPS.store(value, SeqCst);
}

fn step(stack: &mut AsyncStack, continue_: ContinuationFunction<u64>) {
    let future = stack.restore::<std::future::Ready<u64>>().unwrap();
    continue_(stack, future.into_inner());
}

/// Suspensions, trampolines, resumptions and restorations against the order in which they are allowed.
fn protocol(g: &mut Gen) -> CaseResult {
    begin();
    let signal = std::sync::Arc::new(Signal { wakes: AtomicUsize::new(0) });
    let waker = waker(signal.clone());
    let mut context = Context::from_waker(&waker);
    let capacity = *g.pick(&[1, 8, 64]);
    let mut stack = track(|| AsyncStack::new(capacity));
    let n = 1 + g.len(20);
    // What must come next; pending calls hold the value to deliver.
    #[derive(Debug, PartialEq, Clone, Copy)]
    enum State {
        Running,
        Suspended(u64),
        Bounced(u64),
        Restoring(u64),
    }
    let mut state = State::Running;
    let mut trace = vec![];
    for _ in 0..n {
        let valid = g.chance(9, 10);
        let value = g.u64();
        let action = match (state, valid) {
            (State::Running, true) => g.below(2),
            (State::Suspended(_) | State::Bounced(_), true) => 2,
            (State::Restoring(_), true) => 3,
            (_, false) => g.below(4),
        };
        trace.push(action);
        let before = signal.wakes.load(SeqCst);
        let result = match action {
            0 => track(|| stack.suspend(step, continuation, std::future::ready(value))),
            1 => track(|| stack.run_with_context(&mut context, |stack| stack.trampoline(continuation, value))),
            2 => match track(|| stack.resume::<u64>()) {
                Ok((step, continue_)) => {
                    if let State::Bounced(value) = state {
                        STEPS.store(!value, SeqCst);
                        track(|| step(&mut stack, continue_));
                        ensure_eq!(STEPS.load(SeqCst), value, "trampoline value", "the value given to a trampoline's continuation");
                    }
                    if state == State::Running {
                        fail!("resumed without a suspension", "{trace:?}");
                    }
                    ensure!(continue_ as usize == continuation as usize, "continuation", "the continuation of a suspension");
                    Ok(())
                }
                Err(e) => Err(e),
            },
            _ => match track(|| stack.restore::<std::future::Ready<u64>>()) {
                Ok(future) => {
                    if let State::Restoring(value) = state {
                        ensure_eq!(future.into_inner(), value, "restored future", "the future restored after a suspension");
                    }
                    Ok(())
                }
                Err(e) => Err(e),
            },
        };
        let allowed = match (state, action) {
            (State::Running, 0) => Some(State::Suspended(value)),
            (State::Running, 1) => Some(State::Bounced(value)),
            (State::Suspended(v), 2) => Some(State::Restoring(v)),
            (State::Bounced(_), 2) => Some(State::Running),
            (State::Restoring(_), 3) => Some(State::Running),
            _ => None,
        };
        match (allowed, result) {
            (Some(next), Ok(())) => {
                if action == 1 {
                    ensure!(signal.wakes.load(SeqCst) > before, "trampoline does not wake", "a trampoline must wake its caller");
                }
                state = next
            }
            (None, Err(CpsError::UnexpectedAsyncStackAction(expected))) => {
                let name = match state {
                    State::Running => "Suspend",
                    State::Suspended(_) | State::Bounced(_) => "Resume",
                    State::Restoring(_) => "Restore",
                };
                ensure_eq!(format!("{:?}", expected.unwrap()), name, "expected action", "the action named by an error after {trace:?}");
                break;
            }
            (Some(_), Err(e)) => fail!("allowed action refused", "{e} after {trace:?}"),
            (None, Ok(())) => fail!("wrong action accepted", "{trace:?}"),
            (None, Err(e)) => fail!("wrong error", "{e} after {trace:?}"),
        }
        sound()?;
    }
    if trace.len() > 4 {
        g.nontrivial(&g.recorded().to_vec());
    }
    // Resolved values are given once.
    let mut other = track(|| AsyncStack::<ByteString>::new(64));
    ensure!(other.resolved_value().is_none(), "resolved value", "an unresolved stack has a value");
    track(|| other.resolve(ByteString::from("x")));
    let value = track(|| other.resolved_value().map(|x| x.as_slice() == b"x"));
    ensure_eq!(value, Some(true), "resolved value", "the resolved value");
    ensure!(other.resolved_value().is_none(), "resolved value", "a resolved value is given twice");
    ensure!(other.context().is_none(), "context", "a context outside a run");
    other.run_with_context(&mut context, |stack| stack.context().unwrap().waker().wake_by_ref());
    ensure!(other.context().is_none(), "context", "a context outlives its run");
    let refused = track(|| AsyncStack::<()>::new(64)).trampoline(continuation_unit, ());
    ensure_eq!(refused, Err(CpsError::MissingContext), "trampoline without a context", "trampoline without a context");
    track(|| drop((stack, other)));
    finished()
}

extern "C" fn continuation_unit(_: &mut AsyncStack, _: ()) {}

// ---------------------------------------------------------------- loops of compiled code

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn _task_next(x: Number, text_: ByteString, suspensions: Number) -> Number {
    for _ in 0..f64::from(suspensions) as u64 {
        yield_now(Wake::Now).await;
    }
    number(number_back(x) + text_.as_slice().len() as u64)
}

type Next = extern "C" fn(&mut AsyncStack<Number>, ContinuationFunction<Number, Number>, Number, ByteString, Number);

static PATTERN: AtomicU64 = AtomicU64::new(0);
static LENGTH: AtomicU64 = AtomicU64::new(0);

// Calls a native function over and over, as a loop of compiled code does: each call is the last thing its predecessor's
// continuation does, and the state of the loop is on the stack of continuations.
extern "C" fn again(stack: &mut AsyncStack<Number>, value: Number) {
    let text = stack.pop::<ByteString>();
    let left = stack.pop::<u64>();
    if left == 0 {
        stack.resolve(value);
    } else {
        stack.push(left - 1);
        stack.push(text.clone());
        // Every 64 calls follow the same pattern of suspensions.
        let suspensions = PATTERN.load(SeqCst) >> (left & 63) & 1;
        (unsafe { std::mem::transmute::<*const u8, Next>(_task_next as *const u8) })(stack, again, value, text, number(suspensions));
    }
}

extern "C" fn start(stack: &mut AsyncStack<Number>, continue_: ContinuationFunction<Number, Number>) {
    // The continuation resolves the stack, as the one of the caller does.
    let _ = continue_;
    stack.push(LENGTH.load(SeqCst));
    stack.push(text(7));
    again(stack, number(0))
}

fn loops(g: &mut Gen) -> CaseResult {
    begin();
    let n = if g.chance(1, 12) { 20_000 + g.below(200_000) } else { g.below(300) };
    let pattern = match g.below(3) {
        0 => 0,
        1 => u64::MAX,
        _ => g.u64(),
    };
    g.describe(|| format!("{n} calls, pattern of suspensions {pattern:#x}"));
    PATTERN.store(pattern, SeqCst);
    LENGTH.store(n, SeqCst);
    if n > 1 {
        g.nontrivial(&(n, pattern));
    }
    g.label_if(n > 10_000, "more than 10,000 calls in a row");
    let value = track(|| {
        type F = unsafe extern "C" fn(&mut AsyncStack<Number>, ContinuationFunction<Number, Number>);
        complete(unsafe { from_function::<Number>(std::mem::transmute::<*const u8, F>(start as *const u8)) })
    });
    ensure_eq!(number_back(value), n, "result", "the result of {n} calls in a row");
    finished()
}

// ---------------------------------------------------------------- synchronous native functions

#[pen_ffi::bindgen(crate = "pen_ffi")]
fn _sync_outcome(x: Number) -> Result<ByteString, Failure> {
    outcome(number_back(x))
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
fn _sync_nothing(x: Arc<Payload>) {
    LAST.store(shared_back(x), SeqCst);
}

#[pen_ffi::bindgen(crate = "pen_ffi")]
fn _sync_mutable(mut x: Words) -> Words {
    x.x += 1;
    x.y -= 1;
    x.text = text(x.x);
    x
}

static LAST: AtomicU64 = AtomicU64::new(0);

fn sync(g: &mut Gen) -> CaseResult {
    begin();
    let x = g.below(1 << 40);
    g.nontrivial(&x);
    track(|| -> CaseResult {
        let r = _sync_outcome(number(x));
        ensure_eq!(outcome_back(unsafe { std::mem::transmute(r) }), x ^ (x & 1), "synchronous result", "a fallible function");
        let pen_ffi::None { .. } = _sync_nothing(shared(x));
        ensure_eq!(LAST.load(SeqCst), x, "synchronous argument", "a function without a result");
        ensure_eq!(words_back(_sync_mutable(words(x))), x + 1, "synchronous result", "a function with a mutable argument");
        Ok(())
    })?;
    heap::fault_found().ok();
    finished()
}

pub fn property() -> Property {
    Property {
        id: "F06",
        level: "exploration",
        rule: "a case is non-trivial if the calls suspend and run two innermost functions or more, or if the history has more than four actions",
        assumptions: &["Calls are polled until they finish; cancelling a suspended call is not part of the calling convention."],
        campaigns: vec![
            Campaign::new("nested calls", 800_000, 25_000_000, calls),
            Campaign::new("stack protocol", 500_000, 10_000_000, protocol),
            Campaign::new("calls in a row", 2_000, 40_000, loops),
            Campaign::new("synchronous calls", 100_000, 2_000_000, sync),
        ],
    }
}
