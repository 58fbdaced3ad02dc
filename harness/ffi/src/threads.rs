//! F02: values shared between threads, under schedules owned by the harness and running freely.
//!
//! With `--cfg pen_verif` every operation on a count calls `observe` first. The harness then decides which thread goes
//! on, and keeps vector clocks that follow the orderings given to the operations, so that a missing release or acquire
//! is found on any machine.

use crate::heap::{self, track};
use crate::token::{self, Token};
use crate::{begin, finished};
use pbt::{ensure, fail, Campaign, CaseResult, Gen, Property};
use pen_ffi::verif::{self, Operation};
use pen_ffi::{Any, Arc, ByteString, Closure, Error};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex};

const THREADS: usize = 4;
type Clock = [u32; THREADS];

fn join(a: &mut Clock, b: &Clock) {
    for i in 0..THREADS {
        a[i] = a[i].max(b[i]);
    }
}

#[derive(Default)]
struct Location {
    /// What an acquiring reader of the location learns.
    released: Clock,
}

struct State {
    running: Option<usize>,
    done: [bool; THREADS],
    threads: usize,
    choices: Vec<u64>,
    next: usize,
    switches: usize,
    clocks: [Clock; THREADS],
    /// What relaxed reads have seen, taken over by an acquire fence.
    seen: [Clock; THREADS],
    /// What the thread had released by a fence, given on by relaxed writes.
    fenced: [Clock; THREADS],
    locations: HashMap<usize, Location>,
    /// Accesses to each payload by each thread.
    accesses: HashMap<u32, Clock>,
    race: Option<String>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static CHANGED: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    heap::untracked(|| f(STATE.lock().unwrap_or_else(|e| e.into_inner()).as_mut().expect("HARNESS: no schedule")))
}

/// Gives the turn to a thread chosen by the schedule and waits for the own turn.
fn turn(me: usize, finished: bool) {
    heap::untracked(|| {
        let mut guard = STATE.lock().unwrap_or_else(|e| e.into_inner());
        let state = guard.as_mut().expect("HARNESS: no schedule");
        if finished {
            state.done[me] = true;
        }
        let ready: Vec<usize> = (0..state.threads).filter(|i| !state.done[*i]).collect();
        if ready.is_empty() {
            state.running = None;
            CHANGED.notify_all();
            return;
        }
        let choice = state.choices.get(state.next).copied().unwrap_or(0);
        state.next += 1;
        // Zero goes on with the same thread.
        let next = if choice == 0 && !finished { me } else { ready[choice as usize % ready.len()] };
        if next != me {
            state.switches += 1;
        }
        state.running = Some(next);
        CHANGED.notify_all();
        if finished {
            return;
        }
        while guard.as_ref().unwrap().running != Some(me) {
            guard = CHANGED.wait(guard).unwrap_or_else(|e| e.into_inner());
        }
    })
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}

fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

fn observe(address: *const (), operation: Operation) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    turn(me, false);
    with(|state| {
        state.clocks[me][me] += 1;
        let clock = state.clocks[me];
        match operation {
            Operation::Fence(o) => {
                if acquires(o) {
                    let seen = state.seen[me];
                    join(&mut state.clocks[me], &seen);
                }
                if releases(o) {
                    state.fenced[me] = state.clocks[me];
                }
            }
            Operation::Load(o) => {
                let released = state.locations.entry(address as usize).or_default().released;
                join(&mut state.seen[me], &released);
                if acquires(o) {
                    join(&mut state.clocks[me], &released);
                }
            }
            Operation::Store(o) => {
                // A plain store ends what earlier writers released.
                let given = if releases(o) { clock } else { state.fenced[me] };
                state.locations.entry(address as usize).or_default().released = given;
            }
            Operation::Update(o) => {
                let released = state.locations.entry(address as usize).or_default().released;
                join(&mut state.seen[me], &released);
                if acquires(o) {
                    join(&mut state.clocks[me], &released);
                }
                // An update goes on with the releases before it.
                let given = if releases(o) { state.clocks[me] } else { state.fenced[me] };
                join(&mut state.locations.get_mut(&(address as usize)).unwrap().released, &given);
            }
        }
    })
}

/// Notes an access to a payload, which must come after every access of another thread if it is exclusive.
fn access(id: u32, exclusive: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    with(|state| {
        state.clocks[me][me] += 1;
        let clock = state.clocks[me];
        let past = state.accesses.entry(id).or_default();
        if exclusive {
            for other in 0..THREADS {
                if other != me && past[other] > clock[other] {
                    state.race.get_or_insert(format!(
                        "thread {me} drops or changes payload {id} without having seen the last access of thread {other}"
                    ));
                }
            }
        }
        past[me] = clock[me];
    })
}

/// A payload that is read and dropped under observation.
pub struct Watched {
    token: Token,
    value: u64,
    text: ByteString,
}

impl Drop for Watched {
    fn drop(&mut self) {
        access(self.token.id, true);
    }
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Erased(Arc<Watched>);

fn watched(seed: u64) -> Watched {
    Watched { token: Token::new(), value: seed, text: ByteString::from(seed.to_string()) }
}

#[derive(Clone)]
enum Handle {
    Direct(Arc<Watched>),
    Closure(Closure),
    Any(Any),
    Error(Error),
}

impl Handle {
    fn read(&self, seed: u64) -> bool {
        let check = |w: &Watched| {
            access(w.token.id, false);
            w.token.intact() && w.value == seed && w.text.as_slice() == seed.to_string().as_bytes()
        };
        match self {
            Self::Direct(x) => check(x),
            Self::Closure(x) => check(unsafe { &*(x.payload() as *const Watched) }),
            Self::Any(x) => <&Erased>::try_from(x).is_ok_and(|x| check(&x.0)),
            Self::Error(x) => <&Erased>::try_from(&crate::host::source(x)).is_ok_and(|x| check(&x.0)),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Action {
    Clone(usize),
    Drop(usize),
    Read(usize),
    Mutate(usize),
}

unsafe impl Send for Script {}

struct Script {
    handles: Vec<(Handle, u64)>,
    actions: Vec<Action>,
}

/// Runs a script; handles left over are dropped at its end.
fn perform(script: Script) -> CaseResult {
    let Script { mut handles, actions } = script;
    let result = (|| {
        for action in actions {
            if handles.is_empty() {
                break;
            }
            match action {
                Action::Clone(i) => {
                    let (h, seed) = &handles[i % handles.len()];
                    let new = (track(|| h.clone()), *seed);
                    handles.push(new);
                }
                Action::Drop(i) => {
                    let i = i % handles.len();
                    let (h, _) = handles.swap_remove(i);
                    track(|| drop(h));
                }
                Action::Read(i) => {
                    let (h, seed) = &handles[i % handles.len()];
                    if !track(|| h.read(*seed)) {
                        fail!("shared payload changed", "a thread does not read what was written before sharing");
                    }
                }
                Action::Mutate(i) => {
                    let i = i % handles.len();
                    if let (Handle::Direct(arc), seed) = &mut handles[i] {
                        if let Some(w) = track(|| Arc::get_mut(arc)) {
                            access(w.token.id, true);
                            w.value = *seed + 1;
                            w.text = track(|| ByteString::from((*seed + 1).to_string()));
                            *seed += 1;
                        }
                    }
                }
            }
        }
        Ok(())
    })();
    for (h, _) in handles {
        track(|| drop(h));
    }
    result
}

fn make(g: &mut Gen, seed: u64) -> Handle {
    // Values are marked as shared by the compiler's generated code through the count, here through a second handle.
    let direct = |w: Watched| {
        let text = w.text.clone();
        let arc = Arc::new(w);
        synchronize_text(&text);
        arc.clone().synchronize();
        arc
    };
    match g.below(4) {
        0 => Handle::Direct(track(|| direct(watched(seed)))),
        1 => Handle::Closure(track(|| {
            let w = watched(seed);
            synchronize_text(&w.text);
            let closure = Closure::new(std::ptr::null(), w).into_opaque();
            // A closure is a counted block like any other.
            let arc: &Arc<u64> = unsafe { std::mem::transmute(&closure) };
            raw_synchronize(arc);
            closure
        })),
        2 => Handle::Any(track(|| Erased(direct(watched(seed))).into())),
        _ => Handle::Error(track(|| {
            let e = Error::new(Erased(direct(watched(seed))));
            let arc: &Arc<u64> = unsafe { std::mem::transmute(&e) };
            raw_synchronize(arc);
            e
        })),
    }
}

fn synchronize_text(text: &ByteString) {
    if !text.as_slice().is_empty() {
        let arc: &Arc<u64> = unsafe { std::mem::transmute(text) };
        raw_synchronize(arc);
    }
}

/// Marks a block as shared through a further handle of it.
fn raw_synchronize(arc: &Arc<u64>) {
    arc.clone().synchronize();
}

fn scripts(g: &mut Gen, threads: usize, length: usize) -> Vec<Script> {
    let values: Vec<(Handle, u64)> = (0..1 + g.usize(2))
        .map(|_| {
            let seed = 1 + g.below(1000);
            (make(g, seed), seed)
        })
        .collect();
    let mut scripts: Vec<Script> = (0..threads)
        .map(|_| Script {
            handles: values.iter().filter(|_| g.chance(4, 5)).map(|(h, s)| (track(|| h.clone()), *s)).collect(),
            actions: (0..g.usize(length + 1))
                .map(|_| {
                    let i = g.usize(4);
                    match g.weighted(&[3, 4, 2, 1]) {
                        0 => Action::Clone(i),
                        1 => Action::Drop(i),
                        2 => Action::Read(i),
                        _ => Action::Mutate(i),
                    }
                })
                .collect(),
        })
        .collect();
    // The first thread takes the original handles.
    scripts[0].handles.extend(values);
    scripts
}

fn scheduled(g: &mut Gen) -> CaseResult {
    begin();
    verif::observe(None);
    let threads = 2 + g.usize(THREADS - 1);
    let scripts = scripts(g, threads, 6);
    let choices: Vec<u64> = (0..200).map(|_| if g.chance(1, 2) { 1 + g.below(THREADS as u64) } else { 0 }).collect();
    g.describe(|| {
        scripts.iter().enumerate().map(|(i, s)| format!("thread {i}: {} handles, {:?}", s.handles.len(), s.actions)).collect::<Vec<_>>().join("\n")
    });
    let shared = scripts.iter().filter(|s| !s.handles.is_empty()).count() > 1;
    *STATE.lock().unwrap_or_else(|e| e.into_inner()) = Some(State {
        running: Some(0),
        done: [false; THREADS],
        threads,
        choices,
        next: 0,
        switches: 0,
        clocks: [[0; THREADS]; THREADS],
        seen: [[0; THREADS]; THREADS],
        fenced: [[0; THREADS]; THREADS],
        locations: HashMap::new(),
        accesses: HashMap::new(),
        race: None,
    });
    verif::observe(Some(observe));
    let results: Vec<CaseResult> = std::thread::scope(|scope| {
        let handles: Vec<_> = scripts
            .into_iter()
            .enumerate()
            .map(|(i, script)| {
                scope.spawn(move || {
                    ME.with(|m| m.set(i));
                    {
                        let mut guard = STATE.lock().unwrap_or_else(|e| e.into_inner());
                        while guard.as_ref().unwrap().running != Some(i) {
                            guard = CHANGED.wait(guard).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(script)))
                        .unwrap_or_else(|_| Err(pbt::Failure::new("panic", "a thread panicked")));
                    ME.with(|m| m.set(usize::MAX));
                    turn(i, true);
                    result
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    verif::observe(None);
    let state = STATE.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
    for r in results {
        r?;
    }
    if let Some(race) = state.race {
        fail!("unordered accesses", "{race}");
    }
    g.label_if(state.switches > 3, "more than three switches");
    if shared && state.switches > 1 {
        g.nontrivial(&g.recorded().to_vec());
    }
    finished()
}

fn free(g: &mut Gen) -> CaseResult {
    begin();
    verif::observe(None);
    let threads = 2 + g.usize(THREADS - 1);
    let mut scripts = scripts(g, threads, 6);
    for s in &mut scripts {
        // Many times the same actions, to meet the others.
        let actions = s.actions.clone();
        s.actions = (0..40).flat_map(|_| actions.iter().copied().filter(|a| !matches!(a, Action::Drop(_)))).chain(actions.clone()).take(300).collect();
    }
    let start = std::sync::Barrier::new(threads);
    let results: Vec<CaseResult> = std::thread::scope(|scope| {
        let handles: Vec<_> = scripts
            .into_iter()
            .map(|s| {
                scope.spawn(|| {
                    start.wait();
                    perform(s)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(pbt::Failure::new("panic", "a thread panicked")))).collect()
    });
    for r in results {
        r?;
    }
    g.nontrivial(&g.recorded().to_vec());
    ensure!(token::garbage() == 0, "payload dropped twice", "a payload was used after it was dropped");
    finished()
}

pub fn property() -> Property {
    Property {
        id: "F02",
        level: "exploration",
        rule: "a case is non-trivial if several threads hold handles and the schedule switched between them twice or more",
        assumptions: &[
            "Memory orderings are judged by vector clocks over the orderings given to count operations; loads see the latest store.",
        ],
        campaigns: vec![Campaign::new("owned schedules", 150_000, 3_000_000, scheduled), Campaign::new("free threads", 40_000, 500_000, free)],
    }
}
