//! F01: histories of handles.

use crate::heap::{self, track};
use crate::token::{self, Token};
use crate::{begin, finished, sound};
use pbt::{ensure, ensure_eq, fail, Campaign, CaseResult, Gen, Property};
use pen_ffi::{Any, Arc, ArcBuffer, ByteString, Closure, Error};
use std::fmt::Debug;

pub trait Payload: Sized + 'static {
    /// Blocks that a payload owns.
    const BLOCKS: usize;
    const TOKENS: usize;
    fn make(seed: u64) -> Self;
    fn seed(&self) -> Option<u64>;
    fn set(&mut self, seed: u64);
}

macro_rules! plain {
    ($type:ty, $make:expr, $read:expr) => {
        impl Payload for $type {
            const BLOCKS: usize = 0;
            const TOKENS: usize = 0;
            fn make(seed: u64) -> Self {
                $make(seed)
            }
            fn seed(&self) -> Option<u64> {
                $read(self)
            }
            fn set(&mut self, seed: u64) {
                *self = Self::make(seed)
            }
        }
    };
}

plain!(u8, |s| s as u8, |x: &u8| Some(*x as u64));
plain!(u16, |s| s as u16, |x: &u16| Some(*x as u64));
plain!(f64, |s| s as f64, |x: &f64| Some(*x as u64));
plain!([u8; 3], |s| [s as u8; 3], |x: &[u8; 3]| x.iter().all(|y| *y == x[0]).then_some(x[0] as u64));
plain!([u64; 5], |s| [s; 5], |x: &[u64; 5]| x.iter().all(|y| *y == x[0]).then_some(x[0]));
plain!([u8; 1001], |s| [s as u8; 1001], |x: &[u8; 1001]| x.iter().all(|y| *y == x[0]).then_some(x[0] as u64));

pub struct Small(Token, u8);

impl Payload for Small {
    const BLOCKS: usize = 0;
    const TOKENS: usize = 1;
    fn make(seed: u64) -> Self {
        Self(Token::new(), seed as u8)
    }
    fn seed(&self) -> Option<u64> {
        self.0.intact().then_some(self.1 as u64)
    }
    fn set(&mut self, seed: u64) {
        self.1 = seed as u8
    }
}

pub struct Large {
    bytes: [u8; 300],
    token: Token,
    boxed: Box<u64>,
    more: Vec<u16>,
}

impl Payload for Large {
    const BLOCKS: usize = 2;
    const TOKENS: usize = 1;
    fn make(seed: u64) -> Self {
        Self { bytes: [seed as u8; 300], token: Token::new(), boxed: Box::new(seed), more: vec![seed as u16; 5] }
    }
    fn seed(&self) -> Option<u64> {
        (self.token.intact()
            && self.bytes.iter().all(|b| *b as u64 == *self.boxed)
            && self.more.len() == 5
            && self.more.iter().all(|b| *b as u64 == *self.boxed))
        .then_some(*self.boxed)
    }
    fn set(&mut self, seed: u64) {
        self.bytes = [seed as u8; 300];
        *self.boxed = seed;
        self.more.iter_mut().for_each(|x| *x = seed as u16);
    }
}

// A payload that owns handles itself.
pub struct Node {
    token: Token,
    value: u64,
    text: ByteString,
    next: Option<Arc<Node>>,
}

enum Handle {
    U8(Arc<u8>),
    U16(Arc<u16>),
    F64(Arc<f64>),
    Three(Arc<[u8; 3]>),
    Five(Arc<[u64; 5]>),
    Thousand(Arc<[u8; 1001]>),
    Small(Arc<Small>),
    Large(Arc<Large>),
    Unit(Arc<()>),
    Node(Arc<Node>),
    Buffer(ArcBuffer),
    Text(ByteString),
    Typed(Closure<Large>),
    Opaque(Closure),
    Any(Any),
    Error(Error),
}

#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
struct Erased(Arc<Large>);

const KINDS: usize = 16;
const NAMES: [&str; KINDS] = [
    "u8", "u16", "f64", "[u8; 3]", "[u64; 5]", "[u8; 1001]", "small", "large", "unit", "node", "buffer", "string", "closure",
    "opaque closure", "any", "error",
];

struct Object {
    kind: usize,
    handles: usize,
    value: u64,
    bytes: Vec<u8>,
    tokens: usize,
    blocks: usize,
    child: Option<usize>,
}

struct World {
    objects: Vec<Object>,
    slots: Vec<(Handle, usize)>,
}

impl World {
    fn hold(&mut self, object: usize) {
        self.objects[object].handles += 1;
    }
    fn release(&mut self, object: usize) {
        self.objects[object].handles -= 1;
        if self.objects[object].handles == 0 {
            if let Some(c) = self.objects[object].child {
                self.release(c);
            }
        }
    }
    fn expected(&self) -> (usize, usize) {
        let live = || self.objects.iter().filter(|o| o.handles > 0);
        (live().map(|o| o.tokens).sum(), live().map(|o| o.blocks).sum())
    }
}

fn arc<T: Payload>(seed: u64) -> (Arc<T>, usize, usize) {
    (Arc::new(T::make(seed)), T::TOKENS, T::BLOCKS + 1)
}

fn make(g: &mut Gen, world: &World, kind: usize, seed: u64) -> (Handle, Object) {
    let mut bytes = vec![];
    let mut child = None;
    let (handle, tokens, blocks) = match kind {
        0 => { let (a, t, b) = track(|| arc(seed)); (Handle::U8(a), t, b) }
        1 => { let (a, t, b) = track(|| arc(seed)); (Handle::U16(a), t, b) }
        2 => { let (a, t, b) = track(|| arc(seed)); (Handle::F64(a), t, b) }
        3 => { let (a, t, b) = track(|| arc(seed)); (Handle::Three(a), t, b) }
        4 => { let (a, t, b) = track(|| arc(seed)); (Handle::Five(a), t, b) }
        5 => { let (a, t, b) = track(|| arc(seed)); (Handle::Thousand(a), t, b) }
        6 => { let (a, t, b) = track(|| arc(seed)); (Handle::Small(a), t, b) }
        7 => { let (a, t, b) = track(|| arc(seed)); (Handle::Large(a), t, b) }
        8 => (Handle::Unit(track(|| Arc::new(()))), 0, 0),
        9 => {
            let nodes: Vec<usize> = (0..world.slots.len()).filter(|i| matches!(world.slots[*i].0, Handle::Node(_))).collect();
            let next = if !nodes.is_empty() && g.chance(2, 3) { Some(*g.pick(&nodes)) } else { None };
            child = next.map(|i| world.slots[i].1);
            bytes = vec![seed as u8; 3];
            let node = track(|| {
                Arc::new(Node {
                    token: Token::new(),
                    value: seed,
                    text: ByteString::from(bytes.as_slice()),
                    next: next.map(|i| match &world.slots[i].0 {
                        Handle::Node(n) => n.clone(),
                        _ => unreachable!(),
                    }),
                })
            });
            (Handle::Node(node), 1, 2)
        }
        10 | 11 => {
            bytes = g.bytes(300);
            let blocks = if bytes.is_empty() { 0 } else { 1 };
            if kind == 10 {
                (Handle::Buffer(track(|| ArcBuffer::from(bytes.as_slice()))), 0, blocks)
            } else {
                (Handle::Text(track(|| ByteString::from(bytes.as_slice()))), 0, blocks)
            }
        }
        12 | 13 => {
            let closure = track(|| Closure::new(seed as *const u8, Large::make(seed)));
            (if kind == 12 { Handle::Typed(closure) } else { Handle::Opaque(track(|| closure.into_opaque())) }, 1, 3)
        }
        14 => (Handle::Any(track(|| Erased(Arc::new(Large::make(seed))).into())), 1, 3),
        _ => (Handle::Error(track(|| Error::new(Erased(Arc::new(Large::make(seed)))))), 1, 4),
    };
    (handle, Object { kind, handles: 1, value: seed, bytes, tokens, blocks, child })
}

fn copy(handle: &Handle) -> Handle {
    use Handle as H;
    match handle {
        H::U8(x) => H::U8(x.clone()),
        H::U16(x) => H::U16(x.clone()),
        H::F64(x) => H::F64(x.clone()),
        H::Three(x) => H::Three(x.clone()),
        H::Five(x) => H::Five(x.clone()),
        H::Thousand(x) => H::Thousand(x.clone()),
        H::Small(x) => H::Small(x.clone()),
        H::Large(x) => H::Large(x.clone()),
        H::Unit(x) => H::Unit(x.clone()),
        H::Node(x) => H::Node(x.clone()),
        H::Buffer(x) => H::Buffer(x.clone()),
        H::Text(x) => H::Text(x.clone()),
        // `Closure<T>` is `Clone` for cloneable payloads only.
        H::Typed(_) => unreachable!(),
        H::Opaque(x) => H::Opaque(x.clone()),
        H::Any(x) => H::Any(x.clone()),
        H::Error(x) => H::Error(x.clone()),
    }
}

fn expect<T: Payload>(arc: &Arc<T>, object: &Object) -> CaseResult {
    same(Payload::seed(&**arc), object)?;
    same(Payload::seed(AsRef::<T>::as_ref(arc)), object)?;
    same(Payload::seed(std::borrow::Borrow::<T>::borrow(arc)), object)
}

fn same(seed: Option<u64>, object: &Object) -> CaseResult {
    ensure_eq!(seed, Some(object.value), "payload changed", "the payload of a live {} handle", NAMES[object.kind]);
    Ok(())
}

fn read(world: &World, slot: usize) -> CaseResult {
    let (handle, object) = &world.slots[slot];
    let object = &world.objects[*object];
    use Handle as H;
    match handle {
        H::U8(x) => expect(x, object)?,
        H::U16(x) => expect(x, object)?,
        H::F64(x) => expect(x, object)?,
        H::Three(x) => expect(x, object)?,
        H::Five(x) => expect(x, object)?,
        H::Thousand(x) => expect(x, object)?,
        H::Small(x) => expect(x, object)?,
        H::Large(x) => expect(x, object)?,
        H::Unit(x) => {
            let () = **x;
        }
        H::Node(x) => {
            let mut node = x.clone();
            let mut object = object;
            loop {
                same(node.token.intact().then_some(node.value), object)?;
                ensure_eq!(node.text.as_slice(), object.bytes.as_slice(), "payload changed", "a string in a node");
                match (node.next.clone(), object.child) {
                    (None, None) => break,
                    (Some(n), Some(c)) => {
                        node = n;
                        object = &world.objects[c];
                    }
                    _ => fail!("payload changed", "the link of a node"),
                }
            }
        }
        H::Buffer(x) => ensure_eq!(x.as_slice(), object.bytes.as_slice(), "payload changed", "the bytes of a buffer"),
        H::Text(x) => ensure_eq!(x.as_slice(), object.bytes.as_slice(), "payload changed", "the bytes of a string"),
        H::Typed(x) => {
            ensure_eq!(x.entry_function() as u64, object.value, "payload changed", "the entry function of a closure");
            same(unsafe { &*x.payload() }.seed(), object)?
        }
        H::Opaque(x) => {
            ensure_eq!(x.entry_function() as u64, object.value, "payload changed", "the entry function of a closure");
            same(unsafe { &*(x.payload() as *const Large) }.seed(), object)?
        }
        H::Any(x) => {
            let Ok(erased) = <&Erased>::try_from(x) else { fail!("payload changed", "the type of an erased value") };
            same(erased.0.seed(), object)?
        }
        H::Error(_) => {}
    }
    Ok(())
}

fn mutate<T: Payload>(arc: &mut Arc<T>, seed: u64, unique: bool) -> CaseResult {
    match Arc::get_mut(arc) {
        Some(payload) => {
            ensure!(unique, "exclusive access while shared", "get_mut gave access to a payload with several handles");
            payload.set(seed);
        }
        None => ensure!(!unique, "no exclusive access for the sole owner", "get_mut gave no access to the sole owner"),
    }
    Ok(())
}

/// True if the payload has been changed.
fn change(world: &mut World, slot: usize, seed: u64) -> Result<bool, pbt::Failure> {
    let (handle, object) = &mut world.slots[slot];
    let object = &world.objects[*object];
    let unique = object.handles == 1;
    use Handle as H;
    match handle {
        H::U8(x) => mutate(x, seed, unique)?,
        H::U16(x) => mutate(x, seed, unique)?,
        H::F64(x) => mutate(x, seed, unique)?,
        H::Three(x) => mutate(x, seed, unique)?,
        H::Five(x) => mutate(x, seed, unique)?,
        H::Thousand(x) => mutate(x, seed, unique)?,
        H::Small(x) => mutate(x, seed, unique)?,
        H::Large(x) => mutate(x, seed, unique)?,
        H::Node(x) => match Arc::get_mut(x) {
            Some(node) => {
                ensure!(unique, "exclusive access while shared", "get_mut gave access to a node with several handles");
                node.value = seed;
            }
            None => ensure!(!unique, "no exclusive access for the sole owner", "get_mut gave no access to the sole owner"),
        },
        _ => return Ok(false),
    }
    Ok(unique)
}

/// Consumes a handle and marks its payload as shared between threads.
fn synchronize(handle: Handle) {
    use Handle as H;
    match handle {
        H::U8(x) => x.synchronize(),
        H::U16(x) => x.synchronize(),
        H::F64(x) => x.synchronize(),
        H::Three(x) => x.synchronize(),
        H::Five(x) => x.synchronize(),
        H::Thousand(x) => x.synchronize(),
        H::Small(x) => x.synchronize(),
        H::Large(x) => x.synchronize(),
        H::Unit(x) => x.synchronize(),
        H::Node(x) => x.synchronize(),
        other => drop(other),
    }
}

fn history(g: &mut Gen) -> CaseResult {
    begin();
    let mut world = World { objects: vec![], slots: vec![] };
    let result = steps(g, &mut world);
    if result.is_err() {
        // What a broken count leaves behind is not touched any more.
        std::mem::forget(std::mem::take(&mut world.slots));
        return result;
    }
    while let Some((handle, object)) = world.slots.pop() {
        track(|| drop(handle));
        world.release(object);
        check(&world)?;
    }
    finished()
}

fn check(world: &World) -> CaseResult {
    sound()?;
    let (tokens, blocks) = world.expected();
    let left = token::outstanding().unwrap();
    ensure!(left >= tokens, "payload dropped early", "{left} payloads are left where {tokens} have handles");
    ensure!(left <= tokens, "payload not dropped", "{left} payloads are left where {tokens} have handles");
    let live = heap::live_blocks();
    ensure!(live >= blocks, "memory released early", "{live} blocks are left where {blocks} are in use");
    ensure!(live <= blocks, "memory not released", "{live} blocks are left where {blocks} are in use");
    Ok(())
}

fn steps(g: &mut Gen, world: &mut World) -> CaseResult {
    let count = 3 + g.len(if pbt::thorough() { 120 } else { 60 });
    // A few kinds in a case make several handles of one kind likely.
    let kinds: Vec<usize> = (0..1 + g.usize(4)).map(|_| g.usize(KINDS)).collect();
    let (mut shared, mut synchronized, mut mutations) = (0, 0, 0);
    let mut text = String::new();
    for _ in 0..count {
        let step = if world.slots.is_empty() { 0 } else { g.weighted(&[3, 6, 4, 3, 4, 2, 1]) };
        let slot = g.usize(world.slots.len());
        let seed = 1 + g.below(200);
        match step {
            0 => {
                let kind = *g.pick(&kinds);
                let (handle, object) = make(g, world, kind, seed);
                if let Some(c) = object.child {
                    world.hold(c);
                }
                world.objects.push(object);
                world.slots.push((handle, world.objects.len() - 1));
                text += &format!("make {} #{}; ", NAMES[kind], world.objects.len() - 1);
            }
            1 => {
                let object = world.slots[slot].1;
                if matches!(world.slots[slot].0, Handle::Typed(_)) {
                    // A typed closure can be shared once its type is given up.
                    let (handle, _) = std::mem::replace(&mut world.slots[slot], (Handle::Unit(Arc::new(())), 0));
                    let Handle::Typed(closure) = handle else { unreachable!() };
                    world.slots[slot] = (Handle::Opaque(track(|| closure.into_opaque())), object);
                }
                let new = track(|| copy(&world.slots[slot].0));
                world.slots.push((new, object));
                world.hold(object);
                shared = shared.max(world.objects[object].handles);
                text += &format!("clone #{object}; ");
            }
            2 => {
                let (handle, object) = world.slots.swap_remove(slot);
                track(|| drop(handle));
                world.release(object);
                text += &format!("drop #{object}; ");
            }
            3 => {
                text += &format!("read #{}; ", world.slots[slot].1);
                track(|| read(world, slot))?;
            }
            4 => {
                let object = world.slots[slot].1;
                text += &format!("mutate #{object}; ");
                if track(|| change(world, slot, seed))? {
                    world.objects[object].value = seed;
                    mutations += 1;
                }
            }
            5 => {
                let (handle, object) = world.slots.swap_remove(slot);
                text += &format!("synchronize and drop #{object}; ");
                synchronized += (world.objects[object].handles > 1) as usize;
                track(|| synchronize(handle));
                world.release(object);
            }
            _ => {
                // Move a handle through a value that owns it.
                let (handle, object) = world.slots.swap_remove(slot);
                world.slots.push((handle, object));
            }
        }
        g.describe(|| std::mem::take(&mut text));
        check(world)?;
        for slot in 0..world.slots.len() {
            track(|| read(world, slot))?;
        }
    }
    g.label_if(shared >= 3, "three handles or more");
    g.label_if(synchronized > 0, "synchronized while shared");
    g.label_if(mutations > 0, "mutated by a sole owner");
    for k in kinds {
        g.label(NAMES[k]);
    }
    if shared >= 2 && count > 8 {
        g.nontrivial(&(g.recorded().to_vec()));
    }
    Ok(())
}

fn formats(g: &mut Gen) -> CaseResult {
    fn one<T: Debug + Clone + PartialEq + Default>(x: T) -> CaseResult {
        let a: Arc<T> = x.clone().into();
        ensure_eq!(format!("{a:?}"), format!("{x:?}"), "debug output", "debug output of a handle");
        ensure!(*Arc::<T>::default() == T::default(), "default", "default payload");
        Ok(())
    }
    begin();
    let seed = g.u64();
    g.nontrivial(&seed);
    track(|| -> CaseResult {
        one(seed)?;
        one(seed as f64 / 7.0)?;
        one(format!("{seed}"))?;
        one(vec![seed as u8; seed as usize % 9])?;
        let a = Arc::new(seed);
        ensure_eq!(format!("{a}"), format!("{seed}"), "display output", "display output of a handle");
        Ok(())
    })?;
    finished()
}

pub fn property() -> Property {
    Property {
        id: "F01",
        level: "exploration",
        rule: "a case is non-trivial if some value had two handles or more and the history had more than eight steps",
        assumptions: &[
            "Payloads occupy memory and need no stricter alignment than a machine word.",
            "ArcBuffer::as_slice_mut is used by the sole owner only.",
        ],
        campaigns: vec![Campaign::new("handle histories", 1_500_000, 40_000_000, history), Campaign::new("formatting", 20_000, 200_000, formats)],
    }
}
