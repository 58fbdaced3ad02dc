//! L01: the map functions of the prelude, called with keys whose hashes are chosen, against a finite map.

use crate::{
    machine::{Machine, Res, Stop, Value},
    pipeline,
};
use mir::types::{Record, Type};
use pbt::{ensure, ensure_eq, CaseResult, Failure, Gen};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

const FUEL: u64 = 3_000_000;

thread_local! {
    /// Linked machines with nothing alive, by stage.
    static MACHINES: RefCell<BTreeMap<usize, Machine>> = Default::default();
}

/// Runs a case on a machine with only the prelude, which is used again if the case passes.
pub fn with_prelude(stage: usize, fuel: u64, run: impl FnOnce(&Machine) -> CaseResult) -> CaseResult {
    let machine = MACHINES.with(|machines| machines.borrow_mut().remove(&stage));
    let machine = match machine {
        Some(machine) => machine,
        None => pipeline::machine(&[], stage, 0).map_err(|stop| crate::failure(&stop, "link of the prelude"))?,
    };

    machine.set_fuel(fuel);
    machine.trace.borrow_mut().clear();
    run(&machine)?;
    MACHINES.with(|machines| machines.borrow_mut().insert(stage, machine));

    Ok(())
}

#[derive(Clone, Debug)]
struct Keys {
    hashes: Rc<Vec<u64>>,
    /// Keys are numbers or, in part, strings.
    strings: u32,
}

impl Keys {
    fn value(&self, machine: &Machine, key: usize) -> Value {
        if (key as u32 * 7) % 10 < self.strings {
            machine.variant(&Type::ByteString, machine.string(format!("k{key}")))
        } else {
            machine.variant(&Type::Number, Value::Number(key as f64))
        }
    }

    fn read(machine: &Machine, value: &Value) -> Res<usize> {
        let Value::Variant(_, payload) = value else {
            return Err(Stop::Stuck(format!("key {value:?}")));
        };

        Ok(match &**payload {
            Value::Number(number) => *number as usize,
            Value::String(_) => {
                let text = String::from_utf8_lossy(machine.bytes(payload)?).into_owned();
                text[1..].parse().map_err(|_| Stop::Stuck(format!("key {text}")))?
            }
            _ => return Err(Stop::Stuck(format!("key {value:?}"))),
        })
    }
}

fn item(machine: &Machine, value: u32) -> Value {
    if value % 3 == 0 {
        machine.variant(&Type::ByteString, machine.string(format!("v{value}")))
    } else {
        machine.variant(&Type::Number, Value::Number(value as f64))
    }
}

fn read_item(machine: &Machine, value: &Value) -> Res<u32> {
    Keys::read(machine, value).map(|value| value as u32)
}

/// Hashes whose index paths share prefixes.
fn hashes(g: &mut Gen, count: usize) -> Vec<u64> {
    // What hash_to_index adds for the first layer.
    let layer = FIRST_LAYER.with(|layer| *layer);
    let inverse = {
        // Of 31 modulo 2^64.
        let mut x = 1u64;
        for _ in 0..6 {
            x = x.wrapping_mul(2u64.wrapping_sub(31u64.wrapping_mul(x)));
        }
        x
    };
    let mut paths = Vec::<u64>::new();

    while paths.len() < count {
        let mut path = if paths.is_empty() || g.chance(1, 8) {
            g.u64()
        } else {
            // Another key's path up to some level.
            let other = *g.pick(&paths);
            let shared = match g.below(6) {
                0 => g.below(4),
                1 => 12,
                2 => 11,
                _ => g.below(13),
            } as u32;
            let low = (1u64 << (5 * shared)) - 1;

            (other & low) | (g.u64() & !low)
        };

        // Few different indexes per level, including the first and the last.
        if g.chance(1, 2) {
            let level = g.below(13) as u32;
            let digit = *g.pick(&[0u64, 31, 1, 30]);
            path = (path & !(31u64 << (5 * level))) | (digit << (5 * level));
        }

        while paths.contains(&path) {
            // Differ in the last level only, or also before.
            path = path.wrapping_add(if path >> 60 < 15 { 1 << 60 } else { 0x1000_0000_0842_1084 });
        }

        paths.push(path);
    }

    paths.into_iter().map(|path| path.wrapping_sub(layer).wrapping_mul(inverse)).collect()
}

thread_local! {
    static FIRST_LAYER: u64 = {
        let machine = pipeline::machine(&[], 0, 1000).expect("machine");
        let Ok(Value::Number(number)) = machine.call_foreign("_pen_prelude_hash_number", vec![Value::Number(1.0)]) else {
            panic!("HARNESS: hash of 1")
        };
        number.to_bits()
    };
}

pub struct Maps<'a> {
    machine: &'a Machine,
    context: Value,
    keys: Keys,
}

type Model = BTreeMap<usize, u32>;

impl<'a> Maps<'a> {
    fn new(machine: &'a Machine, keys: Keys) -> Res<Self> {
        let equal = |machine: &Machine| {
            machine.native("equal", 2, vec![], |machine, arguments| {
                let result = Keys::read(machine, &arguments[0])? == Keys::read(machine, &arguments[1])?;
                machine.drop_value(&arguments[0])?;
                machine.drop_value(&arguments[1])?;
                Ok(Value::Boolean(result))
            })
        };
        let hashes = keys.hashes.clone();
        let hash_key = machine.native("hash key", 1, vec![], move |machine, arguments| {
            let key = Keys::read(machine, &arguments[0])?;
            machine.drop_value(&arguments[0])?;
            Ok(Value::Number(f64::from_bits(hashes[key])))
        });
        let hash_value = machine.native("hash value", 1, vec![], |machine, arguments| {
            let value = read_item(machine, &arguments[0])?;
            machine.drop_value(&arguments[0])?;
            Ok(Value::Number(f64::from_bits((value as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15))))
        });
        let context = machine.call_name(
            "prelude:NewMapContext",
            vec![equal(machine), hash_key, equal(machine), hash_value],
        )?;

        Ok(Self { machine, context, keys })
    }

    fn context(&self) -> Res<Value> {
        self.machine.clone_value(&self.context)
    }

    fn call(&self, name: &str, arguments: Vec<Value>) -> Res<Value> {
        self.machine.call_name(&format!("prelude:{name}"), arguments)
    }

    fn set(&self, map: Value, key: usize, value: u32) -> Res<Value> {
        self.call(
            "SetMap",
            vec![self.context()?, map, self.keys.value(self.machine, key), item(self.machine, value)],
        )
    }

    fn delete(&self, map: Value, key: usize) -> Res<Value> {
        self.call("DeleteMap", vec![self.context()?, map, self.keys.value(self.machine, key)])
    }

    fn merge(&self, map: Value, other: Value) -> Res<Value> {
        self.call("MergeMaps", vec![self.context()?, map, other])
    }

    fn get(&self, map: &Value, key: usize) -> Res<Option<u32>> {
        let result = self.call(
            "GetMap",
            vec![self.context()?, self.machine.clone_value(map)?, self.keys.value(self.machine, key)],
        )?;
        let Value::Variant(tag, _) = &result else { return Err(Stop::Stuck(format!("result {result:?} of get"))) };
        let value = if self.machine.tag_type(*tag) == Type::Record(Record::new("prelude:Empty")) {
            None
        } else {
            Some(read_item(self.machine, &result)?)
        };

        self.machine.drop_value(&result)?;
        Ok(value)
    }

    fn size(&self, map: &Value) -> Res<f64> {
        crate::machine::number(self.call("MapSize", vec![self.machine.clone_value(map)?])?)
    }

    fn entries(&self, map: &Value) -> Res<Vec<(usize, u32)>> {
        let machine = self.machine;
        let mut entries = vec![];
        let mut next = self.call("IterateMap", vec![machine.clone_value(map)?])?;

        loop {
            let Value::Variant(tag, payload) = &next else {
                return Err(Stop::Stuck(format!("iterator {next:?}")));
            };

            if machine.tag_type(*tag) == Type::None {
                return Ok(entries);
            }

            let iterator = (**payload).clone();
            let key = self.call("MapIteratorKey", vec![machine.clone_value(&iterator)?])?;
            let value = self.call("MapIteratorValue", vec![machine.clone_value(&iterator)?])?;

            entries.push((Keys::read(machine, &key)?, read_item(machine, &value)?));
            machine.drop_value(&key)?;
            machine.drop_value(&value)?;

            next = self.call("MapIteratorRest", vec![iterator])?;
        }
    }

    fn equal(&self, one: &Value, other: &Value) -> Res<bool> {
        let machine = self.machine;

        match self.call("EqualMaps", vec![self.context()?, machine.clone_value(one)?, machine.clone_value(other)?])? {
            Value::Boolean(boolean) => Ok(boolean),
            value => Err(Stop::Stuck(format!("equality {value:?}"))),
        }
    }

    fn hash(&self, map: &Value) -> Res<u64> {
        Ok(crate::machine::number(self.call("HashMap", vec![self.context()?, self.machine.clone_value(map)?])?)?
            .to_bits())
    }

    fn check(&self, map: &Value, model: &Model, what: &str) -> CaseResult {
        let stop = |stop: Stop| crate::failure(&stop, what);

        for key in 0..self.keys.hashes.len() {
            let got = self.get(map, key).map_err(stop)?;
            ensure_eq!(got, model.get(&key).copied(), "look-up", "look-up of key {key} of {what}");
        }

        let size = self.size(map).map_err(stop)?;
        ensure_eq!(size, model.len() as f64, "size", "size of {what}");

        let mut entries = self.entries(map).map_err(stop)?;
        entries.sort();
        ensure_eq!(entries, model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "entries", "traversal of {what}");

        Ok(())
    }
}

pub fn histories(g: &mut Gen) -> CaseResult {
    let stage = if g.chance(3, 4) { pipeline::LAST } else { 0 };

    with_prelude(stage, FUEL, |machine| history(g, machine))
}

fn history(g: &mut Gen, machine: &Machine) -> CaseResult {
    let count = if g.chance(1, 8) { 8 + g.usize(60) } else { 2 + g.usize(10) };
    let keys = Keys { hashes: Rc::new(hashes(g, count)), strings: g.below(11) as u32 };
    let base = machine.live();
    let maps = Maps::new(machine, keys.clone()).map_err(|stop| crate::failure(&stop, "context"))?;
    let empty = maps.call("NewMap", vec![]).map_err(|stop| crate::failure(&stop, "empty map"))?;
    let mut pool: Vec<(Value, Model)> = vec![(empty, Model::new())];
    let steps = 4 + g.usize(if count > 12 { 120 } else { 40 });
    let mut log = vec![];
    let (mut deepest, mut deletions, mut next) = (0, 0, 1u32);

    for step in 0..steps {
        let at = g.usize(pool.len());
        // Given away or kept as an older version.
        let keep = g.chance(1, 3);
        let choice = g.weighted(&[10, 8, 2, 1, 2]);
        let failed = |stop: Stop, log: &[String]| crate::failure(&stop, &format!("step {step}: {log:?}"));

        macro_rules! take {
            () => {
                if keep {
                    (machine.clone_value(&pool[at].0).map_err(|stop| failed(stop, &log))?, pool[at].1.clone())
                } else {
                    let taken = pool.swap_remove(at);
                    if pool.is_empty() {
                        let empty = maps.call("NewMap", vec![]).map_err(|stop| failed(stop, &log))?;
                        pool.push((empty, Model::new()));
                    }
                    taken
                }
            };
        }

        match choice {
            0 => {
                let key = g.usize(count);
                next += 1;
                log.push(format!("{}set {at} {key}", if keep { "keep " } else { "" }));
                let (map, mut model) = take!();
                let map = maps.set(map, key, next).map_err(|stop| failed(stop, &log))?;
                model.insert(key, next);
                pool.push((map, model));
            }
            1 => {
                // Mostly keys that are there.
                let key = if pool[at].1.is_empty() || g.chance(1, 5) {
                    g.usize(count)
                } else {
                    *pool[at].1.keys().nth(g.usize(pool[at].1.len())).unwrap()
                };
                log.push(format!("{}delete {at} {key}", if keep { "keep " } else { "" }));
                let (map, mut model) = take!();
                let map = maps.delete(map, key).map_err(|stop| failed(stop, &log))?;
                deletions += model.remove(&key).is_some() as usize;
                pool.push((map, model));
            }
            2 => {
                let other = g.usize(pool.len());
                log.push(format!("{}merge {at} {other}", if keep { "keep " } else { "" }));
                let added = (
                    machine.clone_value(&pool[other].0).map_err(|stop| failed(stop, &log))?,
                    pool[other].1.clone(),
                );
                let (map, mut model) = take!();
                let map = maps.merge(map, added.0).map_err(|stop| failed(stop, &log))?;
                model.extend(added.1);
                pool.push((map, model));
            }
            3 => {
                log.push(format!("equal {at}"));
                let other = g.usize(pool.len());
                let equal = maps.equal(&pool[at].0, &pool[other].0).map_err(|stop| failed(stop, &log))?;
                ensure_eq!(equal, pool[at].1 == pool[other].1, "equality", "equality of {:?} and {:?}; {log:?}", pool[at].1, pool[other].1);

                let one = maps.hash(&pool[at].0).map_err(|stop| failed(stop, &log))?;
                let two = maps.hash(&pool[other].0).map_err(|stop| failed(stop, &log))?;
                ensure_eq!(one == two, pool[at].1 == pool[other].1, "hash", "hashes of {:?} and {:?}; {log:?}", pool[at].1, pool[other].1);
                continue;
            }
            _ => {
                // The same entries again, in another order and with others that come and go.
                log.push(format!("rebuild {at}"));
                let model = pool[at].1.clone();
                let mut order = model.keys().copied().collect::<Vec<_>>();
                for index in (1..order.len()).rev() {
                    order.swap(index, g.usize(index + 1));
                }
                let mut map = maps.call("NewMap", vec![]).map_err(|stop| failed(stop, &log))?;
                let mut extra = vec![];
                for key in order {
                    if g.chance(1, 3) {
                        let other = g.usize(count);
                        if !model.contains_key(&other) {
                            map = maps.set(map, other, 1).map_err(|stop| failed(stop, &log))?;
                            extra.push(other);
                        }
                    }
                    map = maps.set(map, key, model[&key]).map_err(|stop| failed(stop, &log))?;
                }
                for key in extra {
                    map = maps.delete(map, key).map_err(|stop| failed(stop, &log))?;
                }
                let equal = maps.equal(&map, &pool[at].0).map_err(|stop| failed(stop, &log))?;
                ensure!(equal, "equality", "a map built from the same entries differs from {model:?}; {log:?}");
                let one = maps.hash(&map).map_err(|stop| failed(stop, &log))?;
                let two = maps.hash(&pool[at].0).map_err(|stop| failed(stop, &log))?;
                ensure!(one == two, "hash", "a map built from the same entries hashes differently: {model:?}; {log:?}");
                pool.push((map, model));
            }
        }

        let (map, model) = pool.last().unwrap();
        deepest = deepest.max(model.len());

        // A cheap look at the new version at every step, and a full one at some.
        if g.chance(1, 6) {
            maps.check(map, model, &format!("the result of step {step}: {log:?}; hashes {:x?}", keys.hashes))?;
        }

        if pool.len() > 6 {
            let old = pool.remove(g.usize(pool.len() - 1));
            maps.check(&old.0, &old.1, &format!("an older version; {log:?}; hashes {:x?}", keys.hashes))?;
            machine.drop_value(&old.0).map_err(|stop| crate::failure(&stop, "release"))?;
        }
    }

    for (map, model) in &pool {
        maps.check(map, model, &format!("a version at the end; {log:?}; hashes {:x?}", keys.hashes))?;
        machine.drop_value(map).map_err(|stop| crate::failure(&stop, "release"))?;
    }

    machine.drop_value(&maps.context).map_err(|stop| crate::failure(&stop, "release"))?;

    if machine.mode.counted {
        machine.drop_globals().map_err(|stop| crate::failure(&stop, "release"))?;
        machine.reset_globals();
        ensure_eq!(machine.live(), base, "leak", "values left after {log:?}; hashes {:x?}", keys.hashes);
    }

    if deletions > 0 && deepest > 2 {
        g.nontrivial(&log);
    }

    g.describe(|| format!("{log:?}"));

    Ok(())
}

/// Keys that differ although their hashes are equal in every bit.
pub fn equal_hashes(g: &mut Gen) -> CaseResult {
    let case = g.below(EQUAL_HASH_CASES);

    match case {
        0 => with_prelude(pipeline::LAST, 100_000, |machine| {
            let what = "two keys with the same hash";
            let stop = |stop: Stop| match stop {
                Stop::Fuel => Failure::new(what, format!("insertion of {what} does not end")),
                stop => crate::failure(&stop, what),
            };
            let keys = Keys { hashes: Rc::new(vec![1, 1]), strings: 0 };
            let maps = Maps::new(machine, keys).map_err(stop)?;
            let map = maps.call("NewMap", vec![]).map_err(stop)?;
            let map = maps.set(map, 0, 1).map_err(stop)?;
            let map = maps.set(map, 1, 2).map_err(stop)?;

            maps.check(&map, &[(0, 1), (1, 2)].into(), what)?;
            machine.drop_value(&map).map_err(stop)?;
            machine.drop_value(&maps.context).map_err(stop)
        }),
        _ => {
            let what = "the key not-a-number twice";
            let source = "Main = \\() number {\n  m = {number: number}\n  n = 0 / 0\n  size({number: number n: 1, n: 2})\n}\n";
            match crate::pipeline::run_main(source, pipeline::LAST, 100_000) {
                Ok(Value::Number(2.0)) => Ok(()),
                Ok(value) => Err(Failure::new(what, format!("{value:?}"))),
                Err(message) => Err(Failure::new(what, format!("{message}: {source}"))),
            }
        }
    }
}

pub const EQUAL_HASH_CASES: u64 = 2;
