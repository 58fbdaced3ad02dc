use crate::gen::{hash_str, Gen, Mirror};
use crate::{Campaign, Failure, Property};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

pub const CAPACITY: usize = 1 << 17;

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((message, location)));
    }));
}

/// Header of the status file: [0] case index, [1] cases done, [2] replaying flag, [3..] unused; choices from word 8.
pub struct Status {
    pub base: *mut u64,
}

impl Status {
    pub fn open(path: &str) -> Self {
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        file.set_len(((8 + CAPACITY) * 8) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                (8 + CAPACITY) * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        assert!(base != libc::MAP_FAILED);
        Self { base: base as *mut u64 }
    }
    pub fn get(&self, i: usize) -> u64 {
        unsafe { self.base.add(i).read_volatile() }
    }
    pub fn set(&self, i: usize, v: u64) {
        unsafe { self.base.add(i).write_volatile(v) }
    }
    pub fn mirror(&self) -> Mirror {
        Mirror { base: unsafe { self.base.add(8) }, capacity: CAPACITY }
    }
    pub fn choices(&self) -> Vec<u64> {
        let n = self.get(8).min(CAPACITY as u64 - 1) as usize;
        (0..n).map(|i| self.get(9 + i)).collect()
    }
}

pub fn execute(campaign: &Campaign, gen: &mut Gen) -> Result<(), Failure> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| (campaign.run)(gen))) {
        Ok(result) => result,
        Err(payload) => {
            let fallback = payload
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| payload.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let (message, location) =
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or((fallback, String::new()));
            // Harness assertions that fail are errors of the harness, not violations.
            if message.starts_with("HARNESS:") {
                eprintln!("harness error: {message} at {location}");
                std::process::exit(2);
            }
            Err(Failure::new(format!("panic: {}", first_line(&message)), format!("panicked at {location}: {message}")))
        }
    }
}

fn first_line(s: &str) -> &str {
    let line = s.lines().next().unwrap_or("");
    match line.char_indices().nth(100) {
        Some((i, _)) => &line[..i],
        None => line,
    }
}

pub fn case_seed(seed: u64, property: &str, campaign: &str, index: u64) -> u64 {
    crate::SplitMix(seed ^ hash_str(property).rotate_left(17) ^ hash_str(campaign).rotate_left(41) ^ index.wrapping_mul(0xD1342543DE82EF95)).next()
}

pub fn case_count(campaign: &Campaign) -> u64 {
    if let Some(count) = campaign.enumerate {
        count()
    } else if crate::thorough() {
        campaign.thorough
    } else {
        campaign.quick
    }
}

pub fn known_signatures(property: &str) -> Vec<(String, String)> {
    let path = crate::verif_root().join("known-findings.json");
    let text = std::fs::read_to_string(path).unwrap_or_else(|_| "{}".into());
    let value: Value = serde_json::from_str(&text).expect("known-findings.json");
    value["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["property"] == property)
                .map(|x| (x["signature"].as_str().unwrap().to_string(), x["what"].as_str().unwrap().to_string()))
                .collect()
        })
        .unwrap_or_default()
}

/// worker PROPERTY campaign shard shards start status out
pub fn main(property: &Property, args: &[String]) -> ! {
    install_hook();
    let campaign = property.campaigns.iter().find(|c| c.name == args[0]).unwrap();
    let shard: u64 = args[1].parse().unwrap();
    let shards: u64 = args[2].parse().unwrap();
    let start: u64 = args[3].parse().unwrap();
    let status = Status::open(&args[4]);
    let out = &args[5];
    let seed = crate::seed();
    let total = case_count(campaign);
    let known = known_signatures(property.id);

    let mut evaluations = 0u64;
    let mut discarded = 0u64;
    let mut fingerprints: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure: Option<Value> = None;
    let mut index = shard;
    while index < total {
        if index < start {
            index += shards;
            continue;
        }
        status.set(0, index);
        status.set(2, 0);
        let size = if total <= 1 { 1.0 } else { index as f64 / (total - 1) as f64 };
        let make = |mirror| {
            if campaign.enumerate.is_some() {
                Gen::replaying(vec![index], size, mirror)
            } else {
                Gen::random(case_seed(seed, property.id, campaign.name, index), size, mirror)
            }
        };
        let mut gen = make(Some(status.mirror()));
        let sampled = samples.len() < 3 && shard < 2 && (evaluations % 97 == 13 || total < 200);
        gen.describe = sampled;
        let result = execute(campaign, &mut gen);
        evaluations += 1;
        status.set(1, evaluations);
        if gen.discarded {
            discarded += 1;
        }
        if gen.nontrivial {
            nontrivial += 1;
            if fingerprints.len() < 400_000 {
                fingerprints.insert(gen.fingerprint);
            }
        }
        for (k, v) in std::mem::take(&mut gen.labels) {
            *labels.entry(k).or_default() += v;
        }
        if sampled && gen.nontrivial && !gen.description.is_empty() {
            samples.push(truncate(&gen.description, 1500));
        }
        if let Err(f) = result {
            if known.iter().any(|(s, _)| *s == f.signature) {
                *hits.entry(f.signature).or_default() += 1;
            } else {
                let choices = gen.recorded().to_vec();
                let (choices, f) = if campaign.enumerate.is_some() {
                    (choices, f)
                } else {
                    status.set(2, 1);
                    shrink(campaign, choices, f, size, &known, &status)
                };
                let mut gen = Gen::replaying(choices.clone(), size, None);
                gen.describe = true;
                let f = execute(campaign, &mut gen).err().unwrap_or(f);
                failure = Some(json!({
                    "property": property.id, "campaign": campaign.name, "index": index, "seed": seed,
                    "size": size, "choices": choices, "signature": f.signature, "message": f.message,
                    "case": gen.description,
                }));
                break;
            }
        }
        index += shards;
    }
    let summary = json!({
        "evaluations": evaluations, "discarded": discarded, "nontrivial": nontrivial, "labels": labels,
        "samples": samples, "known_hits": hits, "failure": failure,
        "fingerprints": fingerprints.iter().collect::<Vec<_>>(),
    });
    let mut f = std::fs::File::create(out).unwrap();
    f.write_all(serde_json::to_string(&summary).unwrap().as_bytes()).unwrap();
    drop(f);
    // Skip destructors of whatever the code under test left behind.
    unsafe { libc::_exit(0) }
}

/// single PROPERTY campaign size choices-file status out: runs one case in a process of its own.
pub fn single(property: &Property, args: &[String]) -> ! {
    install_hook();
    let campaign = property.campaigns.iter().find(|c| c.name == args[0]).unwrap();
    let size: f64 = args[1].parse().unwrap();
    let choices: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let status = Status::open(&args[3]);
    let mut gen = Gen::replaying(choices, size, Some(status.mirror()));
    gen.describe = true;
    gen.description_file = std::fs::File::create(&args[5]).ok();
    let result = execute(campaign, &mut gen);
    let value = json!({
        "case": gen.description,
        "failure": result.err().map(|f| json!({"signature": f.signature, "message": f.message})),
    });
    std::fs::write(&args[4], serde_json::to_string(&value).unwrap()).unwrap();
    unsafe { libc::_exit(0) }
}

pub fn truncate(s: &str, n: usize) -> String {
    match s.char_indices().nth(n) {
        Some((i, _)) => format!("{}...", &s[..i]),
        None => s.to_string(),
    }
}

fn shrink(
    campaign: &Campaign,
    choices: Vec<u64>,
    failure: Failure,
    size: f64,
    known: &[(String, String)],
    status: &Status,
) -> (Vec<u64>, Failure) {
    let started = std::time::Instant::now();
    let mut runs = 0;
    let mut best = (choices, failure);
    let mirror = status.mirror();
    let attempt = |candidate: &[u64]| -> Option<(Vec<u64>, Failure)> {
        let mut gen = Gen::replaying(candidate.to_vec(), size, Some(mirror));
        match execute(campaign, &mut gen) {
            Err(f) if !known.iter().any(|(s, _)| *s == f.signature) => {
                let mut used = gen.recorded().to_vec();
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some((used, f))
            }
            _ => None,
        }
    };
    minimize(&mut best, &mut |c| {
        runs += 1;
        if runs > 6000 || started.elapsed().as_secs() > 30 {
            return Err(());
        }
        Ok(attempt(c))
    });
    best
}

/// Deletes, zeroes and lowers choices while the case keeps failing.
pub fn minimize<F>(best: &mut (Vec<u64>, F), attempt: &mut dyn FnMut(&[u64]) -> Result<Option<(Vec<u64>, F)>, ()>) {
    let _ = (|| -> Result<(), ()> {
        let mut progress = true;
        while progress {
            progress = false;
            // Delete blocks.
            for block in [64usize, 32, 16, 8, 4, 2, 1] {
                let mut i = best.0.len().saturating_sub(block);
                loop {
                    if best.0.len() >= block && i + block <= best.0.len() {
                        let mut candidate = best.0.clone();
                        candidate.drain(i..i + block);
                        if let Some(new) = attempt(&candidate)? {
                            if smaller(&new.0, &best.0) {
                                *best = new;
                                progress = true;
                            }
                        }
                    }
                    if i == 0 {
                        break;
                    }
                    i = i.saturating_sub(block.max(1)).min(best.0.len().saturating_sub(block));
                }
            }
            // Delete one element and lower a preceding length.
            let mut i = 0;
            while i < best.0.len() {
                if best.0[i] > 0 && best.0[i] < 64 {
                    for d in 1..=6usize {
                        if i + 1 + d > best.0.len() {
                            break;
                        }
                        let mut candidate = best.0.clone();
                        candidate[i] -= 1;
                        candidate.drain(i + 1..i + 1 + d);
                        if let Some(new) = attempt(&candidate)? {
                            if smaller(&new.0, &best.0) {
                                *best = new;
                                progress = true;
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
            // Lower values.
            let mut i = 0;
            while i < best.0.len() {
                let value = best.0[i];
                if value > 0 {
                    let mut candidates = vec![0, 1, value / 2, value - 1];
                    candidates.dedup();
                    for v in candidates {
                        if v >= best.0[i] {
                            continue;
                        }
                        let mut candidate = best.0.clone();
                        candidate[i] = v;
                        if let Some(new) = attempt(&candidate)? {
                            if smaller(&new.0, &best.0) {
                                *best = new;
                                progress = true;
                                break;
                            }
                        }
                        if i >= best.0.len() {
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
        Ok(())
    })();
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}
