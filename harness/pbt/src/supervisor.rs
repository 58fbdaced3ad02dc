use crate::worker::{case_count, known_signatures, minimize, truncate, Status};
use crate::{Campaign, Property};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

/// A case running for this long is looked at; running it alone for this much CPU time again makes it a hang.
const HANG_SECONDS: u64 = 60;
const HANG_CPU_SECONDS: u64 = 40;
const MEMORY: u64 = 3 << 30;

struct Run<'a> {
    campaign: &'a Campaign,
    shard: u64,
    shards: u64,
    start: u64,
    status_path: PathBuf,
    out: PathBuf,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch_dir() -> Scratch {
    let base = std::env::temp_dir();
    let dir = base.join(format!("pbt-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    Scratch(dir)
}

/// Ends processes with their parent and bounds their memory: a case that takes more than that dies by itself.
fn contain(command: &mut Command) -> &mut Command {
    use std::os::unix::process::CommandExt;
    unsafe {
        command.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let limit = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
            libc::setrlimit(libc::RLIMIT_AS, &limit);
            let limit = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &limit);
            Ok(())
        })
    }
}

fn spawn_worker(property: &Property, run: &Run, scratch: &Path) -> Child {
    contain(&mut Command::new(std::env::current_exe().unwrap()))
        .arg("worker")
        .arg(property.id)
        .arg(run.campaign.name)
        .arg(run.shard.to_string())
        .arg(run.shards.to_string())
        .arg(run.start.to_string())
        .arg(&run.status_path)
        .arg(&run.out)
        .env("PBT_SCRATCH", scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .spawn()
        .unwrap()
}

enum Single {
    Pass,
    Fail(String, String, String),
    Crash(String),
    Hang,
    Error(String),
}

fn run_single(property: &Property, campaign: &Campaign, choices: &[u64], size: f64, scratch: &Path) -> Single {
    let input = scratch.join("single.in");
    let status = scratch.join("single.status");
    let out = scratch.join("single.out");
    let text = scratch.join("single.case");
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&text);
    std::fs::write(&input, serde_json::to_string(choices).unwrap()).unwrap();
    let mut command = Command::new(std::env::current_exe().unwrap());
    command
        .arg("single")
        .arg(property.id)
        .arg(campaign.name)
        .arg(size.to_string())
        .arg(&input)
        .arg(&status)
        .arg(&out)
        .arg(&text)
        .env("PBT_SCRATCH", scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    use std::os::unix::process::CommandExt;
    contain(&mut command);
    unsafe {
        command.pre_exec(|| {
            let limit = libc::rlimit { rlim_cur: HANG_CPU_SECONDS, rlim_max: HANG_CPU_SECONDS + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &limit);
            Ok(())
        });
    }
    let mut child = command.spawn().unwrap();
    let started = Instant::now();
    let status = loop {
        if let Some(status) = child.try_wait().unwrap() {
            break status;
        }
        if started.elapsed() > Duration::from_secs(2 * HANG_CPU_SECONDS) {
            let _ = child.kill();
            let _ = child.wait();
            return Single::Hang;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    if let Some(signal) = crash_signal(&status) {
        return match signal {
            libc::SIGXCPU => Single::Hang,
            libc::SIGKILL | libc::SIGTERM => Single::Error(format!("killed by signal {signal}")),
            _ => Single::Crash(signal_name(signal)),
        };
    }
    match std::fs::read_to_string(&out) {
        Ok(text) => {
            let value: Value = serde_json::from_str(&text).unwrap();
            if value["failure"].is_null() {
                Single::Pass
            } else {
                Single::Fail(
                    value["failure"]["signature"].as_str().unwrap().into(),
                    value["failure"]["message"].as_str().unwrap().into(),
                    value["case"].as_str().unwrap().into(),
                )
            }
        }
        Err(_) => match status.code() {
            Some(2) => Single::Error("harness error".into()),
            code => Single::Crash(format!("process exit {code:?}")),
        },
    }
}

fn crash_signal(status: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    status.signal()
}

fn signal_name(signal: i32) -> String {
    match signal {
        libc::SIGSEGV => "SIGSEGV".into(),
        libc::SIGABRT => "SIGABRT".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGFPE => "SIGFPE".into(),
        libc::SIGTRAP => "SIGTRAP".into(),
        n => format!("signal {n}"),
    }
}

fn die(message: &str) -> ! {
    eprintln!("ERROR of the check: {message}");
    std::process::exit(2)
}

pub fn check(property: &Property) -> ! {
    let started = Instant::now();
    let code = run_check(property, started);
    std::process::exit(code)
}

fn run_check(property: &Property, started: Instant) -> i32 {
    let scratch = scratch_dir();
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let cores = std::env::var("PBT_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(cores.min(8));
    let only = std::env::var("PBT_CAMPAIGN").ok();
    let mut summaries: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
    let mut failures: Vec<Value> = vec![];
    let known = known_signatures(property.id);

    let mut queue: Vec<Run> = vec![];
    for (serial, campaign) in property.campaigns.iter().map(|c| (c.serial, c)) {
        if only.as_ref().is_some_and(|o| o != campaign.name) {
            continue;
        }
        let total = case_count(campaign);
        // A fixed number of shards keeps the run a function of the seed alone.
        let shards = if serial { 1 } else { 8.min(total).max(1) };
        for shard in 0..shards {
            queue.push(Run {
                campaign,
                shard,
                shards,
                start: 0,
                status_path: scratch.0.join(format!("{}-{shard}.status", campaign.name)),
                out: scratch.0.join(format!("{}-{shard}.out", campaign.name)),
            });
        }
    }
    queue.reverse();
    let mut running: Vec<(Run, Child, Status, u64, Instant)> = vec![];
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    while !queue.is_empty() || !running.is_empty() {
        while (running.len() as u64) < cores && !queue.is_empty() && failures.is_empty() {
            let run = queue.pop().unwrap();
            let status = Status::open(run.status_path.to_str().unwrap());
            status.set(1, 0);
            let child = spawn_worker(property, &run, &scratch.0);
            running.push((run, child, status, u64::MAX, Instant::now()));
        }
        if running.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(3));
        let mut i = 0;
        while i < running.len() {
            let (_, child, status, last, since) = &mut running[i];
            let progress = status.get(1) ^ (status.get(0) << 32);
            if progress != *last {
                *last = progress;
                *since = Instant::now();
            }
            let exit = child.try_wait().unwrap();
            let hung = exit.is_none() && since.elapsed() > Duration::from_secs(HANG_SECONDS);
            if exit.is_none() && !hung {
                i += 1;
                continue;
            }
            if hung {
                let _ = child.kill();
                let _ = child.wait();
            }
            let (run, _, status, _, _) = running.swap_remove(i);
            let index = status.get(0);
            let choices = status.choices();
            let total = case_count(run.campaign);
            let size = if total <= 1 { 1.0 } else { index as f64 / (total - 1) as f64 };
            match exit {
                Some(exit) if exit.success() => {
                    let text = std::fs::read_to_string(&run.out).unwrap_or_else(|_| die("worker left no result"));
                    let summary: Value = serde_json::from_str(&text).unwrap();
                    if !summary["failure"].is_null() {
                        failures.push(summary["failure"].clone());
                    }
                    summaries.entry(run.campaign.name).or_default().push(summary);
                }
                Some(exit) if exit.code() == Some(2) => die("harness error in a worker"),
                other => {
                    // The worker died or hangs: isolate the case it was running.
                    let what = match other {
                        Some(exit) => crash_signal(&exit).map(signal_name).unwrap_or_else(|| format!("{exit}")),
                        None => "hang".into(),
                    };
                    if let Some(exit) = &other {
                        if matches!(crash_signal(exit), Some(libc::SIGKILL | libc::SIGTERM)) {
                            die(&format!("a worker was killed ({what})"));
                        }
                    }
                    let mut best = (choices, String::new());
                    let confirm = run_single(property, run.campaign, &best.0, size, &scratch.0);
                    let (signature, message, case) = match confirm {
                        Single::Crash(signal) => {
                            let mut runs = 0;
                            let limit = Instant::now();
                            if run.campaign.enumerate.is_none() {
                                minimize(&mut best, &mut |candidate| {
                                    runs += 1;
                                    if runs > 400 || limit.elapsed().as_secs() > 60 {
                                        return Err(());
                                    }
                                    Ok(match run_single(property, run.campaign, candidate, size, &scratch.0) {
                                        Single::Crash(s) => Some((candidate.to_vec(), s)),
                                        _ => None,
                                    })
                                });
                            }
                            (
                                format!("crash: {signal}"),
                                format!("the process running the code under test died ({signal})"),
                                String::new(),
                            )
                        }
                        Single::Fail(signature, message, case) => (signature, message, case),
                        Single::Hang => (
                            "hang".into(),
                            format!(
                                "the case used more than {HANG_CPU_SECONDS} s of CPU time or blocked for more than {} s, twice",
                                2 * HANG_CPU_SECONDS
                            ),
                            String::new(),
                        ),
                        Single::Error(e) => die(&e),
                        Single::Pass if other.is_none() => {
                            // Merely slow (a loaded machine): go on after it.
                            *extra.entry("slow cases skipped".into()).or_default() += 1;
                            let start = index + 1;
                            queue.push(Run { start, ..run });
                            continue;
                        }
                        Single::Pass => (
                            format!("crash: {what}"),
                            format!(
                                "the worker process died ({what}) while running this case; the case alone passes, so \
                                 earlier cases of its shard (0..{index}) damaged the process"
                            ),
                            String::new(),
                        ),
                    };
                    let case = if case.is_empty() {
                        // What the last run told before it ended; minimizing may have tried other cases since.
                        if run.campaign.enumerate.is_none() && signature.starts_with("crash") {
                            run_single(property, run.campaign, &best.0, size, &scratch.0);
                        }
                        std::fs::read_to_string(scratch.0.join("single.case")).unwrap_or_default()
                    } else {
                        case
                    };
                    if known.iter().any(|(s, _)| *s == signature) {
                        *extra.entry(format!("known: {signature}")).or_default() += 1;
                        let start = index + 1;
                        queue.push(Run { start, ..run });
                        continue;
                    }
                    failures.push(json!({
                        "property": property.id, "campaign": run.campaign.name, "index": index, "seed": crate::seed(),
                        "size": size, "choices": best.0, "signature": signature, "message": message, "case": case,
                    }));
                }
            }
        }
        if !failures.is_empty() {
            queue.clear();
            // Let the other shards finish: they are bounded, and may already have results.
            for (_, child, _, _, _) in &mut running {
                let _ = child.kill();
                let _ = child.wait();
            }
            running.clear();
        }
    }

    // Merge.
    let mut evaluations = 0;
    let mut discarded = 0;
    let mut nontrivial = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_campaign = serde_json::Map::new();
    for (name, list) in &summaries {
        let mut n = 0;
        let mut taken = 0;
        let campaign_salt = crate::hash_str(name);
        for s in list {
            n += s["evaluations"].as_u64().unwrap();
            discarded += s["discarded"].as_u64().unwrap();
            nontrivial += s["nontrivial"].as_u64().unwrap();
            for f in s["fingerprints"].as_array().unwrap() {
                distinct.insert(f.as_u64().unwrap() ^ campaign_salt);
            }
            for (k, v) in s["labels"].as_object().unwrap() {
                *labels.entry(format!("{name}: {k}")).or_default() += v.as_u64().unwrap();
            }
            for (k, v) in s["known_hits"].as_object().unwrap() {
                *hits.entry(k.clone()).or_default() += v.as_u64().unwrap();
            }
            for x in s["samples"].as_array().unwrap() {
                if taken < 3 {
                    samples.push(json!({"campaign": name, "case": x}));
                    taken += 1;
                }
            }
        }
        evaluations += n;
        per_campaign.insert(name.to_string(), json!(n));
    }
    if failures.is_empty() && samples.is_empty() {
        samples.push(json!("no described sample"));
    }
    let tier = if crate::thorough() { "thorough" } else { "quick" };
    let mut evidence = json!({
        "property": property.id, "tier": tier, "seed": crate::seed(), "level": property.level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct.len(), "rule": property.rule,
            "samples": samples, "nontrivial": nontrivial, "discarded": discarded, "campaigns": per_campaign,
            "labels": labels, "known_finding_hits": hits, "notes": extra,
        },
        "assumptions": property.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let root = crate::verif_root();
    std::fs::create_dir_all(root.join("evidence")).unwrap();
    let path = root.join("evidence").join(format!("{}.json", property.id));
    let merging = std::env::var("PBT_MERGE").is_ok();
    if merging {
        let text = std::fs::read_to_string(&path).expect("HARNESS: evidence of the other harness");
        evidence = merge(serde_json::from_str(&text).expect("HARNESS: evidence of the other harness"), evidence);
    }
    std::fs::write(
        path,
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .unwrap();
    for (signature, what) in known.iter().filter(|_| !merging) {
        println!("KNOWN-FINDING: property={} {} [{}]", property.id, what, signature);
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
        property.id,
        tier,
        evaluations,
        distinct.len(),
        started.elapsed().as_secs_f64()
    );
    if failures.is_empty() {
        return 0;
    }
    failures.sort_by_key(|f| f["choices"].as_array().map(|a| a.len()).unwrap_or(0));
    let failure = &failures[0];
    let dir = root.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!(
        "{}-{:016x}.json",
        property.id,
        crate::hash_str(&serde_json::to_string(failure).unwrap())
    ));
    std::fs::write(&path, serde_json::to_string_pretty(failure).unwrap() + "\n").unwrap();
    println!("campaign {}: {}", failure["campaign"], truncate(failure["message"].as_str().unwrap_or(""), 3000));
    println!("case:\n{}", truncate(failure["case"].as_str().unwrap_or(""), 3000));
    println!("signature: {}", failure["signature"].as_str().unwrap_or(""));
    println!("VIOLATION property={} replay={}", property.id, path.display());
    1
}

pub fn replay(path: &str, properties: &[Property]) -> ! {
    let value: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let property = properties
        .iter()
        .find(|p| p.id == value["property"].as_str().unwrap())
        .unwrap_or_else(|| die("this binary does not have that property"));
    let campaign = property.campaigns.iter().find(|c| c.name == value["campaign"].as_str().unwrap()).unwrap();
    let choices: Vec<u64> = value["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let scratch = scratch_dir();
    let result = run_single(property, campaign, &choices, value["size"].as_f64().unwrap(), &scratch.0);
    drop(scratch);
    let message = match result {
        Single::Pass => {
            println!("the case passes");
            std::process::exit(0)
        }
        Single::Fail(signature, message, case) => format!("{message}\ncase:\n{case}\nsignature: {signature}"),
        Single::Crash(signal) => format!("crash: {signal}"),
        Single::Hang => "hang".into(),
        Single::Error(e) => die(&e),
    };
    println!("{message}");
    println!("VIOLATION property={} replay={path}", property.id);
    std::process::exit(1)
}

/// The evidence of a property that two harnesses decide
fn merge(first: Value, second: Value) -> Value {
    match (first, second) {
        (Value::Object(mut first), Value::Object(second)) => {
            for (key, value) in second {
                let value = match first.remove(&key) {
                    Some(other) => match key.as_str() {
                        "seed" => value,
                        "rule" | "assumptions" | "samples" if other != value => both(other, value),
                        _ => merge(other, value),
                    },
                    None => value,
                };
                first.insert(key, value);
            }
            Value::Object(first)
        }
        (Value::Number(first), Value::Number(second)) => match (first.as_u64(), second.as_u64()) {
            (Some(first), Some(second)) => json!(first + second),
            _ => json!(first.as_f64().unwrap() + second.as_f64().unwrap()),
        },
        (first, _) => first,
    }
}

fn both(first: Value, second: Value) -> Value {
    match (first, second) {
        (Value::Array(mut first), Value::Array(second)) => {
            first.extend(second);
            Value::Array(first)
        }
        (Value::String(first), Value::String(second)) => json!(format!("{first}; {second}")),
        (first, _) => first,
    }
}
