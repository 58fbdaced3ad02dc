//! A small property-based testing engine: choice-sequence generation, shrinking, replay, sharding over processes,
//! crash containment, known findings and evidence files. See /verif/DESIGN.md.

mod gen;
mod supervisor;
mod worker;

pub use gen::{hash_str, Fnv, Gen, SplitMix};

#[derive(Debug, Clone)]
pub struct Failure {
    /// Identifies the kind of failure and, for known findings, the exact input, call site or history.
    pub signature: String,
    pub message: String,
}

impl Failure {
    pub fn new(signature: impl Into<String>, message: impl Into<String>) -> Self {
        Self { signature: signature.into(), message: message.into() }
    }
}

pub type CaseResult = Result<(), Failure>;

#[macro_export]
macro_rules! fail {
    ($signature:expr, $($arg:tt)*) => {
        return Err($crate::Failure::new($signature, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! ensure {
    ($condition:expr, $signature:expr, $($arg:tt)*) => {
        if !$condition {
            return Err($crate::Failure::new($signature, format!($($arg)*)));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($left:expr, $right:expr, $signature:expr, $($arg:tt)*) => {
        match (&$left, &$right) {
            (left, right) => if left != right {
                return Err($crate::Failure::new($signature, format!("{}\n  got:      {:?}\n  expected: {:?}", format!($($arg)*), left, right)));
            }
        }
    };
}

pub struct Campaign {
    pub name: &'static str,
    /// Number of cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Gen) -> CaseResult,
    /// If set, the campaign enumerates cases 0..n exhaustively; `run` reads the index with its first choice.
    pub enumerate: Option<fn() -> u64>,
    /// Cases may use the network, files or threads: run shards one at a time.
    pub serial: bool,
}

impl Campaign {
    pub const fn new(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Gen) -> CaseResult) -> Self {
        Self { name, quick, thorough, run, enumerate: None, serial: false }
    }
    pub const fn enumerated(name: &'static str, count: fn() -> u64, run: fn(&mut Gen) -> CaseResult) -> Self {
        Self { name, quick: 0, thorough: 0, run, enumerate: Some(count), serial: false }
    }
    pub const fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub campaigns: Vec<Campaign>,
}

/// Entry point of every harness binary.
///
///   BIN check PROPERTY     run the property at VERIF_TIER with VERIF_SEED
///   BIN replay FILE        re-run one saved case
///   BIN list
pub fn main(properties: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| {
        properties.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervisor::check(find(&args[2])),
        Some("replay") => supervisor::replay(&args[2], &properties),
        Some("worker") => worker::main(find(&args[2]), &args[3..]),
        Some("single") => worker::single(find(&args[2]), &args[3..]),
        Some("list") => {
            for p in &properties {
                println!("{}", p.id)
            }
            std::process::exit(0)
        }
        _ => {
            eprintln!("usage: check PROPERTY | replay FILE | list");
            std::process::exit(2)
        }
    }
}

/// The directory of /verif this harness belongs to.
pub fn verif_root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn repo_root() -> std::path::PathBuf {
    std::env::var_os("VERIF_REPO").map(Into::into).unwrap_or_else(|| "/repo".into())
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Scratch directory private to this worker process; removed by the supervisor.
pub fn scratch() -> std::path::PathBuf {
    let d: std::path::PathBuf = std::env::var_os("PBT_SCRATCH").map(Into::into).unwrap_or_else(std::env::temp_dir);
    let d = d.join(format!("w{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
