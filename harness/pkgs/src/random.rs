//! P19: random numbers.

use pbt::{ensure, Campaign, CaseResult, Gen, Property};
use pen_ffi::Number;
use std::process::Command;

extern "C" {
    fn _pen_random_number() -> Number;
}

fn draw(count: usize) -> Vec<f64> {
    (0..count).map(|_| unsafe { _pen_random_number() }.into()).collect()
}

/// What another process draws.
pub fn serve(count: &str) {
    for number in draw(count.parse().unwrap()) {
        println!("{}", number.to_bits());
    }
}

fn process(count: usize) -> Vec<f64> {
    let output = Command::new(std::env::current_exe().unwrap()).args(["draw", &count.to_string()]).output().unwrap();
    assert!(output.status.success(), "HARNESS: a process that draws fails");
    String::from_utf8(output.stdout).unwrap().lines().map(|line| f64::from_bits(line.parse().unwrap())).collect()
}

/// Whether a count is what chance gives, up to one in 10^16 or so
fn plausible(count: usize, total: usize, share: f64) -> bool {
    let mean = total as f64 * share;
    let deviation = (total as f64 * share * (1.0 - share)).sqrt();

    // Small means have longer tails than the normal distribution.
    (count as f64 - mean).abs() <= 8.5 * deviation + 30.0
}

fn spread(g: &mut Gen) -> CaseResult {
    let count = g.range(1, 12_000) as usize;
    let threads = g.weighted(&[4, 2, 1]);
    let parts = g.range(2, 64) as usize;
    let numbers = match threads {
        0 => draw(count),
        1 => std::thread::spawn(move || draw(count)).join().unwrap(),
        _ => {
            let handles = (0..4).map(|_| std::thread::spawn(move || draw(count.div_ceil(4)))).collect::<Vec<_>>();
            handles.into_iter().flat_map(|handle| handle.join().unwrap()).collect()
        }
    };
    let count = numbers.len();
    g.describe(|| format!("{count} numbers, {threads} threads, {parts} parts"));
    if count >= 1_000 {
        g.nontrivial(&(count, threads, parts));
    }

    for x in &numbers {
        ensure!((0.0..1.0).contains(x), "range", "{x} is drawn");
    }

    // Numbers and pairs of successive numbers in parts of the range
    let part = |x: f64| (x * parts as f64) as usize;
    let mut counts = vec![0; parts];
    for x in &numbers {
        counts[part(*x)] += 1;
    }
    for (index, &number) in counts.iter().enumerate() {
        ensure!(
            plausible(number, count, 1.0 / parts as f64),
            "spread",
            "{number} of {count} numbers are in part {index} of {parts}"
        );
    }

    let mut pairs = vec![0; 64];
    for pair in numbers.chunks_exact(2) {
        pairs[(pair[0] * 8.0) as usize * 8 + (pair[1] * 8.0) as usize] += 1;
    }
    for (index, &number) in pairs.iter().enumerate() {
        ensure!(
            plausible(number, count / 2, 1.0 / 64.0),
            "pairs",
            "{number} of {} pairs are in parts {} and {} of 8",
            count / 2,
            index / 8,
            index % 8
        );
    }

    // Digits down to one in 2^32
    for bit in 1..=32 {
        let ones = numbers.iter().filter(|x| (**x * 2f64.powi(bit)) as u64 % 2 == 1).count();
        ensure!(plausible(ones, count, 0.5), "digits", "{ones} of {count} numbers have binary digit {bit} set");
    }

    // Single numbers may be drawn twice, runs of them not.
    if count >= 16 {
        let runs = numbers.windows(4).map(|run| run.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        let distinct = runs.collect::<std::collections::HashSet<_>>().len();
        ensure!(distinct == count - 3, "repeated", "runs of four numbers are repeated: {distinct} of {}", count - 3);
    }
    Ok(())
}

/// Processes and threads do not draw the same.
fn starts(g: &mut Gen) -> CaseResult {
    let count = g.range(2, 16) as usize;
    let sources = 2 + g.len(3);
    let kinds = (0..sources).map(|_| g.bool()).collect::<Vec<_>>();
    g.describe(|| format!("{count} numbers from each of {kinds:?} (true for a process, false for a thread)"));
    g.nontrivial(&(count, kinds.clone()));
    let runs = kinds
        .iter()
        .map(|kind| if *kind { process(count) } else { std::thread::spawn(move || draw(count)).join().unwrap() })
        .map(|run| run.iter().map(|x| x.to_bits()).collect::<Vec<_>>())
        .collect::<std::collections::HashSet<_>>();
    ensure!(runs.len() == kinds.len(), "starts", "two of {} sources draw the same numbers", kinds.len());
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P19",
        level: "exploration",
        rule: "distinct cases of at least 1000 numbers, or of several processes and threads",
        assumptions: &[
            "bounds on counts are about 8.5 standard deviations wide, so that chance alone does not fail a case",
        ],
        campaigns: vec![
            Campaign::new("spread", 1_500, 60_000, spread),
            Campaign::new("starts", 200, 4_000, starts),
        ],
    }
}
