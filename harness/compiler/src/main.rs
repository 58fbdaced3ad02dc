mod json;
mod lang;
mod library;
mod lists;
mod machine;
mod maps;
mod modules;
mod natives;
mod packages;
mod pipeline;
mod systems;
mod testing;
extern crate pkg_core;
extern crate pkg_html;
extern crate pkg_json;
extern crate pkg_prelude;

use machine::Stop;
use pbt::{Campaign, Failure, Property};

/// What a stopped machine means for a case.
pub fn failure(stop: &Stop, what: &str) -> Failure {
    match stop {
        Stop::Stuck(message) => Failure::new("stuck", format!("stuck: {message}; {what}")),
        Stop::Heap(message) => Failure::new("heap", format!("{message}; {what}")),
        Stop::Fuel => Failure::new("fuel", format!("too many steps; {what}")),
        Stop::Exit(message) => Failure::new("exit", format!("{message}; {what}")),
    }
}


fn main() {
    let thread = std::thread::Builder::new().stack_size(1 << 30).spawn(|| run()).unwrap();
    let _ = thread.join();
    std::process::exit(3)
}

fn run() {
    if std::env::args().nth(1).as_deref() == Some("format") {
        let source = std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap();
        let module = parse::parse(&source, "").unwrap();
        print!("{}", format::format(&module, &parse::parse_comments(&source, "").unwrap()));
        return;
    }
    if std::env::args().nth(1).as_deref() == Some("try") {
        let source = std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap();
        for stage in 0..pipeline::STAGES.len() {
            let t = std::time::Instant::now();
            let compiled = match pipeline::compile_source(&source) { Ok(c) => c, Err(e) => { println!("{e:?}"); return } };
            let t1 = t.elapsed();
            let stages = pipeline::stages(&compiled.mir, stage).unwrap();
            let machine = pipeline::machine(&[&stages[stage]], stage, 10_000_000).unwrap();
            let t2 = t.elapsed();
            let result = machine.call_name("Main.pen:Main", vec![machine::Value::None]);
            println!("{}: {result:?} {:?} calls {} live {} allocated {} compile {t1:?} link {t2:?} all {:?}", pipeline::STAGES[stage].0, machine.trace.borrow(), machine.calls.get(), machine.live(), machine.allocated(), t.elapsed());
            if let Ok(v) = &result { machine.drop_value(v).unwrap(); machine.drop_globals().unwrap(); println!("left {}", machine.live()); }
        }
        return;
    }
    pbt::main(vec![Property {
        id: "L01",
        level: "exploration",
        rule: "histories with an effective removal on a map that held more than two entries",
        assumptions: &[],
        campaigns: vec![
            Campaign::new("histories", 30_000, 380_000, maps::histories),
            Campaign::enumerated("equal hashes", || maps::EQUAL_HASH_CASES, maps::equal_hashes),
        ],
    },
    Property {
        id: "L02",
        level: "exploration",
        rule: "distinct programs that evaluate some elements of lists and leave others alone",
        assumptions: LANGUAGE,
        campaigns: vec![
            Campaign::new("lists", 12_000, 250_000, lists::lists),
            Campaign::new("long lists", 2_000, 30_000, lists::long_lists),
        ],
    },
    Property {
        id: "L03",
        level: "exploration",
        rule: "distinct values of more than two parts, and texts of more than four characters",
        assumptions: LIBRARY,
        campaigns: vec![
            Campaign::new("round trip", 8_000, 100_000, json::round_trip),
            Campaign::new("texts", 24_000, 200_000, json::texts),
        ],
    },
    Property {
        id: "L04",
        level: "exploration",
        rule: "distinct histories with arguments of some length, and views that start and end inside",
        assumptions: LIBRARY,
        campaigns: vec![
            Campaign::new("numbers and texts", 36_000, 300_000, library::numbers_and_texts),
            Campaign::new("views", 18_000, 150_000, library::views),
        ],
    },
    Property {
        id: "L05",
        level: "exploration",
        rule: "distinct command lines of more than two words with two named flags or a missing value",
        assumptions: LIBRARY,
        campaigns: vec![Campaign::new("flags", 60_000, 300_000, library::flags)],
    },
    Property {
        id: "L06",
        level: "exploration",
        rule: "distinct elements with attributes or children",
        assumptions: LIBRARY,
        campaigns: vec![Campaign::new("render", 24_000, 200_000, library::render)],
    },
    Property {
        id: "L07",
        level: "exploration",
        rule: "distinct pairs of values of more than two parts",
        assumptions: LIBRARY,
        campaigns: vec![Campaign::new("any values", 50_000, 250_000, library::any_values)],
    },
    Property {
        id: "C01",
        level: "exploration",
        rule: "distinct programs that leave more than two marks or show a value with parts",
        assumptions: LANGUAGE,
        campaigns: vec![Campaign::new("meaning", 20_000, 400_000, lang::check::meaning)],
    },
    Property {
        id: "C02",
        level: "exploration",
        rule: "distinct programs that were compiled and run, or refused for their mistake",
        assumptions: LANGUAGE,
        campaigns: vec![
            Campaign::new("accepted", 20_000, 300_000, lang::check::accepted),
            Campaign::new("refused", 20_000, 300_000, lang::check::refused),
            Campaign::new("judged", 6_000, 150_000, lang::check::judged),
            Campaign::enumerated("fixed", lang::check::fixed_count, lang::check::fixed),
        ],
    },
    Property {
        id: "C03",
        level: "exploration",
        rule: "distinct programs that leave more than two marks or show a value with parts, run after every pass",
        assumptions: LANGUAGE,
        campaigns: vec![Campaign::new("passes", 10_000, 140_000, lang::check::passes)],
    },
    Property {
        id: "C04",
        level: "exploration",
        rule: "distinct programs that allocate more than 12 blocks",
        assumptions: LANGUAGE,
        campaigns: vec![Campaign::new("memory", 16_000, 250_000, lang::check::memory)],
    },
    Property {
        id: "C05",
        level: "exploration",
        rule: "distinct programs of several modules that import others, or with one mistake in the use of a name",
        assumptions: LANGUAGE,
        campaigns: vec![
            Campaign::new("modules", 8_000, 100_000, modules::modules),
            Campaign::new("mistakes", 8_000, 100_000, modules::mistakes),
        ],
    },
    Property {
        id: "P05",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 10_000, 500_000, systems::regex)],
    },
    Property {
        id: "P07",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 15_000, 800_000, systems::os_files)],
    },
    Property {
        id: "P08",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 15_000, 800_000, systems::sync_files)],
    },
    Property {
        id: "P09",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 15_000, 800_000, systems::os_sockets)],
    },
    Property {
        id: "P10",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("without threads", 10_000, 500_000, systems::sync_concurrency)],
    },
    Property {
        id: "P11",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 10_000, 500_000, systems::sql)],
    },
    Property {
        id: "P12",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 10_000, 200_000, systems::http)],
    },
    Property {
        id: "P15",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 10_000, 500_000, systems::os_process)],
    },
    Property {
        id: "P16",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 15_000, 800_000, systems::sync_sockets)],
    },
    Property {
        id: "P17",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 10_000, 500_000, systems::sync_process)],
    },
    Property {
        id: "P19",
        level: "exploration",
        rule: "sequences of two calls or more",
        assumptions: SYSTEM,
        campaigns: vec![Campaign::new("modules", 5_000, 200_000, systems::random)],
    },
    Property {
        id: "C06",
        level: "exploration",
        rule: "distinct test modules with two tests or more one of which fails, or with a public function that is no test",
        assumptions: LANGUAGE,
        campaigns: vec![
            Campaign::new("tests", 12_000, 250_000, testing::tests),
            Campaign::new("mistakes", 3_000, 50_000, testing::mistakes),
        ],
    }])
}

const LIBRARY: &[&str] = &[
    "the package is compiled up to the intermediate language and run by an interpreter, with the foreign functions of the packages as they are",
];

const LANGUAGE: &[&str] = &[
    "the intermediate program is run by an interpreter rather than by compiled code: fmm and LLVM cannot be built without network (C07 runs what mir-fmm generates)",
    "programs of one module, written from generated syntax trees; spawned functions run at once; race is left out",
];

const SYSTEM: &[&str] = &[
    "the package's modules are run by an interpreter with stand-ins of its foreign functions, which are checked apart",
];
