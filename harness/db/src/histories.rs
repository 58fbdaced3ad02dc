//! P11: queries and changes of databases against tables in memory.

use crate::values::{create, execute, query, Outcome, Pool, Rows, Value};
use futures::executor::block_on;
use pbt::{ensure, ensure_eq, fail, CaseResult, Gen};
use std::collections::BTreeMap;

fn number(g: &mut Gen) -> f64 {
    match g.weighted(&[4, 3, 2, 2, 1]) {
        0 => g.range(-10, 10) as f64,
        1 => g.range(-1_000_000, 1_000_000) as f64 / 64.0,
        2 => *g.pick(&[0.5, -0.0, 9007199254740992.0, -9007199254740993.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY]),
        3 => {
            let x = f64::from_bits(g.u64());
            if x.is_nan() { 1.5 } else { x }
        }
        _ => g.u64() as f64,
    }
}

fn text(g: &mut Gen) -> String {
    let n = if g.chance(1, 40) { 5000 } else { g.len(20) };
    (0..n)
        .map(|_| match g.weighted(&[10, 3, 1, 1]) {
            0 => (b'a' + g.below(26) as u8) as char,
            1 => *g.pick(&['\'', '"', '%', '?', ';', '\\', '$', ':', '@', ' ', '\n', '0', '.']),
            2 => *g.pick(&['é', 'あ', '😀', '\u{feff}', '\u{10ffff}']),
            _ => *g.pick(&['\0', '\u{1}', '\u{7f}']),
        })
        .collect()
}

fn value(g: &mut Gen) -> Value {
    match g.weighted(&[2, 2, 6, 5]) {
        0 => Value::None,
        1 => Value::Boolean(g.bool()),
        2 => Value::Number(number(g)),
        _ => Value::Text(if g.chance(1, 5) { format!("{}", number(g)) } else { text(g) }),
    }
}

/// What a value is when it comes back.
fn stored(x: &Value) -> Value {
    match x {
        Value::Boolean(x) => Value::Number(*x as u64 as f64),
        x => x.clone(),
    }
}

fn truncate(x: impl std::fmt::Debug) -> String {
    let x = format!("{x:?}");
    if x.len() > 2000 { format!("{}…", x.chars().take(2000).collect::<String>()) } else { x }
}

fn check_rows(expected: &Rows, found: Outcome<Rows>) -> CaseResult {
    let found = match found {
        Ok(x) => x,
        Err(x) => fail!("query", "a query fails: {x}"),
    };
    ensure!(found.len() == expected.len(), "rows", "{} rows {} instead of {} rows {}", found.len(), truncate(&found), expected.len(), truncate(expected));
    for (i, (x, y)) in found.iter().zip(expected).enumerate() {
        ensure!(x.len() == y.len(), "columns", "{} columns instead of {} in row {i}", x.len(), y.len());
        for (k, (x, y)) in x.iter().zip(y).enumerate() {
            ensure!(x == y, "value", "row {i} has {} instead of {} in column {k}", truncate(x), truncate(y));
        }
    }
    Ok(())
}

fn memory(g: &mut Gen) -> Result<Pool, pbt::Failure> {
    let uri = "sqlite::memory:";
    match block_on(create(uri.as_bytes(), g.below(2) as f64, 1.0, 20_000.0)) {
        Ok(x) => Ok(x),
        Err(x) => fail!("create", "creating a pool fails: {x}"),
    }
}

/// A failing statement and its arguments.
fn failing(g: &mut Gen) -> (Vec<u8>, Vec<Value>) {
    match g.below(7) {
        0 => (b"SELEC 1".to_vec(), vec![]),
        1 => (b"SELECT x FROM missing".to_vec(), vec![]),
        2 => (b"SELECT ?".to_vec(), vec![Value::Bytes(vec![0x61, 0xff])]),
        3 => (b"SELECT '\xff'".to_vec(), vec![]),
        4 => (b"SELECT ?, ?".to_vec(), vec![value(g), Value::Other]),
        5 => (b"SELECT missing(?)".to_vec(), vec![value(g)]),
        _ => (b"SELECT 'x".to_vec(), vec![]),
    }
}

async fn check_failing(pool: &Pool, g: &mut Gen) -> CaseResult {
    let (text, values) = failing(g);
    let x = if g.bool() { query(pool, &text, &values).await.map(|x| truncate(x)) } else { execute(pool, &text, &values).await.map(|x| x.to_string()) };
    ensure!(x.is_err(), "failing statement", "the statement {:?} with {values:?} gives {x:?}", String::from_utf8_lossy(&text));
    g.label("failing statement");
    Ok(())
}

pub fn parameters(g: &mut Gen) -> CaseResult {
    let pool = memory(g)?;
    let (rows, columns) = (1 + if g.bool() { 0 } else { g.len(12) }, 1 + g.len(10));
    let values: Vec<Value> = (0..rows * columns).map(|_| value(g)).collect();
    // Parameters in the order of the text or numbered in another.
    let order: Option<Vec<usize>> = g.bool().then(|| {
        let mut order: Vec<usize> = (0..values.len()).collect();
        for i in 0..order.len() {
            let k = i + g.usize(order.len() - i);
            order.swap(i, k);
        }
        order
    });
    let place = |i: usize| match &order {
        Some(x) => format!("?{}", x[i] + 1),
        None => "?".into(),
    };
    let row = |i: usize| (0..columns).map(|k| place(i * columns + k)).collect::<Vec<_>>().join(", ");
    let text = if rows == 1 { format!("SELECT {}", row(0)) } else { format!("VALUES {}", (0..rows).map(|i| format!("({})", row(i))).collect::<Vec<_>>().join(", ")) };
    let mut bound = values.clone();
    if let Some(order) = &order {
        for (i, k) in order.iter().enumerate() {
            bound[*k] = values[i].clone();
        }
    }
    g.describe(|| format!("{text} with {}", truncate(&bound)));
    g.label_if(order.is_some(), "numbered");
    g.label_if(rows > 1, "several rows");
    if values.iter().any(|x| *x != values[0]) {
        g.nontrivial(&format!("{text} {values:?}"));
    }
    let expected: Rows = values.chunks(columns).map(|x| x.iter().map(stored).collect()).collect();
    block_on(async {
        if g.chance(1, 6) {
            check_failing(&pool, g).await?;
        }
        check_rows(&expected, query(&pool, text.as_bytes(), &bound).await)?;
        if g.chance(1, 6) {
            check_failing(&pool, g).await?;
            check_rows(&expected, query(&pool, text.as_bytes(), &bound).await)?;
        }
        Ok(())
    })
}

#[derive(Clone, Debug)]
struct Row {
    real: Value,
    text: Value,
    boolean: Value,
    integer: Value,
    any: Value,
}

impl Row {
    fn new(g: &mut Gen) -> Self {
        let none = |g: &mut Gen, x: Value| if g.chance(1, 8) { Value::None } else { x };
        let (x, y, z, w, v) = (number(g), text(g), g.bool(), number(g), value(g));
        let w = if g.bool() { w } else { w.trunc() };
        Row {
            real: none(g, Value::Number(x)),
            text: none(g, Value::Text(y)),
            boolean: none(g, Value::Boolean(z)),
            integer: none(g, Value::Number(w)),
            any: v,
        }
    }
    fn values(&self) -> Vec<Value> {
        vec![self.real.clone(), self.text.clone(), self.boolean.clone(), self.integer.clone(), self.any.clone()]
    }
    fn stored(&self) -> Vec<Value> {
        let mut x: Vec<Value> = self.values().iter().map(stored).collect();
        // Columns of numbers keep no sign of zero.
        for i in [0, 3] {
            if let Value::Number(x) = &mut x[i] {
                *x += 0.0;
            }
        }
        x
    }
}

type Table = BTreeMap<i64, Row>;

const CREATE: &str = "CREATE TABLE t (id INTEGER PRIMARY KEY, a REAL, b TEXT, c, d INTEGER, e)";

async fn step(g: &mut Gen, pool: &Pool, table: &mut Table, script: &mut Vec<String>, counts: &mut (u64, u64)) -> CaseResult {
    let id = g.range(0, 12);
    let key = Value::Number(id as f64);
    let check = |x: Outcome<f64>, expected: usize, what: &str| -> CaseResult {
        match x {
            Ok(x) => ensure_eq!(x, expected as f64, "rows affected", "rows affected by {what}"),
            Err(x) => fail!("execute", "{what} fails: {x}"),
        }
        Ok(())
    };
    match g.weighted(&[8, 4, 3, 2, 6, 3, 3, 2]) {
        0 => {
            let row = Row::new(g);
            script.push(format!("insert {id} {}", truncate(&row)));
            let mut values = row.values();
            values.insert(0, key);
            let x = execute(pool, b"INSERT INTO t VALUES (?, ?, ?, ?, ?, ?)", &values).await;
            if table.contains_key(&id) {
                ensure!(x.is_err(), "failing statement", "inserting an equal key gives {x:?}");
                g.label("equal key");
            } else {
                check(x, 1, "an insertion")?;
                table.insert(id, row);
                counts.0 += 1;
            }
        }
        1 => {
            // Parameters in another order than the columns.
            let x = text(g);
            let y = number(g);
            script.push(format!("update from {id} by {x:?} and {y}"));
            let values = [Value::Text(x.clone()), Value::Number(y), key];
            let n = table.range(id..).count();
            check(execute(pool, b"UPDATE t SET b = ?1, a = ?2 WHERE id >= ?3", &values).await, n, "an update")?;
            for (_, row) in table.range_mut(id..) {
                row.text = Value::Text(x.clone());
                row.real = Value::Number(y);
            }
            counts.0 += (n > 0) as u64;
        }
        2 => {
            let to = id + g.range(0, 3);
            script.push(format!("delete {id} to {to}"));
            let n = table.range(id..to).count();
            let values = [key, Value::Number(to as f64)];
            check(execute(pool, b"DELETE FROM t WHERE id >= ? AND id < ?", &values).await, n, "a removal")?;
            table.retain(|x, _| *x < id || *x >= to);
            counts.0 += (n > 0) as u64;
        }
        3 => {
            script.push("several rows at once, of which the last one fails".into());
            let row = Row::new(g);
            let free: Vec<i64> = (100..103).collect();
            let mut values = vec![];
            for id in free.iter().chain([&100]) {
                values.push(Value::Number(*id as f64));
                values.extend(row.values());
            }
            let text = format!("INSERT INTO t VALUES {}", vec!["(?, ?, ?, ?, ?, ?)"; 4].join(", "));
            let x = execute(pool, text.as_bytes(), &values).await;
            ensure!(x.is_err(), "failing statement", "inserting equal keys gives {x:?}");
        }
        4 => {
            let down = g.bool();
            script.push(format!("rows from {id}, down: {down}"));
            let text = format!("SELECT a, b, c, d, e, id FROM t WHERE id >= ? ORDER BY id {}", if down { "DESC" } else { "ASC" });
            let mut expected: Rows = table
                .range(id..)
                .map(|(id, x)| {
                    let mut x = x.stored();
                    x.push(Value::Number(*id as f64));
                    x
                })
                .collect();
            if down {
                expected.reverse();
            }
            counts.1 += (!expected.is_empty()) as u64;
            check_rows(&expected, query(pool, text.as_bytes(), &[key]).await)?;
        }
        5 => {
            // By a value.
            let Some(row) = table.values().nth(id as usize) else { return Ok(()) };
            let x = row.text.clone();
            script.push(format!("rows with the text {x:?}"));
            let expected: Rows = table.iter().filter(|(_, y)| y.text == x && x != Value::None).map(|(id, y)| vec![Value::Number(*id as f64), y.stored()[0].clone()]).collect();
            check_rows(&expected, query(pool, b"SELECT id, a FROM t WHERE b = ? ORDER BY id", &[x]).await)?;
        }
        6 => {
            script.push("failing statement".into());
            check_failing(pool, g).await?;
        }
        _ => {
            script.push("count".into());
            check_rows(&vec![vec![Value::Number(table.len() as f64)]], query(pool, b"SELECT count(*) FROM t", &[]).await)?;
            if g.chance(1, 3) {
                let x = query(pool, b"SELECT x'00ff'", &[]).await;
                ensure!(x.is_err(), "blob", "a value of a type that there is not gives {x:?}");
            }
        }
    }
    Ok(())
}

async fn history(g: &mut Gen, pool: &Pool) -> CaseResult {
    let mut table = Table::new();
    let mut script = vec![];
    let mut counts = (0, 0);
    let result = async {
        match execute(pool, CREATE.as_bytes(), &[]).await {
            Ok(_) => {}
            Err(x) => fail!("execute", "creating a table fails: {x}"),
        }
        for _ in 0..2 + g.len(25) {
            step(g, pool, &mut table, &mut script, &mut counts).await?;
        }
        let expected: Rows = table.iter().map(|(id, x)| [vec![Value::Number(*id as f64)], x.stored()].concat()).collect();
        check_rows(&expected, query(pool, b"SELECT * FROM t ORDER BY id", &[]).await)
    }
    .await;
    g.describe(|| script.join("; "));
    if counts.0 > 1 && counts.1 > 1 {
        g.nontrivial(&script);
    }
    result
}

struct Directory(std::path::PathBuf);

impl Directory {
    fn new() -> Self {
        static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let path = pbt::scratch().join(format!("db-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&path).expect("HARNESS: scratch directory");
        Self(path)
    }
}

impl Drop for Directory {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn tables(g: &mut Gen) -> CaseResult {
    let directory = Directory::new();
    let pool = if g.chance(2, 3) {
        memory(g)?
    } else {
        g.label("file");
        let uri = format!("sqlite://{}/x.db?mode=rwc", directory.0.display());
        match block_on(create(uri.as_bytes(), g.below(2) as f64, (1 + g.below(3)) as f64, 20_000.0)) {
            Ok(x) => x,
            Err(x) => fail!("create", "creating a pool fails: {x}"),
        }
    };
    block_on(history(g, &pool))
}

/// Queries at the same time through one pool.
pub fn together(g: &mut Gen) -> CaseResult {
    let directory = Directory::new();
    let uri = format!("sqlite://{}/x.db?mode=rwc", directory.0.display());
    let max = 1 + g.below(4);
    let n = 2 + g.usize(6);
    let all: Vec<Vec<Value>> = (0..n).map(|_| (0..1 + g.usize(5)).map(|_| value(g)).collect()).collect();
    let fails: Vec<bool> = (0..n).map(|_| g.chance(1, 6)).collect();
    g.describe(|| format!("{max} connections, {}", truncate(&all)));
    g.nontrivial(&format!("{max} {all:?}"));
    block_on(async {
        let pool = match create(uri.as_bytes(), g.below(2) as f64, max as f64, 20_000.0).await {
            Ok(x) => x,
            Err(x) => fail!("create", "creating a pool fails: {x}"),
        };
        let results = futures::future::join_all(all.iter().zip(&fails).map(|(x, fails)| {
            let text = if *fails { "SELECT".into() } else { format!("SELECT {}", vec!["?"; x.len()].join(", ")) };
            let pool = pool.clone();
            async move { query(&pool, text.as_bytes(), x).await }
        }))
        .await;
        for ((x, fails), result) in all.iter().zip(&fails).zip(results) {
            if *fails {
                ensure!(result.is_err(), "failing statement", "a failing statement gives {}", truncate(&result));
            } else {
                check_rows(&vec![x.iter().map(stored).collect()], result)?;
            }
        }
        Ok(())
    })
}

/// Databases that outlive pools, and ones that cannot be opened.
pub fn pools(g: &mut Gen) -> CaseResult {
    let directory = Directory::new();
    let path = directory.0.join("x.db");
    let values: Vec<Value> = (0..1 + g.usize(5)).map(|_| value(g)).collect();
    g.describe(|| truncate(&values));
    g.nontrivial(&format!("{values:?}"));
    block_on(async {
        let bad = match g.below(4) {
            0 => format!("sqlite://{}/missing/x.db", directory.0.display()).into_bytes(),
            1 => format!("sqlite://{}", path.display()).into_bytes(),
            2 => g.pick(&["", "sqlite", "foo://x", "x.db", "://", "sqlite://x?mode=y"]).as_bytes().to_vec(),
            _ => b"sqlite::memory:\xff".to_vec(),
        };
        let x = create(&bad, 0.0, 1.0, 20_000.0).await;
        ensure!(x.is_err(), "create", "the database {:?} is opened", String::from_utf8_lossy(&bad));
        let uri = format!("sqlite://{}?mode=rwc", path.display());
        for (i, x) in values.iter().enumerate() {
            let pool = match create(uri.as_bytes(), g.below(2) as f64, (1 + g.below(3)) as f64, 20_000.0).await {
                Ok(x) => x,
                Err(x) => fail!("create", "creating a pool fails: {x}"),
            };
            if i == 0 {
                if let Err(x) = execute(&pool, b"CREATE TABLE t (i INTEGER, x)", &[]).await {
                    fail!("execute", "creating a table fails: {x}")
                }
            }
            match execute(&pool, b"INSERT INTO t VALUES (?, ?)", &[Value::Number(i as f64), x.clone()]).await {
                Ok(n) => ensure_eq!(n, 1.0, "rows affected", "rows affected by an insertion"),
                Err(x) => fail!("execute", "an insertion fails: {x}"),
            }
            let copy = pool.clone();
            drop(pool);
            let expected: Rows = values[..=i].iter().map(|x| vec![stored(x)]).collect();
            check_rows(&expected, query(&copy, b"SELECT x FROM t ORDER BY i", &[]).await)?;
        }
        Ok(())
    })
}

/// Booleans in a column that is declared to have them.
pub fn booleans(g: &mut Gen) -> CaseResult {
    g.describe(|| "a table with a column of booleans".into());
    let pool = memory(g)?;
    block_on(async {
        for x in ["CREATE TABLE t (x BOOLEAN)", "INSERT INTO t VALUES (TRUE)"] {
            if let Err(x) = execute(&pool, x.as_bytes(), &[]).await {
                fail!("execute", "a statement fails: {x}")
            }
        }
        match query(&pool, b"SELECT x FROM t", &[]).await {
            Ok(x) => ensure!(x == vec![vec![Value::Number(1.0)]] || x == vec![vec![Value::Boolean(true)]], "value", "true comes back as {x:?}"),
            Err(x) => fail!("boolean column", "a column of booleans cannot be read: {x}"),
        }
        Ok(())
    })
}
