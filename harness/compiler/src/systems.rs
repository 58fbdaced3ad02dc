//! Packages around foreign functions: their modules, compiled and run, with stand-ins of the foreign functions that note
//! what they are given and answer as a script says. What the foreign functions do is checked elsewhere.

use crate::{
    machine::{number, Machine, Res, Stop, Value},
    packages::{self, call, Set},
    pipeline::LAST,
};
use mir::types::Type;
use pbt::{ensure, ensure_eq, CaseResult, Failure, Gen};
use std::{
    cell::RefCell,
    collections::{BTreeMap, VecDeque},
};

const FUEL: u64 = 200_000;

/// What a foreign function gives
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    None,
    Boolean(bool),
    Number(f64),
    Text(Vec<u8>),
    Error(Vec<u8>),
    /// Values of records with something of the foreign code in them, by the mark that they have
    Handle(&'static str, f64),
    Metadata(f64),
    Accepted(f64, Vec<u8>),
    Datagram(Vec<u8>, Vec<u8>),
    List(Vec<Answer>),
    Response(f64, Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>),
}

thread_local! {
    static SCRIPT: RefCell<VecDeque<Answer>> = Default::default();
    static CALLS: RefCell<Vec<String>> = Default::default();
    static ITEMS: RefCell<Vec<Vec<Value>>> = Default::default();
    /// Requests that servers get, and what their callbacks answer
    static REQUESTS: RefCell<VecDeque<Request>> = Default::default();
    static RESPONSES: RefCell<VecDeque<Answer>> = Default::default();
}

type Headers = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Clone, Debug)]
struct Request {
    method: Vec<u8>,
    uri: Vec<u8>,
    headers: Headers,
    body: Vec<u8>,
}

// Texts of values

fn quoted(bytes: &[u8]) -> String {
    format!("\"{}\"", bytes.escape_ascii())
}

fn numeral(number: f64) -> String {
    format!("{number:?}")
}

fn headers_text(headers: &Headers) -> String {
    // Later values win.
    let map = headers.iter().cloned().collect::<BTreeMap<_, _>>();
    format!("{{{}}}", map.iter().map(|(key, value)| format!("{}: {}", quoted(key), quoted(value))).collect::<Vec<_>>().join(", "))
}

impl Answer {
    fn show(&self) -> String {
        match self {
            Self::None => "none".into(),
            Self::Boolean(boolean) => boolean.to_string(),
            Self::Number(number) => numeral(*number),
            Self::Text(bytes) => quoted(bytes),
            Self::Error(message) => format!("error({})", quoted(message)),
            Self::Handle(_, mark) => format!("record({})", numeral(*mark)),
            Self::Metadata(size) => format!("record({})", numeral(*size)),
            Self::Accepted(mark, address) => format!("record(record({}), {})", numeral(*mark), quoted(address)),
            Self::Datagram(data, address) => format!("record({}, {})", quoted(data), quoted(address)),
            Self::List(answers) => list_text(answers.iter().map(Self::show)),
            Self::Response(status, headers, body) => {
                format!("record({}, {}, {})", numeral(*status), headers_text(headers), quoted(body))
            }
        }
    }

    fn is_error(&self) -> bool {
        matches!(self, Self::Error(_))
    }
}

fn list_text(texts: impl Iterator<Item = String>) -> String {
    format!("[{}]", texts.collect::<Vec<_>>().join(" "))
}

/// The elements of a list, which stays as it is
fn elements(machine: &Machine, list: &Value) -> Res<Vec<Value>> {
    ITEMS.with(|items| items.borrow_mut().push(vec![]));
    let list = machine.clone_value(list)?;
    let result = call(machine, "Each", vec![list]);
    let items = ITEMS.with(|items| items.borrow_mut().pop().unwrap());
    result?;
    Ok(items)
}

fn show(machine: &Machine, value: &Value) -> Res<String> {
    Ok(match value {
        Value::None => "none".into(),
        Value::Boolean(boolean) => boolean.to_string(),
        Value::Number(number) => numeral(*number),
        Value::String(_) => quoted(machine.bytes(value)?),
        Value::Function(_) | Value::Native(_) => "function".into(),
        Value::Variant(_, payload) => show(machine, payload)?,
        Value::Record(record) => {
            let type_ = record.data.type_.clone();
            if &*type_ == "prelude:List" {
                let items = elements(machine, value)?;
                let texts = items.iter().map(|item| show(machine, item)).collect::<Res<Vec<_>>>()?;
                for item in items {
                    machine.drop_value(&item)?;
                }
                return Ok(list_text(texts.into_iter()));
            }
            let fields = record.data.fields.borrow().clone();
            if &*type_ == "prelude:Map" {
                let list = call(machine, "Entries", vec![machine.clone_value(value)?])?;
                let items = elements(machine, &list)?;
                machine.drop_value(&list)?;
                let mut texts = items.iter().map(|item| show(machine, item)).collect::<Res<Vec<_>>>()?;
                for item in items {
                    machine.drop_value(&item)?;
                }
                let mut entries = vec![];
                while texts.len() > 1 {
                    entries.push((texts.remove(0), texts.remove(0)));
                }
                entries.sort();
                let entries = entries.into_iter().map(|(key, value)| format!("{key}: {value}")).collect::<Vec<_>>();
                return Ok(format!("{{{}}}", entries.join(", ")));
            }
            let texts = fields.iter().map(|field| show(machine, field)).collect::<Res<Vec<_>>>()?.join(", ");
            // Wrappers of lists, maps and functions in values of any type
            if type_.starts_with("hir:list:") || type_.starts_with("hir:map:") {
                return Ok(texts);
            }
            // Names of types are the packages' own matter.
            let name = if type_.ends_with(":error") { "error" } else { "record" };
            format!("{name}({texts})")
        }
    })
}

// Values of texts

fn any(machine: &Machine, answer: &Answer) -> Res<Value> {
    // Foreign code makes records by the functions that the packages define for it.
    let record = |foreign: &str, fields| -> Res<Value> {
        let name = packages::argument_record(foreign).ok_or_else(|| Stop::Stuck(format!("no records for {foreign}")))?;
        Ok(machine.record(&name, fields))
    };
    let wrap = |foreign: &str, fields| -> Res<Value> { machine.call_foreign(foreign, vec![record(foreign, fields)?]) };
    let mark = |number: f64| machine.variant(&Type::Number, Value::Number(number));

    Ok(match answer {
        Answer::None => machine.variant(&Type::None, Value::None),
        Answer::Boolean(boolean) => machine.variant(&Type::Boolean, Value::Boolean(*boolean)),
        Answer::Number(number) => mark(*number),
        Answer::Text(bytes) => machine.variant(&Type::ByteString, machine.string(bytes.clone())),
        Answer::Error(message) => call(machine, "MakeError", vec![machine.string(message.clone())])?,
        Answer::Handle(name, number) => {
            let foreign = match *name {
                "NormalFile" => "_pen_os_file_to_any",
                "Listener" => "_pen_os_tcp_listener_to_any",
                "Stream" => "_pen_os_tcp_stream_to_any",
                "Socket" => "_pen_os_udp_socket_to_any",
                "Expression" => "_pen_regex_expression_to_any",
                "Pool" => "_pen_sql_pool_to_any",
                _ => panic!("HARNESS: handle {name}"),
            };
            wrap(foreign, vec![mark(*number)])?
        }
        Answer::Metadata(size) => {
            wrap("_pen_os_file_metadata_to_any", vec![Value::Number(*size)])?
        }
        Answer::Accepted(number, address) => {
            let fields = vec![record("_pen_os_tcp_stream_to_any", vec![mark(*number)])?, machine.string(address.clone())];
            wrap("_pen_os_tcp_accepted_stream_to_any", fields)?
        }
        Answer::Datagram(data, address) => {
            let fields = vec![machine.string(data.clone()), machine.string(address.clone())];
            wrap("_pen_os_udp_datagram_to_any", fields)?
        }
        Answer::List(answers) => call(machine, "OfList", vec![list(machine, answers)?])?,
        Answer::Response(status, headers, body) => {
            let fields =
                vec![Value::Number(*status), header_map(machine, headers)?, machine.string(body.clone())];
            wrap("_pen_http_response_to_any", fields)?
        }
    })
}

fn list(machine: &Machine, answers: &[Answer]) -> Res<Value> {
    let mut list = call(machine, "Empty", vec![])?;
    for answer in answers {
        let value = any(machine, answer)?;
        list = call(machine, "Push", vec![list, value])?;
    }
    Ok(list)
}

/// Headers as foreign code makes them
fn header_map(machine: &Machine, headers: &Headers) -> Res<Value> {
    let mut map = machine.call_foreign("_pen_http_header_map_create", vec![])?;
    for (key, value) in headers {
        let arguments = vec![map, machine.string(key.clone()), machine.string(value.clone())];
        map = machine.call_foreign("_pen_http_header_map_set", arguments)?;
    }
    Ok(map)
}

/// Headers as foreign code reads them
fn read_headers(machine: &Machine, map: &Value) -> Res<String> {
    let keys = machine.call_foreign("_pen_http_header_map_keys", vec![machine.clone_value(map)?])?;
    let items = elements(machine, &keys)?;
    machine.drop_value(&keys)?;
    let mut headers = vec![];
    for item in items {
        let Value::Variant(_, key) = &item else { return Err(Stop::Stuck("key of headers".into())) };
        let key = (**key).clone();
        let bytes = machine.bytes(&key)?.to_vec();
        let value = machine.call_foreign("_pen_http_header_map_get", vec![machine.clone_value(map)?, key])?;
        headers.push((bytes, machine.bytes(&value)?.to_vec()));
        machine.drop_value(&value)?;
    }
    let missing = machine.call_foreign(
        "_pen_http_header_map_get",
        vec![machine.clone_value(map)?, machine.string("no such header")],
    )?;
    let absent = machine.bytes(&missing)?.is_empty();
    machine.drop_value(&missing)?;
    let unique = headers.iter().map(|(key, _)| key).collect::<std::collections::BTreeSet<_>>().len() == headers.len();
    Ok(format!("{}{}{}", headers_text(&headers), if absent { "" } else { " missing" }, if unique { "" } else { " twice" }))
}

// Foreign functions

/// Notes a call and answers. `plain` answers have one type rather than several.
fn native(machine: &Machine, name: &'static str, arity: usize, plain: bool) {
    machine.define_foreign(name, arity, move |machine, arguments| {
        let texts = arguments.iter().map(|argument| show(machine, argument)).collect::<Res<Vec<_>>>()?;
        CALLS.with(|calls| calls.borrow_mut().push(format!("{name}({})", texts.join(", "))));
        for argument in arguments {
            machine.drop_value(&argument)?;
        }
        answer(machine, plain)
    });
}

fn answer(machine: &Machine, plain: bool) -> Res<Value> {
    let Some(answer) = SCRIPT.with(|script| script.borrow_mut().pop_front()) else {
        // The calls differ from those that are expected.
        return Err(Stop::Exit("a foreign call too many".into()));
    };
    Ok(match answer {
        Answer::List(answers) if plain => list(machine, &answers)?,
        answer if plain => match any(machine, &answer)? {
            Value::Variant(_, payload) => (*payload).clone(),
            value => value,
        },
        answer => any(machine, &answer)?,
    })
}

fn common(machine: &Machine) {
    machine.define_foreign("_test_item", 1, |_, arguments| {
        ITEMS.with(|items| items.borrow_mut().last_mut().unwrap().push(arguments[0].clone()));
        Ok(Value::None)
    });
}

fn os_natives(machine: &Machine) {
    common(machine);
    for (name, arity) in [
        ("_pen_os_read_stdin", 0),
        ("_pen_os_read_limit_stdin", 1),
        ("_pen_os_write_stdout", 1),
        ("_pen_os_write_stderr", 1),
        ("_pen_os_open_file", 2),
        ("_pen_os_read_file", 1),
        ("_pen_os_read_limit_file", 2),
        ("_pen_os_write_file", 2),
        ("_pen_os_copy_file", 2),
        ("_pen_os_move_file", 2),
        ("_pen_os_remove_file", 1),
        ("_pen_os_read_directory", 1),
        ("_pen_os_create_directory", 1),
        ("_pen_os_remove_directory", 1),
        ("_pen_os_get_environment_variable", 1),
        ("_pen_os_read_metadata", 1),
        ("_pen_os_tcp_bind", 1),
        ("_pen_os_tcp_connect", 1),
        ("_pen_os_tcp_accept", 1),
        ("_pen_os_tcp_receive", 2),
        ("_pen_os_tcp_send", 2),
        ("_pen_os_udp_bind", 1),
        ("_pen_os_udp_connect", 2),
        ("_pen_os_udp_receive", 1),
        ("_pen_os_udp_receive_from", 1),
        ("_pen_os_udp_send", 2),
        ("_pen_os_udp_send_to", 3),
        ("_pen_os_run_command", 2),
    ] {
        native(machine, name, arity, false);
    }
    for (name, arity) in
        [("_pen_os_get_arguments", 0), ("_pen_os_get_time", 0), ("_pen_os_sleep", 1), ("_pen_os_exit", 1), ("_pen_os_unreachable", 0)]
    {
        native(machine, name, arity, true);
    }
}

fn regex_natives(machine: &Machine) {
    common(machine);
    native(machine, "_pen_regex_expression_new", 1, false);
    native(machine, "_pen_regex_expression_matches", 2, true);
    native(machine, "_pen_regex_expression_match", 2, true);
}

fn random_natives(machine: &Machine) {
    common(machine);
    native(machine, "_pen_random_number", 0, true);
}

fn sql_natives(machine: &Machine) {
    common(machine);
    native(machine, "_pen_sql_pool_create", 2, false);
    native(machine, "_pen_sql_pool_query", 3, false);
    native(machine, "_pen_sql_pool_execute", 3, false);
}

fn http_natives(machine: &Machine) {
    common(machine);
    machine.define_foreign("_pen_http_client_send", 4, |machine, arguments| {
        let [method, uri, headers, body] = &arguments[..] else { return Err(Stop::Stuck("send".into())) };
        let text = format!(
            "_pen_http_client_send({}, {}, {}, {})",
            show(machine, method)?,
            show(machine, uri)?,
            read_headers(machine, headers)?,
            show(machine, body)?
        );
        CALLS.with(|calls| calls.borrow_mut().push(text));
        for argument in &arguments {
            machine.drop_value(argument)?;
        }
        answer(machine, false)
    });
    machine.define_foreign("_pen_http_server_serve", 2, |machine, arguments| {
        let [address, callback] = &arguments[..] else { return Err(Stop::Stuck("serve".into())) };
        let text = format!("_pen_http_server_serve({})", show(machine, address)?);
        CALLS.with(|calls| calls.borrow_mut().push(text));
        machine.drop_value(address)?;
        while let Some(request) = REQUESTS.with(|requests| requests.borrow_mut().pop_front()) {
            let headers = header_map(machine, &request.headers)?;
            let callback = machine.clone_value(callback)?;
            let response = machine.call(
                &callback,
                vec![machine.string(request.method), machine.string(request.uri), headers, machine.string(request.body)],
            )?;
            let Value::Record(record) = &response else { return Err(Stop::Stuck("response".into())) };
            let fields = record.data.fields.borrow().clone();
            let text = match &fields[..] {
                [status, headers, body] => {
                    format!("record({}, {}, {})", show(machine, status)?, read_headers(machine, headers)?, show(machine, body)?)
                }
                _ => "a response of other fields".into(),
            };
            CALLS.with(|calls| calls.borrow_mut().push(text));
            machine.drop_value(&response)?;
        }
        machine.drop_value(callback)?;
        answer(machine, false)
    });
    // The server of the program
    machine.define_foreign("_test_request", 4, |machine, arguments| {
        let texts = arguments.iter().map(|argument| show(machine, argument)).collect::<Res<Vec<_>>>()?;
        CALLS.with(|calls| calls.borrow_mut().push(format!("Request({})", texts.join(", "))));
        for argument in &arguments {
            machine.drop_value(argument)?;
        }
        let response = RESPONSES.with(|responses| responses.borrow_mut().pop_front());
        let Some(Answer::Response(status, headers, body)) = response else {
            return Err(Stop::Exit("a request too many".into()));
        };
        let mut map = call(machine, "NoHeaders", vec![])?;
        for (key, value) in headers {
            map = call(machine, "SetHeader", vec![map, machine.string(key), machine.string(value)])?;
        }
        call(machine, "MakeResponse", vec![Value::Number(status), map, machine.string(body)])
    });
}

// Programs that use the packages

macro_rules! common {
    () => {
        r#"
Empty = \() [any] { [any] }
Push = \(xs [any], x any) [any] { [any ...xs, x] }
OfList = \(xs [any]) any { xs }
MakeError = \(s string) any { error(s) }
Entries = \(m {string: string}) [any] { [any x() for x in [any k(), v()] for k, v in keys(m), values(m)] }
Each = \(xs [any]) none {
  if [x, ...rest] = xs {
    _test_item(x())
    Each(rest)
  } else {
    none
  }
}
"#
    };
}

macro_rules! os_driver {
    ($name:literal, $run:literal) => {
        concat!(
            "import ", $name, "'Context\nimport ", $name, "'Directory\nimport ", $name, "'Environment\nimport ", $name,
            "'File\nimport ", $name, "'File'Metadata\nimport ", $name, "'File'OpenOptions\nimport ", $name, "'Process\nimport ", $name,
            "'Tcp\nimport ", $name, "'Tcp'AcceptedStream\nimport ", $name, "'Tcp'Listener\nimport ", $name,
            "'Tcp'Stream\nimport ", $name, "'Time\nimport ", $name, "'Udp\nimport ", $name, "'Udp'Datagram\nimport ", $name,
            "'Udp'Socket\n\nimport foreign \"c\" _test_item \\(any) none\n",
            common!(),
            r#"
NewContext = \() Context'Context { Context'UnsafeNew() }

StdIn = \() File'File { File'StdIn() }
StdOut = \() File'File { File'StdOut() }
StdErr = \() File'File { File'StdErr() }
Open = \(c Context'Context, p string) any { File'Open(c, p) }
OpenWith = \(
  c Context'Context, p string, append boolean, create boolean, new boolean, read boolean, truncate boolean, write boolean
) any {
  File'OpenWithOptions(
    c, p,
    OpenOptions'OpenOptions{
      Append: append, Create: create, CreateNew: new, Read: read, Truncate: truncate, Write: write,
    },
  )
}
OpenDefault = \(c Context'Context, p string, write boolean) any {
  File'OpenWithOptions(c, p, OpenOptions'OpenOptions{...OpenOptions'Default(), Write: write})
}
Read = \(c Context'Context, f File'File) any { File'Read(c, f) }
ReadLimit = \(c Context'Context, f File'File, n number) any { File'ReadLimit(c, f, n) }
Write = \(c Context'Context, f File'File, s string) any { File'Write(c, f, s) }
Copy = \(c Context'Context, s string, t string) any { File'Copy(c, s, t) }
Move = \(c Context'Context, s string, t string) any { File'Move(c, s, t) }
Remove = \(c Context'Context, s string) any { File'Remove(c, s) }
Metadata = \(c Context'Context, s string) any {
  if m = File'Metadata(c, s) as error { m } else { size(m) }
}
size = \(m Metadata'Metadata) any { m.Size }
ReadDirectory = \(c Context'Context, s string) any { Directory'Read(c, s) }
CreateDirectory = \(c Context'Context, s string) any { Directory'Create(c, s) }
RemoveDirectory = \(c Context'Context, s string) any { Directory'Remove(c, s) }
Arguments = \(c Context'Context) any { Environment'Arguments(c) }
Variable = \(c Context'Context, s string) any { Environment'Variable(c, s) }
Exit = \(c Context'Context, n number) any { Process'Exit(c, n) }
Now = \(c Context'Context) any { Time'Now(c) }
Sleep = \(c Context'Context, n number) any { Time'Sleep(c, n) }
TcpBind = \(c Context'Context, s string) any { Tcp'Bind(c, s) }
TcpConnect = \(c Context'Context, s string) any { Tcp'Connect(c, s) }
TcpAccept = \(c Context'Context, l Listener'Listener) any { Tcp'Accept(c, l) }
TcpReceive = \(c Context'Context, s Stream'Stream, n number) any { Tcp'Receive(c, s, n) }
TcpSend = \(c Context'Context, s Stream'Stream, t string) any { Tcp'Send(c, s, t) }
AcceptedStream = \(s AcceptedStream'AcceptedStream) Stream'Stream { s.Stream }
AcceptedAddress = \(s AcceptedStream'AcceptedStream) string { s.Address }
UdpBind = \(c Context'Context, s string) any { Udp'Bind(c, s) }
UdpConnect = \(c Context'Context, s Socket'Socket, a string) any { Udp'Connect(c, s, a) }
UdpReceive = \(c Context'Context, s Socket'Socket) any { Udp'Receive(c, s) }
UdpReceiveFrom = \(c Context'Context, s Socket'Socket) any { Udp'ReceiveFrom(c, s) }
UdpSend = \(c Context'Context, s Socket'Socket, t string) any { Udp'Send(c, s, t) }
UdpSendTo = \(c Context'Context, s Socket'Socket, t string, a string) any { Udp'SendTo(c, s, t, a) }
DatagramData = \(d Datagram'Datagram) string { d.Data }
DatagramAddress = \(d Datagram'Datagram) string { d.Address }
"#,
            $run
        )
    };
}

const OS_DRIVER: &str = os_driver!(
    "Os",
    r#"
Run = \(c Context'Context, s string, xs [any]) any {
  Process'Run(c, s, [string t() for t in if t = x() as string { [string t] } else { [string] } for x in xs])
}
"#
);
const SYNC_DRIVER: &str = os_driver!("Sync", "");

const REGEX_DRIVER: &str = concat!(
    "import Regex'Expression\n\nimport foreign \"c\" _test_item \\(any) none\n",
    common!(),
    r#"
New = \(s string) any { Expression'New(s) }
Matches = \(e Expression'Expression, s string) any { Expression'Matches(e, s) }
Match = \(e Expression'Expression, s string) any { Expression'Match(e, s) }
"#
);

const SQL_DRIVER: &str = concat!(
    "import Sql'Context\nimport Sql'Pool\nimport Sql'Pool'Options\nimport Sql'Value\n\nimport foreign \"c\" _test_item \\(any) none\n",
    common!(),
    r#"
NewContext = \() Context'Context { Context'UnsafeNew() }
New = \(c Context'Context, s string, min number, max number, time number) any {
  Pool'New(c, s, Options'Options{MinConnections: min, MaxConnections: max, ConnectTimeout: time})
}
values_ = \(xs [any]) [Value'Value] { [Value'Value if v = x() as Value'Value { v } else { none } for x in xs] }
Query = \(c Context'Context, p Pool'Pool, s string, xs [any]) any {
  if r = Pool'Query(c, p, s, values_(xs)) as error { r } else { rows(r) }
}
rows = \(rs [[Value'Value]]) [any] { [any row(r()) for r in rs] }
row = \(r [Value'Value]) any { [any v() for v in r] }
Execute = \(c Context'Context, p Pool'Pool, s string, xs [any]) any { Pool'Execute(c, p, s, values_(xs)) }
"#
);

const HTTP_DRIVER: &str = concat!(
    "import Http'Client\nimport Http'Context\nimport Http'Request\nimport Http'Response\nimport Http'Server\n\n",
    "import foreign \"c\" _test_item \\(any) none\n",
    "import foreign \"c\" _test_request \\(string, string, {string: string}, string) Response'Response\n",
    common!(),
    r#"
NewContext = \() Context'Context { Context'UnsafeNew() }
NoHeaders = \() {string: string} { {string: string} }
SetHeader = \(hs {string: string}, k string, v string) {string: string} { {string: string ...hs, k: v} }
MakeResponse = \(s number, hs {string: string}, b string) Response'Response {
  Response'Response{Status: s, Headers: hs, Body: b}
}
Send = \(c Context'Context, m string, u string, hs {string: string}, b string) any {
  Client'Send(c, Request'Request{Method: m, Uri: u, Headers: hs, Body: b})
}
ResponseStatus = \(r Response'Response) number { r.Status }
ResponseHeaders = \(r Response'Response) {string: string} { r.Headers }
ResponseBody = \(r Response'Response) string { r.Body }
Serve = \(c Context'Context, a string) any {
  Server'Serve(c, a, \(r Request'Request) Response'Response { _test_request(r.Method, r.Uri, r.Headers, r.Body) })
}
"#
);

const RANDOM_DRIVER: &str = concat!(
    "import Random'Context\nimport Random'Random\n\nimport foreign \"c\" _test_item \\(any) none\n",
    common!(),
    r#"
NewContext = \() Context'Context { Context'UnsafeNew() }
Number = \(c Context'Context) any { Random'Number(c) }
"#
);

const OS: Set = Set { packages: &[("Os", "os")], natives: os_natives };
const SYNC: Set = Set { packages: &[("Sync", "os-sync")], natives: os_natives };
const REGEX: Set = Set { packages: &[("Regex", "regex")], natives: regex_natives };
const SQL: Set = Set { packages: &[("Sql", "sql")], natives: sql_natives };
const RANDOM: Set = Set { packages: &[("Random", "random")], natives: random_natives };
const HTTP: Set = Set { packages: &[("Http", "http")], natives: http_natives };

// Cases

#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Files,
    Sockets,
    Process,
}

struct Run<'a> {
    machine: &'a Machine,
    context: Option<Value>,
}

fn stop(stop: Stop) -> Failure {
    crate::failure(&stop, "use of a package")
}

impl Run<'_> {
    fn text(&self, bytes: &[u8]) -> Value {
        self.machine.string(bytes.to_vec())
    }

    /// Calls a function of the driver and compares the foreign calls and the result; gives the result.
    fn check(
        &self,
        g: &mut Gen,
        function: &str,
        arguments: Vec<Value>,
        script: Vec<Answer>,
        calls: Vec<String>,
        result: &str,
    ) -> Result<Value, Failure> {
        g.describe(|| format!("{function}: {calls:?} gives {script:?}"));
        SCRIPT.with(|s| *s.borrow_mut() = script.into());
        CALLS.with(|calls| calls.borrow_mut().clear());
        let context = self.context.as_ref().map(|context| self.machine.clone_value(context)).transpose().map_err(stop)?;
        let value = call(self.machine, function, context.into_iter().chain(arguments).collect());
        let got = CALLS.with(|calls| calls.borrow().clone());
        ensure_eq!(got, calls, "calls", "foreign calls of {function}");
        let value = value.map_err(stop)?;
        let text = show(self.machine, &value).map_err(stop)?;
        ensure_eq!(text, result, "result", "result of {function}");
        // Parts of lists that are evaluated late call nothing.
        let got = CALLS.with(|calls| calls.borrow().clone());
        ensure_eq!(got, calls, "calls", "foreign calls of {function}");
        Ok(value)
    }

    fn drop(&self, value: Value) -> CaseResult {
        self.machine.drop_value(&value).map_err(stop)
    }

    /// The payload of a value of any type
    fn open(&self, value: Value) -> Value {
        match value {
            Value::Variant(_, payload) => (*payload).clone(),
            value => value,
        }
    }
}

fn text(g: &mut Gen) -> Vec<u8> {
    (0..g.len(4)).map(|_| *g.pick(b"ab/.:\xff")).collect()
}

fn size(g: &mut Gen) -> f64 {
    match g.weighted(&[6, 1, 1]) {
        0 => g.below(100) as f64,
        1 => -1.0,
        _ => *g.pick(&[f64::INFINITY, 0.5, 1e15]),
    }
}

fn or_error(g: &mut Gen, answer: Answer) -> Answer {
    if g.chance(1, 4) { Answer::Error(text(g)) } else { answer }
}

fn finish(g: &mut Gen, calls: usize, key: String) {
    if calls > 1 {
        g.nontrivial(&key);
    }
}

fn with_run(
    g: &mut Gen,
    set: &Set,
    driver: &'static str,
    context: bool,
    run: impl FnOnce(&mut Gen, &Run) -> CaseResult,
) -> CaseResult {
    let stage = *g.pick(&[LAST, LAST, 0]);
    packages::with(set, driver, stage, FUEL, |machine| {
        ITEMS.with(|items| items.borrow_mut().clear());
        let context = if context { Some(call(machine, "NewContext", vec![]).map_err(stop)?) } else { None };
        let state = Run { machine, context };
        run(g, &state)?;
        if let Some(context) = &state.context {
            machine.drop_value(context).map_err(stop)?;
        }
        Ok(())
    })
}

pub fn os_files(g: &mut Gen) -> CaseResult {
    os(g, false, Part::Files)
}

pub fn os_sockets(g: &mut Gen) -> CaseResult {
    os(g, false, Part::Sockets)
}

pub fn os_process(g: &mut Gen) -> CaseResult {
    os(g, false, Part::Process)
}

pub fn sync_files(g: &mut Gen) -> CaseResult {
    os(g, true, Part::Files)
}

pub fn sync_sockets(g: &mut Gen) -> CaseResult {
    os(g, true, Part::Sockets)
}

pub fn sync_process(g: &mut Gen) -> CaseResult {
    os(g, true, Part::Process)
}

fn os(g: &mut Gen, sync: bool, part: Part) -> CaseResult {
    let (set, driver) = if sync { (&SYNC, SYNC_DRIVER) } else { (&OS, OS_DRIVER) };
    with_run(g, set, driver, true, |g, run| {
        // Files, listeners, streams and sockets with the texts that foreign functions get
        let mut handles: Vec<(&'static str, Value, String)> = vec![];
        if part != Part::Sockets {
            for name in ["StdIn", "StdOut", "StdErr"] {
                handles.push(("File", call(run.machine, name, vec![]).map_err(stop)?, name.into()));
            }
        }
        let mut marks = 0.0;
        let mut names = vec![];
        for _ in 0..1 + g.len(8) {
            marks += 1.0;
            let name = os_step(g, run, sync, part, marks, &mut handles)?;
            names.push(name);
        }
        for (_, value, _) in handles {
            run.drop(value)?;
        }
        finish(g, names.len(), names.join(" "));
        Ok(())
    })
}

fn os_step(
    g: &mut Gen,
    run: &Run,
    sync: bool,
    part: Part,
    mark: f64,
    handles: &mut Vec<(&'static str, Value, String)>,
) -> Result<String, Failure> {
    let (a, b) = (text(g), text(g));
    let n = size(g);
    let functions: &[&str] = match part {
        Part::Files => &[
            "Open", "OpenWith", "OpenDefault", "Read", "ReadLimit", "Write", "Copy", "Move", "Remove", "Metadata",
            "ReadDirectory", "CreateDirectory", "RemoveDirectory",
        ],
        Part::Sockets => &[
            "TcpBind", "TcpConnect", "TcpAccept", "TcpReceive", "TcpSend", "UdpBind", "UdpConnect", "UdpReceive",
            "UdpReceiveFrom", "UdpSend", "UdpSendTo",
        ],
        Part::Process => {
            &["Read", "ReadLimit", "Write", "Arguments", "Variable", "Exit", "Now", "Sleep", "Run"][..if sync { 8 } else { 9 }]
        }
    };
    let function = *g.pick(functions);
    // The handle that the function needs
    let kind = match function {
        "Read" | "ReadLimit" | "Write" => "File",
        "TcpAccept" => "Listener",
        "TcpReceive" | "TcpSend" => "Stream",
        "UdpConnect" | "UdpReceive" | "UdpReceiveFrom" | "UdpSend" | "UdpSendTo" => "Socket",
        _ => "",
    };
    let found = handles.iter().enumerate().filter(|(_, handle)| handle.0 == kind).map(|(index, _)| index).collect::<Vec<_>>();
    let (function, handle) = if kind.is_empty() {
        (function, None)
    } else if found.is_empty() {
        (match kind { "Listener" => "TcpBind", "Stream" => "TcpConnect", _ => "UdpBind" }, None)
    } else {
        (function, Some(*g.pick(&found)))
    };
    let (receiver, receiver_text) = match handle {
        Some(index) => {
            let (_, value, text) = &handles[index];
            (Some(run.machine.clone_value(value).map_err(stop)?), text.clone())
        }
        None => (None, String::new()),
    };
    let foreign = |name: &str, arguments: &[&str]| vec![format!("_pen_os_{name}({})", arguments.join(", "))];
    let (qa, qb, qn) = (quoted(&a), quoted(&b), numeral(n));
    let (va, vb) = (|| run.text(&a), || run.text(&b));
    let receiver = || receiver.clone().unwrap();
    let r = receiver_text.as_str();
    let bools = |values: &[bool]| values.iter().map(bool::to_string).collect::<Vec<_>>().join(", ");

    // Arguments, answers, foreign calls, and the result if it is not the answer
    let mut unchanged = None;
    let (arguments, answers, calls) = match function {
        "Open" => (
            vec![va()],
            vec![or_error(g, Answer::Handle("NormalFile", mark))],
            foreign("open_file", &[&qa, &format!("record({})", bools(&[false, false, false, true, false, false]))]),
        ),
        "OpenWith" => {
            let options = [0; 6].map(|_| g.bool());
            let mut arguments = vec![va()];
            arguments.extend(options.map(Value::Boolean));
            (
                arguments,
                vec![or_error(g, Answer::Handle("NormalFile", mark))],
                foreign("open_file", &[&qa, &format!("record({})", bools(&options))]),
            )
        }
        "OpenDefault" => {
            let write = g.bool();
            (
                vec![va(), Value::Boolean(write)],
                vec![or_error(g, Answer::Handle("NormalFile", mark))],
                foreign("open_file", &[&qa, &format!("record({})", bools(&[false, false, false, false, false, write]))]),
            )
        }
        "Read" | "ReadLimit" | "Write" => {
            let mut arguments = vec![receiver()];
            let mut texts = vec![];
            let name = match function {
                "Read" => "read",
                "ReadLimit" => {
                    arguments.push(Value::Number(n));
                    texts.push(qn.as_str());
                    "read_limit"
                }
                _ => {
                    arguments.push(va());
                    texts.push(qa.as_str());
                    "write"
                }
            };
            let target = match r {
                "StdIn" => "stdin",
                "StdOut" => "stdout",
                "StdErr" => "stderr",
                _ => "file",
            };
            if target == "file" {
                texts.insert(0, r);
            }
            let possible = match target {
                "stdin" => function != "Write",
                "stdout" | "stderr" => function == "Write",
                _ => true,
            };
            if possible {
                let answer = if function == "Write" { Answer::Number(size(g)) } else { Answer::Text(b.clone()) };
                (arguments, vec![or_error(g, answer)], foreign(&format!("{name}_{target}"), &texts))
            } else {
                let word = if function == "Write" { "write to" } else { "read from" };
                unchanged = Some(format!("error({})", quoted(format!("cannot {word} {target}").as_bytes())));
                (arguments, vec![], vec![])
            }
        }
        "Copy" => (vec![va(), vb()], vec![or_error(g, Answer::None)], foreign("copy_file", &[&qa, &qb])),
        "Move" => (vec![va(), vb()], vec![or_error(g, Answer::None)], foreign("move_file", &[&qa, &qb])),
        "Remove" => (vec![va()], vec![or_error(g, Answer::None)], foreign("remove_file", &[&qa])),
        "Metadata" => {
            let answer = or_error(g, Answer::Metadata(n));
            if !answer.is_error() {
                unchanged = Some(qn.clone());
            }
            (vec![va()], vec![answer], foreign("read_metadata", &[&qa]))
        }
        "ReadDirectory" => {
            let answer = Answer::List((0..g.len(4)).map(|_| Answer::Text(text(g))).collect());
            (vec![va()], vec![or_error(g, answer)], foreign("read_directory", &[&qa]))
        }
        "CreateDirectory" => (vec![va()], vec![or_error(g, Answer::None)], foreign("create_directory", &[&qa])),
        "RemoveDirectory" => (vec![va()], vec![or_error(g, Answer::None)], foreign("remove_directory", &[&qa])),
        "Arguments" => {
            (vec![], vec![Answer::List((0..g.len(4)).map(|_| Answer::Text(text(g))).collect())], foreign("get_arguments", &[]))
        }
        "Variable" => (vec![va()], vec![or_error(g, Answer::Text(b.clone()))], foreign("get_environment_variable", &[&qa])),
        "Exit" => (vec![Value::Number(n)], vec![Answer::None], foreign("exit", &[&qn])),
        "Now" => (vec![], vec![Answer::Number(n)], foreign("get_time", &[])),
        "Sleep" => (vec![Value::Number(n)], vec![Answer::None], foreign("sleep", &[&qn])),
        "Run" => {
            let words = (0..g.len(4)).map(|_| Answer::Text(text(g))).collect::<Vec<_>>();
            let list = list(run.machine, &words).map_err(stop)?;
            (
                vec![va(), list],
                vec![or_error(g, Answer::None)],
                foreign("run_command", &[&qa, &list_text(words.iter().map(Answer::show))]),
            )
        }
        "TcpBind" => (vec![va()], vec![or_error(g, Answer::Handle("Listener", mark))], foreign("tcp_bind", &[&qa])),
        "TcpConnect" => (vec![va()], vec![or_error(g, Answer::Handle("Stream", mark))], foreign("tcp_connect", &[&qa])),
        "TcpAccept" => {
            (vec![receiver()], vec![or_error(g, Answer::Accepted(mark, a.clone()))], foreign("tcp_accept", &[r]))
        }
        "TcpReceive" => (
            vec![receiver(), Value::Number(n)],
            vec![or_error(g, Answer::Text(b.clone()))],
            foreign("tcp_receive", &[r, &qn]),
        ),
        "TcpSend" => (vec![receiver(), va()], vec![or_error(g, Answer::Number(n))], foreign("tcp_send", &[r, &qa])),
        "UdpBind" => (vec![va()], vec![or_error(g, Answer::Handle("Socket", mark))], foreign("udp_bind", &[&qa])),
        "UdpConnect" => (vec![receiver(), va()], vec![or_error(g, Answer::None)], foreign("udp_connect", &[r, &qa])),
        "UdpReceive" => (vec![receiver()], vec![or_error(g, Answer::Text(b.clone()))], foreign("udp_receive", &[r])),
        "UdpReceiveFrom" => (
            vec![receiver()],
            vec![or_error(g, Answer::Datagram(a.clone(), b.clone()))],
            foreign("udp_receive_from", &[r]),
        ),
        "UdpSend" => (vec![receiver(), va()], vec![or_error(g, Answer::Number(n))], foreign("udp_send", &[r, &qa])),
        _ => (vec![receiver(), va(), vb()], vec![or_error(g, Answer::Number(n))], foreign("udp_send_to", &[r, &qa, &qb])),
    };
    let answer = answers.first().cloned();
    let result = unchanged.unwrap_or_else(|| match &answer {
        Some(answer @ Answer::Handle("NormalFile", _)) => format!("record({})", answer.show()),
        answer => answer.as_ref().unwrap().show(),
    });
    let value = run.check(g, function, arguments, answers, calls, &result)?;
    match answer {
        Some(Answer::Handle(name, mark)) => {
            let text = format!("record({})", numeral(mark));
            handles.push((if name == "NormalFile" { "File" } else { name }, run.open(value), text));
        }
        Some(Answer::Accepted(mark, address)) => {
            let value = run.open(value);
            let copy = run.machine.clone_value(&value).map_err(stop)?;
            let got = call(run.machine, "AcceptedAddress", vec![copy]).map_err(stop)?;
            ensure_eq!(show(run.machine, &got).map_err(stop)?, quoted(&address), "address", "address of an accepted stream");
            run.drop(got)?;
            let stream = call(run.machine, "AcceptedStream", vec![value]).map_err(stop)?;
            handles.push(("Stream", stream, format!("record({})", numeral(mark))));
        }
        Some(Answer::Datagram(data, address)) => {
            let value = run.open(value);
            let copy = run.machine.clone_value(&value).map_err(stop)?;
            let got = call(run.machine, "DatagramData", vec![copy]).map_err(stop)?;
            ensure_eq!(show(run.machine, &got).map_err(stop)?, quoted(&data), "data", "data of a datagram");
            run.drop(got)?;
            let got = call(run.machine, "DatagramAddress", vec![value]).map_err(stop)?;
            ensure_eq!(show(run.machine, &got).map_err(stop)?, quoted(&address), "address", "address of a datagram");
            run.drop(got)?;
        }
        _ => run.drop(value)?,
    }
    Ok(function.into())
}

pub fn regex(g: &mut Gen) -> CaseResult {
    with_run(g, &REGEX, REGEX_DRIVER, false, |g, run| {
        let mut expressions: Vec<(Value, String)> = vec![];
        let count = 1 + g.len(6);
        for step in 0..count {
            let s = text(g);
            if expressions.is_empty() || g.chance(1, 4) {
                let answer = or_error(g, Answer::Handle("Expression", step as f64));
                let calls = vec![format!("_pen_regex_expression_new({})", quoted(&s))];
                let value = run.check(g, "New", vec![run.text(&s)], vec![answer.clone()], calls, &answer.show())?;
                if answer.is_error() {
                    run.drop(value)?;
                } else {
                    expressions.push((run.open(value), answer.show()));
                }
                continue;
            }
            let (expression, name) = &expressions[g.usize(expressions.len())];
            let expression = run.machine.clone_value(expression).map_err(stop)?;
            let arguments = vec![expression, run.text(&s)];
            let value = if g.bool() {
                let answer = Answer::Boolean(g.bool());
                let calls = vec![format!("_pen_regex_expression_matches({name}, {})", quoted(&s))];
                run.check(g, "Matches", arguments, vec![answer.clone()], calls, &answer.show())?
            } else {
                let groups = (0..g.len(4))
                    .map(|_| if g.chance(1, 3) { Answer::None } else { Answer::Text(text(g)) })
                    .collect::<Vec<_>>();
                let calls = vec![format!("_pen_regex_expression_match({name}, {})", quoted(&s))];
                let result = if groups.is_empty() { "none".into() } else { Answer::List(groups.clone()).show() };
                run.check(g, "Match", arguments, vec![Answer::List(groups)], calls, &result)?
            };
            run.drop(value)?;
        }
        for (value, _) in expressions {
            run.drop(value)?;
        }
        let key = format!("{:?}", g.recorded());
        finish(g, count, key);
        Ok(())
    })
}

pub fn random(g: &mut Gen) -> CaseResult {
    with_run(g, &RANDOM, RANDOM_DRIVER, true, |g, run| {
        let count = 1 + g.len(6);
        for _ in 0..count {
            let answer = Answer::Number(g.below(1 << 32) as f64 / 2f64.powi(32));
            let calls = vec!["_pen_random_number()".into()];
            let value = run.check(g, "Number", vec![], vec![answer.clone()], calls, &answer.show())?;
            run.drop(value)?;
        }
        let key = format!("{:?}", g.recorded());
        finish(g, count, key);
        Ok(())
    })
}

fn value(g: &mut Gen) -> Answer {
    match g.usize(4) {
        0 => Answer::None,
        1 => Answer::Boolean(g.bool()),
        2 => Answer::Number(size(g)),
        _ => Answer::Text(text(g)),
    }
}

pub fn sql(g: &mut Gen) -> CaseResult {
    with_run(g, &SQL, SQL_DRIVER, true, |g, run| {
        let mut pools: Vec<(Value, String)> = vec![];
        let count = 1 + g.len(6);
        for step in 0..count {
            let s = text(g);
            if pools.is_empty() || g.chance(1, 5) {
                let answer = or_error(g, Answer::Handle("Pool", step as f64));
                let options = [0; 3].map(|_| size(g));
                let calls = vec![format!("_pen_sql_pool_create({}, record({}))", quoted(&s), options.map(numeral).join(", "))];
                let mut arguments = vec![run.text(&s)];
                arguments.extend(options.map(Value::Number));
                let value = run.check(g, "New", arguments, vec![answer.clone()], calls, &answer.show())?;
                if answer.is_error() {
                    run.drop(value)?;
                } else {
                    pools.push((run.open(value), answer.show()));
                }
                continue;
            }
            let values = (0..g.len(4)).map(|_| value(g)).collect::<Vec<_>>();
            let (pool, name) = &pools[g.usize(pools.len())];
            let pool = run.machine.clone_value(pool).map_err(stop)?;
            let arguments = vec![pool, run.text(&s), list(run.machine, &values).map_err(stop)?];
            let given = format!("{name}, {}, {}", quoted(&s), list_text(values.iter().map(Answer::show)));
            let value = if g.bool() {
                let size = size(g);
                let answer = or_error(g, Answer::Number(size));
                let calls = vec![format!("_pen_sql_pool_execute({given})")];
                run.check(g, "Execute", arguments, vec![answer.clone()], calls, &answer.show())?
            } else {
                let width = g.len(3);
                let rows = (0..g.len(3)).map(|_| Answer::List((0..width).map(|_| value(g)).collect())).collect();
                let answer = or_error(g, Answer::List(rows));
                let calls = vec![format!("_pen_sql_pool_query({given})")];
                run.check(g, "Query", arguments, vec![answer.clone()], calls, &answer.show())?
            };
            run.drop(value)?;
        }
        for (value, _) in pools {
            run.drop(value)?;
        }
        let key = format!("{:?}", g.recorded());
        finish(g, count, key);
        Ok(())
    })
}

fn headers(g: &mut Gen) -> Headers {
    (0..g.len(4)).map(|_| (vec![*g.pick(b"abc")], text(g))).collect()
}

pub fn http(g: &mut Gen) -> CaseResult {
    with_run(g, &HTTP, HTTP_DRIVER, true, |g, run| {
        let count = 1 + g.len(4);
        for _ in 0..count {
            if g.bool() {
                let (method, uri, body, headers_) = (text(g), text(g), text(g), headers(g));
                let mut map = call(run.machine, "NoHeaders", vec![]).map_err(stop)?;
                for (key, value) in &headers_ {
                    map = call(run.machine, "SetHeader", vec![map, run.text(key), run.text(value)]).map_err(stop)?;
                }
                let answer = Answer::Response(size(g), headers(g), text(g));
                let answer = or_error(g, answer);
                let calls = vec![format!(
                    "_pen_http_client_send({}, {}, {}, {})",
                    quoted(&method),
                    quoted(&uri),
                    headers_text(&headers_),
                    quoted(&body)
                )];
                let arguments = vec![run.text(&method), run.text(&uri), map, run.text(&body)];
                let value = run.check(g, "Send", arguments, vec![answer.clone()], calls, &answer.show())?;
                if let Answer::Response(status, headers, body) = answer {
                    let value = run.open(value);
                    for (name, wanted) in [
                        ("ResponseStatus", numeral(status)),
                        ("ResponseHeaders", headers_text(&headers)),
                        ("ResponseBody", quoted(&body)),
                    ] {
                        let copy = run.machine.clone_value(&value).map_err(stop)?;
                        let got = call(run.machine, name, vec![copy]).map_err(stop)?;
                        ensure_eq!(show(run.machine, &got).map_err(stop)?, wanted, "response", "{name}");
                        run.drop(got)?;
                    }
                    run.drop(value)?;
                } else {
                    run.drop(value)?;
                }
                continue;
            }
            let address = text(g);
            let answer = or_error(g, Answer::None);
            let mut calls = vec![format!("_pen_http_server_serve({})", quoted(&address))];
            REQUESTS.with(|requests| requests.borrow_mut().clear());
            RESPONSES.with(|responses| responses.borrow_mut().clear());
            for _ in 0..g.len(3) {
                let request = Request { method: text(g), uri: text(g), headers: headers(g), body: text(g) };
                calls.push(format!(
                    "Request({}, {}, {}, {})",
                    quoted(&request.method),
                    quoted(&request.uri),
                    headers_text(&request.headers),
                    quoted(&request.body)
                ));
                let response = Answer::Response(size(g), headers(g), text(g));
                calls.push(response.show());
                REQUESTS.with(|requests| requests.borrow_mut().push_back(request));
                RESPONSES.with(|responses| responses.borrow_mut().push_back(response));
            }
            let value = run.check(g, "Serve", vec![run.text(&address)], vec![answer.clone()], calls, &answer.show())?;
            run.drop(value)?;
        }
        let key = format!("{:?}", g.recorded());
        finish(g, count, key);
        Ok(())
    })
}

/// Spawned functions and lists that race, without threads
pub fn sync_concurrency(g: &mut Gen) -> CaseResult {
    with_run(g, &SYNC, SYNC_DRIVER, false, |g, run| {
        let lists = (0..g.len(4)).map(|_| (0..g.len(4)).map(|_| Answer::Number(g.below(100) as f64)).collect::<Vec<_>>()).collect::<Vec<_>>();
        let mut sources = call(run.machine, "Empty", vec![]).map_err(stop)?;
        for numbers in &lists {
            let source = list(run.machine, numbers).map_err(stop)?;
            let source = call(run.machine, "OfList", vec![source]).map_err(stop)?;
            sources = call(run.machine, "Push", vec![sources, source]).map_err(stop)?;
        }
        let merged = run.machine.call_foreign("_pen_race", vec![sources]).map_err(stop)?;
        let items = elements(run.machine, &merged).map_err(stop)?;
        let numbers = items
            .iter()
            .map(|item| number(run.open(item.clone())))
            .collect::<Res<Vec<_>>>()
            .map_err(stop)?;
        run.drop(merged)?;
        let texts = list_text(numbers.iter().map(|number| numeral(*number)));
        ensure!(
            interleaved(&lists.iter().map(|list| list.iter().map(Answer::show).collect()).collect::<Vec<_>>(), &numbers.iter().map(|n| numeral(*n)).collect::<Vec<_>>()),
            "race", "{lists:?} become {texts}"
        );
        g.describe(|| format!("{lists:?}"));
        finish(g, lists.len(), format!("{lists:?}"));
        Ok(())
    })
}

/// Whether a list has the elements of others in their orders
fn interleaved(sources: &[Vec<String>], merged: &[String]) -> bool {
    let mut states = std::collections::BTreeSet::from([vec![0; sources.len()]]);
    for element in merged {
        let mut next = std::collections::BTreeSet::new();
        for state in &states {
            for (index, source) in sources.iter().enumerate() {
                if source.get(state[index]) == Some(element) {
                    let mut state = state.clone();
                    state[index] += 1;
                    next.insert(state);
                }
            }
        }
        states = next;
    }
    states.contains(&sources.iter().map(Vec::len).collect::<Vec<_>>())
}
