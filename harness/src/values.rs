//! The JSON-RPC types as values: every message built from an alphabet is serialized, compared with
//! the object it must be, and parsed back from every form that object can be written in (C05).

use std::collections::HashSet;
use std::str::FromStr;

use serde::de::{DeserializeOwned, MapAccess, Visitor};
use serde::Serialize;
use serde_json::{json, Map, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::lsp_types::NumberOrString;

use crate::check;
use crate::engine::{pick, step, Group};

const T: &[&str] = &["C05"];

/// Strings with everything a JSON string can contain.
const STRINGS: [&str; 12] = [
    "", "a", "1", "null", "2.0", "\"", "\\", "\n\t\r\u{8}\u{c}", "\u{0}\u{1f}\u{7f}", "é\u{20ac}\u{2028}",
    "\u{1F600}\u{10FFFF}", "jsonrpc",
];

pub fn ids() -> Vec<Id> {
    let mut v: Vec<Id> = [0, 1, -1, 7, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 53, (1 << 53) + 1, i64::MAX, i64::MIN]
        .into_iter()
        .map(Id::Number)
        .collect();
    v.extend(STRINGS.iter().map(|s| Id::String(s.to_string())));
    v.push(Id::Null);
    v
}

fn id_value(id: &Id) -> Value {
    match id {
        Id::Number(n) => Value::from(*n),
        Id::String(s) => Value::from(s.clone()),
        Id::Null => Value::Null,
    }
}

fn scalars() -> Vec<Value> {
    let mut v = vec![
        Value::Null,
        json!(true),
        json!(false),
        json!(0),
        json!(1),
        json!(-1),
        json!(i64::MIN),
        json!(i64::MAX),
        json!(u64::MAX),
        json!(1u64 << 53),
        json!(0.5),
        json!(-2.25),
        json!(1e21),
        json!(-0.0),
    ];
    v.extend(STRINGS.iter().map(|s| json!(s)));
    v
}

/// Values: scalars, and arrays and objects of them, also with the names of JSON-RPC members.
fn values(d: u32) -> Vec<Value> {
    let sc = scalars();
    let mut v = sc.clone();
    v.push(json!([]));
    v.push(json!({}));
    for s in &sc {
        v.push(json!([s]));
        v.push(json!({ "k": s }));
        v.push(json!([[s], { "": s }]));
    }
    let members = ["jsonrpc", "id", "method", "params", "result", "error", "code", "message", "data"];
    for m in members {
        for s in [json!(null), json!("2.0"), json!(1), json!({}), json!({"code": 1, "message": "m"})] {
            v.push(json!({ m: s }));
        }
    }
    v.push(json!({"jsonrpc": "2.0", "id": 1, "result": null}));
    v.push(json!({"jsonrpc": "2.0", "id": null, "error": {"code": -32700, "message": ""}}));
    v.push(json!({"jsonrpc": "2.0", "method": "m", "id": "x"}));
    let mut deep = json!(null);
    for i in 0..60 {
        deep = if i % 2 == 0 { json!([deep]) } else { json!({ "d": deep }) };
    }
    v.push(deep);
    v.push(Value::Array((0..300).map(Value::from).collect()));
    v.push(Value::Object((0..200).map(|i| (format!("k{i}"), Value::Null)).collect()));
    v.push(json!("é\u{1F600}\\\"".repeat(500)));
    if d > 0 {
        for a in &sc {
            for b in &sc {
                v.push(json!([a, b]));
                v.push(json!({"a": a, "b": b}));
            }
        }
    }
    if d > 1 {
        for x in v.clone() {
            v.push(json!([x]));
            v.push(json!({ "result": x }));
            v.push(json!([1, { "id": x }]));
        }
    }
    v
}

/// An object that remembers its members in order, repeated ones included.
struct Members(Vec<(String, Value)>);

impl<'de> serde::Deserialize<'de> for Members {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Members;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("an object")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Members, A::Error> {
                let mut v = vec![];
                while let Some(e) = m.next_entry()? {
                    v.push(e);
                }
                Ok(Members(v))
            }
        }
        d.deserialize_map(V)
    }
}

fn members(text: &str) -> Result<Map<String, Value>, String> {
    let m: Members = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let n = m.0.len();
    let map: Map<String, Value> = m.0.into_iter().collect();
    if map.len() != n {
        return Err("a member occurs twice".into());
    }
    Ok(map)
}

fn quote(s: &str, escape: bool) -> String {
    if !escape {
        return json!(s).to_string();
    }
    let mut out = String::from("\"");
    for u in s.encode_utf16() {
        out.push_str(&format!("\\u{u:04x}"));
    }
    out.push('"');
    out
}

/// JSON text of a value, with each character escaped if asked and with whitespace if asked.
fn write(v: &Value, escape: bool, space: &str, out: &mut String) {
    match v {
        Value::String(s) => out.push_str(&quote(s, escape)),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(space);
                write(x, escape, space, out);
                out.push_str(space);
            }
            out.push(']');
        }
        Value::Object(m) => {
            let v: Vec<(&str, &Value)> = m.iter().map(|(k, v)| (k.as_str(), v)).collect();
            object(&v, escape, space, out);
        }
        other => out.push_str(&other.to_string()),
    }
}

fn object(m: &[(&str, &Value)], escape: bool, space: &str, out: &mut String) {
    out.push('{');
    for (i, (k, x)) in m.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(space);
        out.push_str(&quote(k, escape));
        out.push_str(space);
        out.push(':');
        out.push_str(space);
        write(x, escape, space, out);
        out.push_str(space);
    }
    out.push('}');
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for i in 0..n {
        let mut next = vec![];
        for p in out {
            for at in 0..=p.len() {
                let mut q: Vec<usize> = p.clone();
                q.insert(at, i);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// Serializes and parses `x`, which must be the JSON `want` with the members in any order.
fn round<M>(what: &str, x: &M, want: &Value, orders: bool)
where
    M: Serialize + DeserializeOwned + PartialEq + Clone + std::fmt::Debug,
{
    let text = match serde_json::to_string(x) {
        Ok(t) => t,
        Err(e) => return check!(false, T, "unserializable", "{what}: {e}"),
    };
    step(&format!("{what} {text}"));
    match want {
        Value::Object(m) => match members(&text) {
            Ok(got) => check!(got == *m, T, "serialized", "{what}: serialized as {text}, not {want}"),
            Err(e) => check!(false, T, "serialized", "{what}: serialized as {text}: {e}"),
        },
        _ => {
            let got = serde_json::from_str::<Value>(&text).ok();
            check!(got.as_ref() == Some(want), T, "serialized", "{what}: serialized as {text}, not {want}")
        }
    }
    let value = serde_json::to_value(x);
    check!(value.as_ref().ok() == Some(want), T, "serialized", "{what}: as a value {value:?}, not {want}");
    let bytes = serde_json::to_vec(x).unwrap_or_default();
    check!(bytes == text.as_bytes(), T, "serialized", "{what}: to_vec and to_string differ");

    let same = |form: &str, back: serde_json::Result<M>| match back {
        Ok(b) => check!(b == *x && *x == b, T, "parsed", "{what}: parsed from {form} gives {b:?}"),
        Err(e) => check!(false, T, "parsed", "{what}: not parsed from {form}: {e}"),
    };
    same("its text", serde_json::from_str(&text));
    same("its bytes", serde_json::from_slice(text.as_bytes()));
    same("a reader", serde_json::from_reader(text.as_bytes()));
    same("a value", serde_json::from_value(want.clone()));
    let Value::Object(m) = want else {
        for escape in [false, true] {
            let mut t = String::new();
            write(want, escape, " ", &mut t);
            same("an equivalent text", serde_json::from_str(&t));
        }
        return;
    };
    let list: Vec<(&str, &Value)> = m.iter().map(|(k, v)| (k.as_str(), v)).collect();
    let perms = if orders { permutations(list.len()) } else { vec![(0..list.len()).rev().collect()] };
    for p in perms {
        let l: Vec<_> = p.iter().map(|i| list[*i]).collect();
        for (escape, space) in [(false, ""), (true, ""), (false, " \n\t\r")] {
            let mut t = String::new();
            object(&l, escape, space, &mut t);
            same(&t, serde_json::from_str(&t));
            same(&format!("the bytes {t}"), serde_json::from_slice(t.as_bytes()));
            same(&format!("a reader of {t}"), serde_json::from_reader(t.as_bytes()));
        }
    }
}

fn request(method: &str, id: Option<Id>, params: Option<Value>, orders: bool) -> Request {
    let build = |order: usize| {
        let mut b = Request::build(method.to_string());
        let (i, p) = (id.clone(), params.clone());
        if order == 2 {
            // The last value given counts.
            if i.is_some() {
                b = b.id(99);
            }
            if p.is_some() {
                b = b.params(json!("other"));
            }
        }
        let set_id = |b: tower_lsp::jsonrpc::RequestBuilder| match i {
            Some(i) => b.id(i),
            None => b,
        };
        let set_params = |b: tower_lsp::jsonrpc::RequestBuilder| match p {
            Some(p) => b.params(p),
            None => b,
        };
        if order == 0 { set_params(set_id(b)) } else { set_id(set_params(b)) }.finish()
    };
    let r = build(0);
    for o in [1, 2] {
        check!(build(o) == r, T, "builder", "building {method} in order {o} gives {:?}", build(o));
    }
    check!(
        r.method() == method && r.id() == id.as_ref() && r.params() == params.as_ref(),
        T, "accessors", "{method} {id:?} {params:?}: accessors of {r:?}"
    );
    let (m, i, p) = r.clone().into_parts();
    check!(
        m == method && i == id && p == params,
        T, "into_parts", "{method} {id:?} {params:?}: split into {m:?} {i:?} {p:?}"
    );
    let mut want = json!({"jsonrpc": "2.0", "method": method});
    if let Some(i) = &id {
        want["id"] = id_value(i);
    }
    if let Some(p) = &params {
        want["params"] = p.clone();
    }
    round("request", &r, &want, orders);
    let text = serde_json::to_string(&r).unwrap_or_default();
    let shown = r.to_string();
    check!(
        shown == text || members(&shown).ok().as_ref() == want.as_object(),
        T, "display", "displayed as {shown}, not {text}"
    );
    let back = Request::from_str(&shown);
    check!(back.as_ref().ok() == Some(&r), T, "display", "{shown} parsed as {back:?}");
    r
}

fn response(id: Id, body: Result<Value, Error>, orders: bool) -> Response {
    let r = Response::from_parts(id.clone(), body.clone());
    let other = match body.clone() {
        Ok(v) => Response::from_ok(id.clone(), v),
        Err(e) => Response::from_error(id.clone(), e),
    };
    check!(r == other, T, "constructors", "{other:?} is not {r:?}");
    check!(
        r.is_ok() == body.is_ok()
            && r.is_error() == body.is_err()
            && r.result() == body.as_ref().ok()
            && r.error() == body.as_ref().err()
            && *r.id() == id,
        T, "accessors", "{id:?} {body:?}: accessors of {r:?}"
    );
    let (i, b) = r.clone().into_parts();
    check!(i == id && b == body, T, "into_parts", "{id:?} {body:?}: split into {i:?} {b:?}");
    let mut want = json!({"jsonrpc": "2.0", "id": id_value(&id)});
    match &body {
        Ok(v) => want["result"] = v.clone(),
        Err(e) => want["error"] = error_value(e),
    }
    round("response", &r, &want, orders);
    let text = serde_json::to_string(&r).unwrap_or_default();
    let back = Response::from_str(&text);
    check!(back.as_ref().ok() == Some(&r), T, "parsed", "{text} parsed as {back:?}");
    let _ = format!("{r:?}");
    r
}

fn error_value(e: &Error) -> Value {
    let mut v = json!({"code": code_int(&e.code), "message": e.message});
    if let Some(d) = &e.data {
        v["data"] = d.clone();
    }
    v
}

/// The integer of a code, from the JSON-RPC and LSP specifications.
fn code_int(c: &ErrorCode) -> i64 {
    match c {
        ErrorCode::ParseError => -32700,
        ErrorCode::InvalidRequest => -32600,
        ErrorCode::MethodNotFound => -32601,
        ErrorCode::InvalidParams => -32602,
        ErrorCode::InternalError => -32603,
        ErrorCode::RequestCancelled => -32800,
        ErrorCode::ContentModified => -32801,
        ErrorCode::ServerError(n) => *n,
    }
}

const NAMED: [ErrorCode; 7] = [
    ErrorCode::ParseError,
    ErrorCode::InvalidRequest,
    ErrorCode::MethodNotFound,
    ErrorCode::InvalidParams,
    ErrorCode::InternalError,
    ErrorCode::RequestCancelled,
    ErrorCode::ContentModified,
];

fn code(n: i64) {
    let c = ErrorCode::from(n);
    let named = NAMED.iter().find(|c| code_int(c) == n).copied();
    check!(c == named.unwrap_or(ErrorCode::ServerError(n)), T, "code", "{n} became {c:?}");
    check!(c.code() == n && i64::from(c) == n, T, "code", "{n} became {c:?} = {}", c.code());
    check!(ErrorCode::from(i64::from(c)) == c, T, "code", "{c:?} does not survive");
}

fn code_full(n: i64) {
    code(n);
    let c = ErrorCode::from(n);
    round("code", &c, &json!(n), false);
    check!(c.to_string() == n.to_string(), T, "code", "{c:?} is displayed as {c}");
}

fn codes() -> Vec<i64> {
    let mut v = vec![0, 1, -1, 4000, -32002, -32000, -32099, -32802, -32803, i64::MIN, i64::MAX];
    v.extend(NAMED.iter().map(code_int));
    v.extend([-32701, -32699, -32604, -32599, -32799]);
    v
}

fn errors(d: u32) -> Vec<Error> {
    let mut v = vec![];
    for n in codes() {
        v.push(Error { code: ErrorCode::from(n), message: "m".into(), data: None });
        v.push(Error { code: ErrorCode::from(n), message: "".into(), data: Some(json!([n])) });
    }
    for s in STRINGS {
        v.push(Error { code: ErrorCode::InternalError, message: s.into(), data: None });
    }
    for x in values(d) {
        v.push(Error { code: ErrorCode::ServerError(-1), message: "d".into(), data: Some(x) });
    }
    v
}

fn constructors() {
    for c in NAMED.iter().copied().chain([ErrorCode::ServerError(5)]) {
        let e = Error::new(c);
        check!(e.code == c && e.data.is_none(), T, "constructor", "new({c:?}) is {e:?}");
        step(&format!("{c:?} {} {e}", c.description()));
    }
    let made = [
        (Error::parse_error(), -32700),
        (Error::invalid_request(), -32600),
        (Error::method_not_found(), -32601),
        (Error::invalid_params("p"), -32602),
        (Error::internal_error(), -32603),
        (Error::request_cancelled(), -32800),
        (Error::content_modified(), -32801),
    ];
    for (e, n) in made {
        check!(e.code.code() == n && e.data.is_none(), T, "constructor", "{e:?} is not {n}");
        round("error", &e, &error_value(&e), true);
    }
    for s in STRINGS {
        let e = Error::invalid_params(s);
        check!(e.message == s, T, "constructor", "invalid_params({s:?}) is {e:?}");
    }
    check!(Id::default() == Id::Null, T, "id", "the default id is {:?}", Id::default());
}

fn id_conversions(id: &Id) {
    let from = match id {
        Id::Number(n) => vec![Id::from(*n)],
        Id::String(s) => vec![Id::from(s.as_str()), Id::from(s.clone()), Id::from(NumberOrString::String(s.clone()))],
        Id::Null => vec![],
    };
    for f in from {
        check!(f == *id, T, "id", "{id:?} converted is {f:?}");
    }
    if let Id::Number(n) = id {
        if let Ok(n) = i32::try_from(*n) {
            check!(Id::from(NumberOrString::Number(n)) == *id, T, "id", "{n} converted");
        }
        check!(id.to_string() == n.to_string(), T, "id", "{id:?} is displayed as {id}");
    }
    if *id == Id::Null {
        check!(id.to_string() == "null", T, "id", "{id:?} is displayed as {id}");
    }
    round("id", id, &id_value(id), false);
}

fn group(name: &str, n: usize, text: &str, run: impl Fn(usize) + Send + Sync + 'static) -> Group {
    let text = text.to_string();
    Group {
        also: &[],
        name: name.into(),
        scenarios: n,
        bound: None,
        isolate: false,
        data: None,
        describe: Box::new(move |i| format!("{text} [{i}]")),
        run: Box::new(run),
    }
}

/// C05.
pub fn round_trips(d: u32) -> Vec<Group> {
    let d1 = d.min(2);
    let vals = values(d1);
    let n = vals.len();
    let mut v = vec![];

    let (vs, idl) = (vals.clone(), ids());
    v.push(group(
        &format!("requests depth {d1}"), n,
        "a request and a notification with the value as params, for every id and method",
        move |i| {
            let method = STRINGS.map(|s| s.to_string());
            let few = ["", "textDocument/hover", "$/x"].map(String::from);
            // Every method with a few ids, and every id with a few methods.
            let by_id = pick("by id", 2) == 1;
            if by_id {
                let id = &idl[pick("id", idl.len())];
                let m = &few[pick("method", few.len())];
                request(m, Some(id.clone()), Some(vs[i].clone()), i < 30);
            } else {
                let m = &method[pick("method", method.len())];
                let id = [None, Some(Id::Number(1)), Some(Id::String("s".into()))][pick("id", 3)].clone();
                request(m, id, Some(vs[i].clone()), i < 30);
            }
        },
    ));
    let idl = ids();
    v.push(group(
        "requests without params", STRINGS.len(), "a request without params, for every id and method",
        move |i| {
            let k = pick("id", idl.len() + 1);
            request(STRINGS[i], idl.get(k).cloned(), None, true);
        },
    ));
    let (vs, idl) = (vals.clone(), ids());
    v.push(group(
        &format!("results depth {d1}"), n, "a response with the value as result, for every id",
        move |i| {
            response(idl[pick("id", idl.len())].clone(), Ok(vs[i].clone()), true);
        },
    ));
    let (es, idl) = (errors(d1), ids());
    v.push(group(
        &format!("errors depth {d1}"), es.len(), "an error, and a response with it for every id",
        move |i| {
            let k = pick("id", idl.len() + 1);
            match idl.get(k) {
                Some(id) => drop(response(id.clone(), Err(es[i].clone()), i % 8 == 0)),
                None => round("error", &es[i], &error_value(&es[i]), true),
            }
        },
    ));
    let idl = ids();
    v.push(group("ids", idl.len(), "every id, compared with every other", move |i| {
        id_conversions(&idl[i]);
        for (j, o) in idl.iter().enumerate() {
            check!((idl[i] == *o) == (i == j), T, "equality", "{:?} and {o:?}", idl[i]);
            let a = Request::build("m").id(idl[i].clone()).finish();
            let b = Request::build("m").id(o.clone()).finish();
            check!((a == b) == (i == j), T, "equality", "{a} and {b}");
            let set: HashSet<&Id> = [&idl[i], o].into();
            check!((set.len() == 1) == (i == j), T, "equality", "{:?} and {o:?} hashed", idl[i]);
        }
    }));
    let vs = vals.clone();
    v.push(group("equality", n, "messages equal only if their parts are", move |i| {
        let a = Response::from_ok(Id::Number(1), vs[i].clone());
        let ra = Request::build("m").params(vs[i].clone()).finish();
        for (j, o) in vs.iter().enumerate() {
            let same = vs[i] == vs[j];
            let b = Response::from_ok(Id::Number(1), o.clone());
            check!((a == b) == same, T, "equality", "{a:?} and {b:?}");
            let rb = Request::build("m").params(o.clone()).finish();
            check!((ra == rb) == same, T, "equality", "{ra} and {rb}");
        }
        let none = Request::build("m").finish();
        check!(ra != none, T, "equality", "{ra} and {none}");
        let e = Response::from_error(Id::Number(1), Error { code: ErrorCode::from(1), message: "".into(), data: Some(vs[i].clone()) });
        check!(a != e, T, "equality", "{a:?} and {e:?}");
        let named = Request::build("n").params(vs[i].clone()).finish();
        check!(ra != named, T, "equality", "{ra} and {named}");
    }));
    v.push(group("constructors", 1, "every constructor of an error", |_| constructors()));

    // Codes: everything around the reserved ranges, and around every power of two.
    let k = [17, 24, 31][d1 as usize];
    let span: i64 = 1 << k;
    let per = span / 32;
    v.push(group(
        &format!("codes within 2^{k}"), 64,
        "every error code in a range", move |i| {
            let from = -span + i as i64 * per;
            for n in from..=from + per {
                code(n);
            }
            step(&format!("codes from {from}"));
        },
    ));
    v.push(group("codes around powers of two", 63, "codes around a power of two, and serialized ones", move |i| {
        let p: i64 = 1 << i.min(62);
        for d in -70_000..=70_000i64 {
            code(p.wrapping_add(d));
            code((-p).wrapping_add(d));
            code(i64::MIN.wrapping_add(p).wrapping_add(d));
        }
        for d in -600..=600 {
            code_full(p.wrapping_add(d));
            code_full((-p).wrapping_add(d));
            code_full(-32768 - 600 + d - i as i64 * 1200 % 4800);
        }
    }));
    let cs = codes();
    v.push(group("serialized codes", 64, "every code from -34000 to -30000 and others, serialized", move |i| {
        if i == 0 {
            cs.iter().for_each(|n| code_full(*n));
        }
        for n in (-34_000..-30_000i64).skip(i).step_by(64) {
            code_full(n);
        }
    }));
    v
}
