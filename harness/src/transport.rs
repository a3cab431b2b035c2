//! Transport-level scenarios.

use serde_json::{json, Value};


use crate::engine::Group;
use crate::sim::*;

fn with_header(body: &str, header: &str) -> Vec<u8> {
    format!("{header}{body}").into_bytes()
}

fn rebody(f: Frame, header: impl Fn(usize) -> String) -> Frame {
    let at = f.bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
    let body = String::from_utf8(f.bytes[at..].to_vec()).unwrap();
    Frame { bytes: with_header(&body, &header(body.len())), ..f }
}

fn plain_type(f: Frame) -> Frame {
    rebody(f, |n| {
        format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n")
    })
}

fn type_first(f: Frame) -> Frame {
    rebody(f, |n| {
        format!("Content-Type: application/vscode-jsonrpc; charset=utf8\r\nContent-Length: {n}\r\n\r\n")
    })
}

fn empty() -> Frame {
    bytes(Kind::Ignore, b"Content-Length: 0\r\n\r\n")
}

fn empty_typed() -> Frame {
    bytes(
        Kind::Ignore,
        b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: 0\r\n\r\n",
    )
}

/// A notification whose body has characters of two, three and four bytes and raw UTF-8 keys.
fn wide(k: u32) -> Frame {
    let v = json!({"jsonrpc":"2.0","method":"t/not","params":{"k":k,"s":"","\u{e9}":"\u{20ac}\u{1F600}"}});
    Frame { bytes: frame(&v.to_string()), ..not(k, "") }
}

/// A notification with this many bytes of padding.
fn big(k: u32, pad: usize) -> Frame {
    let v = json!({"jsonrpc":"2.0","method":"t/not","params":{"k":k,"s":"","pad":"x".repeat(pad)}});
    Frame { bytes: frame(&v.to_string()), ..not(k, "") }
}

/// A notification whose body contains what looks like a frame.
fn inside(k: u32) -> Frame {
    let v = format!("{{\"jsonrpc\":\"2.0\",\"method\":\"t/not\",\"params\":{{\"k\":{k},\"x\":\"Content-Length: 2\\r\\n\\r\\n[]\",\r\n\r\n\"Content-Length: 3\":0}}}}");
    Frame { bytes: frame(&v), ..not(k, "") }
}

/// A notification whose body has blank lines in it, before it and after it.
fn blank(k: u32) -> Frame {
    let v = format!("\r\n\r\n{{\r\n\r\n\"jsonrpc\" :\t\"2.0\",\n\n\"method\":\"t/not\",\"params\":{{\"k\":{k}}} }}\r\n\r\n \n");
    Frame { bytes: frame(&v), ..not(k, "") }
}

fn short_id(k: u32) -> Frame {
    let id = format!("\u{e9}\u{1F600}{k}\"");
    let v = json!({"jsonrpc":"2.0","id":id,"method":"t/req","params":{"k":k}});
    Frame { bytes: frame(&v.to_string()), ..req(k, "").with_id(json!(id)) }
}

fn short(k: u32) -> Frame {
    let v = format!(r#"{{"jsonrpc":"2.0","method":"t/not","params":{{"k":{k}}}}}"#);
    Frame { bytes: frame(&v), ..not(k, "") }
}

fn short_req(k: u32) -> Frame {
    let v = format!(r#"{{"jsonrpc":"2.0","id":{k},"method":"t/req","params":{{"k":{k}}}}}"#);
    Frame { bytes: frame(&v), ..req(k, "") }
}

/// Streams of well-formed frames.
fn streams() -> Vec<(String, Vec<Frame>)> {
    let v: Vec<(&str, Vec<Frame>)> = vec![
        ("three", vec![short(1), short_req(2), short(3)]),
        ("typed", vec![plain_type(short(1)), type_first(short(2))]),
        ("typed-plain", vec![type_first(short_req(1)), short(2)]),
        ("wide", vec![wide(1), short(2)]),
        ("wide-typed", vec![plain_type(wide(1)), wide(2)]),
        ("empty-first", vec![empty(), short(1), short(2)]),
        ("empty-mid", vec![short(1), empty(), short(2)]),
        ("empty-run", vec![empty(), empty(), short(1), empty(), empty_typed(), empty(), short(2)]),
        ("empty-last", vec![short(1), empty(), empty_typed()]),
        ("reqs", vec![short_req(1), short_req(2), short_req(3)]),
        ("headers-inside", vec![inside(1), short(2)]),
        ("blank-lines", vec![blank(1), short_req(2)]),
        ("strings", vec![short_id(1), short(2), short_id(3)]),
    ];
    v.into_iter().map(|(n, f)| (n.to_string(), f)).collect()
}

fn total(f: &[Frame]) -> usize {
    f.iter().map(|f| f.bytes.len()).sum()
}

pub fn chunking(d: u32) -> Vec<Group> {
    let mut free = vec![];
    let mut every = vec![];
    for (n, f) in streams() {
        let mut s = Scn::new(format!("cut-{n}"), f.clone());
        s.at_once = true;
        s.fixed = true;
        s.cuts = Cuts::Choose;
        free.push(s);
        for k in 1..=total(&f) {
            for stall in [false, true] {
                let mut s = Scn::new(format!("every-{n}"), f.clone());
                s.at_once = true;
                s.fixed = true;
                s.cuts = if stall { Cuts::EveryStall(k) } else { Cuts::Every(k) };
                every.push(s.clone());
                s.at_once = false;
                every.push(s);
            }
        }
    }
    // Bodies around the sizes of the read buffers, cut near the interesting offsets.
    let mut large = vec![];
    for pad in [8000, 8100, 8192, 16300, 70000] {
        for tail in [0usize, 1] {
            let f = vec![short(1), big(2, pad + tail), empty(), short(3)];
            let t = total(&f);
            for a in [1usize, 40, 80, 100, 8191, 8192, 8193, t - 120, t - 60, t - 1] {
                for b in [0usize, 8192, 16384, t - 75] {
                    let mut s = Scn::new("large", f.clone());
                    let mut at = vec![a, b];
                    at.sort();
                    s.at_once = true;
                    s.fixed = true;
                    s.cuts = Cuts::At(at);
                    large.push(s);
                }
            }
        }
    }
    let mut sched = vec![];
    for (n, f) in streams().into_iter().take(if d > 0 { 10 } else { 4 }) {
        let mut s = Scn::new(format!("sched-{n}"), f.clone());
        s.cuts = Cuts::At((7..total(&f)).step_by(13).collect());
        sched.push(s.clone());
        s.eof_first = true;
        sched.push(s);
    }
    vec![
        group("every frame cut into equal parts", 0, every),
        group("large bodies", 0, large),
        group("cuts with schedules", 2 + d, sched),
        group("every set of cuts", 1 + d, free.clone()),
        group("every pair of cuts in short streams", 2, vec![short_pair(vec![short(1), short(2)]), short_pair(vec![empty(), short(1)]), short_pair(vec![short(1), empty(), short(2)])]),
    ]
}

fn short_pair(f: Vec<Frame>) -> Scn {
    let mut s = Scn::new("pairs", f);
    s.at_once = true;
    s.fixed = true;
    s.cuts = Cuts::Choose;
    s
}

/// Malformed input, by name.
fn malformed() -> Vec<(&'static str, Frame)> {
    let body = |code: i64, b: &[u8]| {
        let mut v = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
        v.extend_from_slice(b);
        bytes(Kind::Bad(code), &v)
    };
    let typed = |code: i64, b: &str| {
        let s = format!("Content-Type: a/b; charset=utf-8\r\nContent-Length: {}\r\n\r\n{b}", b.len());
        bytes(Kind::Bad(code), s.as_bytes())
    };
    let raw = |b: &str| bytes(Kind::Garbage, b.as_bytes());
    vec![
        ("utf8", body(-32700, b"\"\xff\xfe\"")),
        ("utf8-cut", body(-32700, b"{\"jsonrpc\":\"2.0\",\"method\":\"\xe2\x82\"}")),
        ("utf8-headerlike", body(-32700, b"\xffContent-Length: 5\r\n\r\n")),
        ("json-open", body(-32700, b"{")),
        ("json-word", body(-32700, b"nope")),
        ("json-cut", body(-32700, b"{\"jsonrpc\":\"2.0\",\"method\":\"t/not\"")),
        ("json-two", body(-32700, b"{\"jsonrpc\":\"2.0\",\"method\":\"t/not\",\"params\":{\"k\":9}} {}")),
        ("json-blank", body(-32700, b"  ")),
        ("json-headerlike", body(-32700, b"Content-Length: 9\r\n\r\n{\"a\"")),
        ("json-typed", typed(-32700, "[1,")),
        ("value-array", body(-32600, b"[]")),
        ("value-number", body(-32600, b"1")),
        ("value-string", body(-32600, b"\"Content-Length: 3\\r\\n\"")),
        ("value-null", body(-32600, b"null")),
        ("value-empty", body(-32600, b"{}")),
        ("version", body(-32600, b"{\"jsonrpc\":\"1.0\",\"method\":\"t/not\"}")),
        ("no-version", body(-32600, b"{\"method\":\"t/not\",\"params\":{\"k\":9}}")),
        ("batch", body(-32600, b"[{\"jsonrpc\":\"2.0\",\"method\":\"t/not\",\"params\":{\"k\":9}}]")),
        ("bad-id", body(-32600, b"{\"jsonrpc\":\"2.0\",\"method\":\"t/req\",\"id\":{}}")),
        ("float-id", body(-32600, b"{\"jsonrpc\":\"2.0\",\"method\":\"t/req\",\"id\":1.5}")),
        ("bad-method", body(-32600, b"{\"jsonrpc\":\"2.0\",\"method\":5}")),
        ("value-typed", typed(-32600, "[1]")),
        ("header-unknown", raw("Foo: bar\r\n\r\n")),
        ("header-none", raw("\r\n\r\n")),
        ("header-short", raw("\r\n")),
        ("header-type-only", raw("Content-Type: a/b; charset=utf-8\r\n\r\n")),
        ("length-word", raw("Content-Length: abc\r\n\r\n")),
        ("length-negative", raw("Content-Length: -1\r\n\r\n")),
        ("length-empty", raw("Content-Length: \r\n\r\n")),
        ("length-float", raw("Content-Length: 1.0\r\n\r\n")),
        ("charset", raw("Content-Length: 2\r\nContent-Type: a/b; charset=latin1\r\n\r\n{}")),
        ("charset-first", raw("Content-Type: a/b; charset=utf-16\r\nContent-Length: 2\r\n\r\n{}")),
        ("no-charset", raw("Content-Length: 2\r\nContent-Type: text/plain\r\n\r\n[]")),
        ("not-a-header", raw("garbage without a colon\r\n\r\n")),
        ("binary", bytes(Kind::Garbage, b"\x00\x01\xff\xfe\r\n\r\n")),
        ("text", raw("lorem ipsum: dolor\r\nsit: amet\r\n\r\n")),
        ("inline", raw("garbage")),
        ("prefixes", raw("CContent-LContent-Lengt")),
        ("word", raw("Content-Length")),
        ("json", raw("{\"jsonrpc\":\"2.0\",\"method\":\"t/not\"}\r\n\r\n")),
        ("bare-lf", raw("bad header\n\n")),
    ]
}

pub fn garbage(d: u32) -> Vec<Group> {
    let list = malformed();
    let mut one = vec![];
    let mut every = vec![];
    let mut pairs = vec![];
    for (n, g) in &list {
        let f = vec![short(1), g.clone(), short_req(2), short(3)];
        let mut s = Scn::new(format!("bad-{n}"), f.clone());
        s.at_once = true;
        s.fixed = true;
        s.cuts = Cuts::Choose;
        one.push(s.clone());
        s.frames.remove(0);
        one.push(s.clone());
        for k in 1..=total(&f) {
            s.frames = f.clone();
            s.cuts = Cuts::EveryStall(k);
            every.push(s.clone());
            s.cuts = Cuts::Every(k);
            every.push(s.clone());
        }
        for (m, g2) in &list {
            // What follows a lone header word is part of it.
            if *n == "word" && matches!(g2.kind, Kind::Bad(_)) {
                continue;
            }
            let f = vec![g.clone(), g2.clone(), short(1), g.clone(), short_req(2)];
            for cuts in [Cuts::Whole, Cuts::EveryStall(1), Cuts::EveryStall(9), Cuts::EveryStall(17)] {
                let mut s = Scn::new(format!("bad-{n}-{m}"), f.clone());
                s.at_once = true;
                s.fixed = true;
                s.cuts = cuts;
                pairs.push(s);
            }
        }
    }
    let mut sched = vec![];
    for n in ["json-open", "value-empty", "header-unknown", "utf8"] {
        let g = list.iter().find(|e| e.0 == n).unwrap().1.clone();
        let mut s = Scn::new(format!("sched-{n}"), vec![req(1, "gl"), g.clone(), req(2, "r"), g.clone(), not(3, "l"), g]);
        s.level = 2;
        sched.push(s.clone());
        s.out = Out::Choose;
        s.eof_first = true;
        sched.push(s);
    }
    vec![
        group("malformed input cut into equal parts", 0, every),
        group("pairs of malformed inputs", 0, pairs),
        group("malformed input under every set of cuts", 1 + d, one),
        group("malformed input with schedules", 2 + d, sched),
    ]
}

pub fn output(d: u32) -> Vec<Group> {
    let sets: Vec<(&str, Vec<Frame>)> = vec![
        ("responses", vec![req(1, ""), req(2, "e"), req(3, "g")]),
        ("mixed", vec![req(1, "lL"), req(2, "gp"), not(3, "lp")]),
        ("calls", vec![req(1, "rl"), req(2, "mg"), not(3, "r")]),
        ("errors", vec![malformed()[3].1.clone(), req(1, "l"), malformed()[10].1.clone()]),
        ("exit", vec![req(1, "lg"), exit()]),
    ];
    let mut choose = vec![];
    let mut fixed = vec![];
    let mut sched = vec![];
    for (n, f) in sets {
        for level in [1, 4] {
            for at_once in [false, true] {
                let mut s = Scn::new(n, f.clone());
                s.level = level;
                s.at_once = at_once;
                s.out = Out::Choose;
                s.fixed = true;
                choose.push(s.clone());
                s.fixed = false;
                sched.push(s.clone());
                s.fixed = true;
                for k in (1..60).chain([100, 200, 400]) {
                    s.out = Out::Every(k);
                    fixed.push(s.clone());
                }
                s.out = Out::Pending;
                fixed.push(s.clone());
                s.fixed = false;
                sched.push(s);
            }
        }
    }
    // More output than the encoder buffers before it flushes.
    for n in [40, 90] {
        let f: Vec<Frame> = (1..=n).map(|k| req(k, "L")).collect();
        for out in [Out::Plain, Out::Pending, Out::Every(1000), Out::Every(7)] {
            for at_once in [false, true] {
                let mut s = Scn::new("bulk", f.clone());
                s.at_once = at_once;
                s.fixed = true;
                s.out = out;
                fixed.push(s);
            }
        }
    }
    // Bodies of every length around those where the header or a buffer gets longer.
    let mut sizes = vec![];
    let mut lens: Vec<u32> = (1..140).collect();
    lens.extend(830..1010);
    for c in [2000, 4096, 8192, 10_000, 16_384, 65_536, 100_000] {
        let w = if d > 0 { 130 } else { 30 };
        lens.extend((c - w..c + 15).step_by(if d > 0 { 1 } else { 5 }));
    }
    lens.push(1_000_000);
    for k in lens {
        for out in [Out::Plain, Out::Pending, Out::Every(k as usize / 2 + 1)] {
            let mut s = Scn::new("size", vec![req(k, "xB"), req(2_000_000, ""), not(k + 1, "x")]);
            s.at_once = out == Out::Plain;
            s.fixed = true;
            s.out = out;
            sizes.push(s);
        }
    }
    vec![
        group("bodies of every length", 0, sizes),
        group("writes of fixed size", 0, fixed),
        group("every way to accept output", 2 + d, choose),
        group("output with schedules", 1 + d, sched),
    ]
}

/// Requests whose members come in every order, with every kind of id; responses likewise.
pub fn classify(_d: u32) -> Vec<Group> {
    fn perms(n: usize) -> Vec<Vec<usize>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for p in perms(n - 1) {
            for i in 0..=p.len() {
                let mut q = p.clone();
                q.insert(i, n - 1);
                out.push(q);
            }
        }
        out
    }
    fn object(members: &[String]) -> Vec<Vec<u8>> {
        perms(members.len())
            .into_iter()
            .map(|p| {
                let m: Vec<&str> = p.iter().map(|i| members[*i].as_str()).collect();
                frame(&format!("{{{}}}", m.join(",")))
            })
            .collect()
    }
    let ids = vec![
        json!(0), json!(1), json!(-1), json!(i64::MAX), json!(i64::MIN), json!(i32::MAX as i64 + 1),
        json!(9007199254740993i64), json!(""), json!("1"), json!("null"), json!("é\"\\\u{1F600}\n"), Value::Null,
    ];
    let mut scns = vec![];
    let mut add = |name: &str, frames: Vec<Frame>| {
        let mut s = Scn::new(name, frames);
        s.at_once = true;
        s.fixed = true;
        scns.push(s);
    };
    for id in &ids {
        let m = [
            r#""jsonrpc":"2.0""#.to_string(),
            r#""method":"t/req""#.into(),
            format!(r#""id":{id}"#),
            format!(r#""params":{}"#, json!({"k": 1, "s": ""})),
        ];
        for b in object(&m) {
            let k = Kind::Exec { k: 1, method: "t/req", ops: "".into(), id: Some(id.clone()) };
            add("request", vec![bytes(k, &b)]);
        }
        // A request that is refused, or whose handler fails, keeps its id as well.
        for b in object(&m[..3]) {
            add("request without params", vec![bytes(Kind::Reject { id: id.clone(), code: -32602 }, &b)]);
        }
        let m2 = [m[0].clone(), r#""method":"nope""#.into(), m[2].clone()];
        for b in object(&m2) {
            add("unknown request", vec![bytes(Kind::Reject { id: id.clone(), code: -32601 }, &b)]);
        }
    }
    let p = format!(r#""params":{}"#, json!({"k": 1, "s": ""}));
    for b in object(&[r#""jsonrpc":"2.0""#.to_string(), r#""method":"t/not""#.into(), p.clone()]) {
        let k = Kind::Exec { k: 1, method: "t/not", ops: "".into(), id: None };
        add("notification", vec![bytes(k, &b)]);
    }
    for b in object(&[r#""jsonrpc":"2.0""#.to_string(), r#""method":"nope""#.into(), p]) {
        add("unknown notification", vec![bytes(Kind::Ignore, &b)]);
    }
    // Stray responses are neither answered nor executed.
    for id in &ids {
        for body in [r#""result":1"#, r#""result":null"#, r#""error":{"code":1,"message":"x"}"#, r#""error":{"message":"","code":-1,"data":null}"#] {
            for b in object(&[r#""jsonrpc":"2.0""#.to_string(), format!(r#""id":{id}"#), body.into()]) {
                add("response", vec![bytes(Kind::Ignore, &b), short_req(77)]);
            }
        }
    }
    // Everything else that is JSON.
    for b in [
        "0", "-1", "1.5", "true", "false", "null", "\"\"", "[]", "{}", "[1,2]", "[{}]",
        r#"{"jsonrpc":"2.0","id":1.5,"method":"t/req"}"#,
        r#"{"jsonrpc":"2.0","id":[],"method":"t/req"}"#,
        r#"{"jsonrpc":"2.0","id":true,"method":"t/req"}"#,
        r#"{"jsonrpc":"2.0","id":{"a":1},"method":"t/req"}"#,
        r#"{"jsonrpc":"2.0","id":9223372036854775808,"method":"t/req"}"#,
        r#"{"jsonrpc":"2.0","id":-9223372036854775809,"method":"t/req"}"#,
        r#"{"jsonrpc":"2.0","id":1,"method":7}"#,
        r#"{"jsonrpc":"2.0","id":1,"method":null}"#,
        r#"{"jsonrpc":"2.0","id":1,"method":["t/req"]}"#,
        r#"{"jsonrpc":"2.1","id":1,"method":"t/req"}"#,
        r#"{"jsonrpc":2.0,"id":1,"method":"t/req"}"#,
        r#"{"jsonrpc":"","id":1,"method":"t/req"}"#,
        r#"{"jsonrpc":null,"id":1,"method":"t/req"}"#,
        r#"{"id":1,"method":"t/req"}"#,
        r#"{"id":1,"result":1}"#,
        r#"{"jsonrpc":"2","id":1,"result":1}"#,
        r#"[{"jsonrpc":"2.0","id":1,"method":"t/req","params":{"k":1}}]"#,
    ] {
        add("invalid", vec![bytes(Kind::Bad(-32600), &frame(b)), short_req(77)]);
    }
    vec![group("members in every order", 0, scns)]
}

pub fn concurrency(d: u32) -> Vec<Group> {
    let mut v = vec![];
    for level in [1, 2, 3, 4] {
        for at_once in [false, true] {
            let mut add = |n: &str, f: Vec<Frame>| {
                let mut s = Scn::new(n, f);
                s.level = level;
                s.at_once = at_once;
                v.push(s);
            };
            add("gates", vec![req(1, "g"), req(2, "g"), not(3, "g"), req(4, "g"), not(5, "g"), req(6, "g")]);
            add("mixed", vec![req(1, "gg"), not(2, ""), req(3, "yg"), not(4, "lg"), req(5, "e"), req(6, "g")]);
            add("refused", vec![req(1, "g"), refused("nope", 2, -32601), not(3, "g"), refused("initialize", 4, -32600), req(5, "g"), req(6, "")]);
        }
    }
    let mut dflt = Scn::new("default", (1..=6).map(|k| if k % 2 == 0 { not(k, "g") } else { req(k, "g") }).collect());
    dflt.default_level = true;
    v.push(dflt.clone());
    dflt.at_once = true;
    v.push(dflt);
    // Levels higher than the number of messages, and many messages.
    let mut many = vec![];
    for (level, n) in [(1, 30), (2, 30), (5, 60), (8, 40), (16, 60), (64, 64), (4, 99), (1000, 300)] {
        for at_once in [false, true] {
            for gates_first in [false, true] {
                let f = (1..=n).map(|k| if k % 3 == 0 { not(k, "g") } else { req(k, "g") }).collect();
                let mut s = Scn::new("many", f);
                s.level = level;
                s.at_once = at_once;
                s.gates_first = gates_first;
                s.fixed = true;
                many.push(s);
            }
        }
    }
    vec![group("many messages", 0, many), group("levels", 2 + d, v)]
}

pub fn progress(d: u32) -> Vec<Group> {
    let mut v = vec![];
    for level in [1, 2, 4] {
        for at_once in [false, true] {
            let mut add = |n: &str, f: Vec<Frame>| {
                let mut s = Scn::new(n, f);
                s.level = level;
                s.at_once = at_once;
                v.push(s);
            };
            add("callbacks", vec![req(1, "r"), not(2, "m"), req(3, "rr"), req(4, "g")]);
            add("chatter", vec![not(1, "llll"), req(2, "lrl"), not(3, "ppp"), req(4, "lg")]);
            add("yield", vec![req(1, "yyy"), not(2, "yly"), req(3, "ry")]);
            add("cancel", vec![req(1, "r"), req(2, "g"), cancel(1), cancel(2), req(5, "m")]);
        }
    }
    let mut pend = vec![];
    for s in &v {
        let mut s = s.clone();
        s.out = Out::Choose;
        s.cuts = if s.at_once { Cuts::EveryStall(50) } else { Cuts::Whole };
        pend.push(s.clone());
        s.out = Out::Pending;
        pend.push(s);
    }
    let mut many = vec![];
    for (level, n) in [(1, 95), (2, 95), (4, 95), (4, 250), (7, 400)] {
        for ops in ["", "l", "ll", "y", "g", "gl"] {
            for at_once in [false, true] {
                for out in [Out::Plain, Out::Pending, Out::Every(33)] {
                    let f = (1..=n).map(|k| if k % 2 == 0 { not(k, ops) } else { req(k, ops) }).collect();
                    let mut s = Scn::new("flood", f);
                    s.level = level;
                    s.at_once = at_once;
                    s.out = out;
                    s.fixed = true;
                    many.push(s);
                }
            }
        }
        // Callbacks while at most a queueful of messages is ahead of the response.
        for level in [1, 2, 4] {
            for n in [10, 60, 99] {
                for at_once in [false, true] {
                    let mut f: Vec<Frame> = (1..=level as u32).map(|k| req(k, "rr")).collect();
                    f.extend((10..10 + n).map(|k| not(k, "")));
                    let mut s = Scn::new("flood-callback", f);
                    s.level = level;
                    s.at_once = at_once;
                    s.fixed = true;
                    many.push(s);
                }
            }
        }
    }
    // The known finding: more than a queueful of messages ahead of the response.
    let mut jam = vec![];
    for level in [1, 4] {
        let mut f: Vec<Frame> = (1..=level as u32).map(|k| req(k, "r")).collect();
        f.extend((10..10 + 120).map(|k| not(k, "")));
        let mut s = Scn::new("jam", f);
        s.level = level;
        s.at_once = true;
        s.fixed = true;
        jam.push(s);
    }
    vec![
        group("floods", 0, many),
        group("responses behind a full queue", 0, jam),
        group("callbacks", 2 + d, v),
        group("callbacks under back-pressure", 1 + d, pend),
    ]
}

pub fn ending(d: u32) -> Vec<Group> {
    let mut v = vec![];
    let sets: Vec<(&str, Vec<Frame>)> = vec![
        ("none", vec![]),
        ("immediate", vec![req(1, ""), not(2, "")]),
        ("gated", vec![req(1, "g"), not(2, "g"), req(3, "gg")]),
        ("telling", vec![req(1, "gl"), not(2, "l"), req(3, "lgll")]),
        ("telling-last", vec![not(1, "l")]),
        ("telling-most", vec![not(1, "lll"), req(2, "lllll")]),
        ("calling", vec![req(1, "r"), req(2, "gm"), not(3, "rl")]),
        ("calling-late", vec![req(1, "gr"), not(2, "gml")]),
        ("bad", vec![malformed()[3].1.clone(), req(1, "g"), malformed()[10].1.clone()]),
        ("exit", vec![req(1, "g"), exit()]),
        ("exit-only", vec![exit()]),
        ("exit-more", vec![req(1, "g"), exit(), req(2, ""), not(3, "")]),
        ("exit-calling", vec![req(1, "r"), not(2, ""), exit()]),
        ("exit-telling", vec![req(1, "lg"), exit(), ]),
        ("exit-bad", vec![exit(), malformed()[3].1.clone()]),
        ("shutdown-exit", vec![req_as("shutdown", 50, "", json!(50)), exit()]),
        ("shutdown-gated-exit", vec![req_as("shutdown", 50, "g", json!(50)), refused("t/req", 2, -32600), exit()]),
        ("shutdown", vec![req(1, "g"), req_as("shutdown", 50, "g", json!(50)), refused("t/req", 2, -32600)]),
    ];
    let mut sets = sets;
    for (n, f) in [
        ("exit-uninit", vec![exit(), req(2, "")]),
        ("eof-uninit", vec![refused("t/req", 2, -32002)]),
        ("uninit", vec![req_as("initialize", 1, "g", json!(1)), refused("t/req", 2, -32002), refused("initialize", 3, -32600)]),
        ("uninit-exit", vec![req_as("initialize", 1, "g", json!(1)), exit()]),
        ("in-band", vec![req_as("initialize", 1, "l", json!(1)), req(2, "gp").after(json!(1)), exit()]),
    ] {
        sets.push((n, f));
    }
    for (n, f) in sets {
        for level in [1, 4] {
            for at_once in [false, true] {
                if at_once && n == "in-band" || !at_once && n == "uninit" {
                    continue;
                }
                for eof_first in [false, true] {
                    let mut s = Scn::new(n, f.clone());
                    s.preinit = !n.contains("uninit") && n != "in-band";
                    s.level = level;
                    s.at_once = at_once;
                    s.eof_first = eof_first;
                    v.push(s.clone());
                    s.mute = true;
                    v.push(s);
                }
            }
        }
    }
    let mut pend = vec![];
    for s in v.iter().filter(|s| !s.mute && s.level == 4) {
        let mut s = s.clone();
        s.out = Out::Choose;
        pend.push(s);
    }
    vec![group("ends", 2 + d, v), group("ends under back-pressure", 1 + d, pend)]
}

pub fn faults(d: u32) -> Vec<Group> {
    let sets: Vec<(&str, Vec<Frame>)> = vec![
        ("immediate", vec![req(1, ""), not(2, ""), req(3, "e")]),
        ("gated", vec![req(1, "g"), not(2, "lg"), req(3, "gl")]),
        ("calling", vec![req(1, "rl"), req(2, "m"), not(3, "l")]),
        ("bad", vec![malformed()[3].1.clone(), req(1, "g"), malformed()[10].1.clone(), malformed()[22].1.clone()]),
        ("exit", vec![req(1, "g"), exit()]),
        ("many", (1..=20).map(|k| req(k, if k % 3 == 0 { "g" } else { "l" })).collect()),
    ];
    let mut v = vec![];
    for (n, f) in sets {
        let mut fs = vec![Fault::Shutdown];
        let max = if d > 0 { 12 } else { 6 };
        for i in 0..max {
            fs.extend([Fault::Write(i), Fault::WriteZero(i), Fault::Flush(i), Fault::Read(i)]);
        }
        for fault in fs {
            for at_once in [false, true] {
                for level in [1, 4] {
                    for out in [Out::Plain, Out::Every(17), Out::Pending] {
                        if fault == Fault::Shutdown && out != Out::Plain {
                            continue;
                        }
                        let mut s = Scn::new(n, f.clone());
                        s.fault = fault;
                        s.at_once = at_once;
                        s.level = level;
                        s.out = out;
                        s.fixed = n == "many";
                        s.eof_first = level == 1;
                        v.push(s);
                    }
                }
            }
        }
    }
    vec![group("faults", 1 + d, v)]
}

/// Cancellation through the transport (C12), responses (C11).
pub fn requests(d: u32) -> Vec<Group> {
    let mut v = vec![];
    for level in [1, 2, 4] {
        for at_once in [false, true] {
            let mut add = |n: &str, f: Vec<Frame>| {
                let mut s = Scn::new(n, f);
                s.level = level;
                s.at_once = at_once;
                v.push(s);
            };
            add("cancel", vec![req(1, "g"), req(2, "g"), cancel(1), cancel(3), cancel(2)]);
            add("cancel-early", vec![cancel(1), req(1, "g"), req(2, "yg"), cancel(2), cancel(2)]);
            add("cancel-calls", vec![req(1, "lr"), cancel(1), req(2, "lg"), cancel(2), not(3, "g")]);
            add("results", vec![req(1, "e"), req(2, "g"), refused("nope", 3, -32601), not(4, "e"), req(5, "ge")]);
            add(
                "quiet",
                vec![
                    ignored(json!({"jsonrpc":"2.0","method":"nope"})),
                    ignored(json!({"jsonrpc":"2.0","result":1,"id":5})),
                    ignored(json!({"jsonrpc":"2.0","method":"t/not","params":7})),
                    ignored(json!({"jsonrpc":"2.0","method":"t/req","params":{"k":3}})),
                    ignored(json!({"jsonrpc":"2.0","method":"$/cancelRequest","params":{"id":5}})),
                    ignored(json!({"jsonrpc":"2.0","method":"$/cancelRequest","params":{}})),
                    req(1, ""),
                ],
            );
        }
    }
    vec![group("requests", 2 + d, v)]
}

