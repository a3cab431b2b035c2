#!/usr/bin/env python3
"""Writes plan.json (what check.py needs to know) and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = [
    "the wakers, I/O objects and handlers are the harness's own and the executor polls one task at a time; "
    "thread interleavings are covered where a build named `threads` is part of the check",
    "rustc, std, futures, tower, serde, dashmap and the codec crates are used as they are",
]
TRANSPORT = ("Server::serve is run over mock stdin and stdout on both runtimes; every choice of when input "
             "arrives, how it is cut, how output is accepted, when handlers continue and when the client "
             "answers is enumerated up to the stated number of deviations from the default.")
SERVICE = ("LspService is driven directly through tower's Service; every sequence of messages, polls, gate "
           "openings and drops up to the stated depth is enumerated and compared with a reference model.")
CLIENT = ("Client handles, the request stream and the response sink are driven directly; every sequence of "
          "sends, polls, receipts, answers, drops and lifecycle steps up to the stated depth is enumerated "
          "and compared with a reference model.")
THREADS = ("Operations of up to four real threads on one service, client handle, transport or server are run under a "
           "scheduler that owns every atomic operation, futex call and yield of the compiled code; every schedule with "
           "at most the stated number of preemptions is executed and judged.")
THREADED = {"C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C18", "C19", "C20", "C23"}
both = ["tokio", "agnostic"]

P = {
 "C01": (both, TRANSPORT + " Streams of well-formed frames under every equal cut size, every set of up to two cuts (with stalls) and cuts combined with schedules.", "stateless model checking (deviation-bounded) of the real server over every chunking"),
 "C02": (both, TRANSPORT + " 41 kinds of malformed input between well-formed frames, singly under every set of up to two cuts, in pairs, and with schedules.", "stateless model checking (deviation-bounded) of the real server over malformed input and chunkings"),
 "C03": (both, TRANSPORT + " The bytes written are parsed by a strict frame parser and compared with the messages handlers produced, under partial and pending writes and flushes and for bodies of every length around the sizes of buffers.", "stateless model checking (deviation-bounded) of the real server over output behaviours"),
 "C04": (both, TRANSPORT + " Every order of members of requests, notifications and responses, with every kind of id, and every kind of message that is none of these.", "exhaustive enumeration of message shapes against the real server"),
 "C05": (["tokio"], "Every request, response, error and id built from an alphabet of ids, names, codes and JSON values is serialized, compared member by member with the object it must be, and parsed back from that object written in every order of members, escaped and spaced, as text, bytes, a reader and a value; error codes exhaustively in ranges and around every power of two.", "exhaustive enumeration of bounded message values against a reference encoding, on the real types"),
 "C06": (["tokio"], "A table of every LSP method written from the specification is driven through the real service: every sample of params and results, every error, every single-position corruption of the params, both message kinds, six kinds of backends, ordered pairs of methods, and a thousand names that differ slightly from a method; handlers record what reaches them.", "exhaustive enumeration of methods, messages and backends against a reference routing table, on the real service"),
 "C21": (["tokio"], "Every use of the client handle from a table is combined with every kind of answer (each valid result, each wrong type, each error), with retained polls, earlier requests and pairs of requests answered in both orders; what is sent and returned is compared with the table.", "exhaustive enumeration of client calls and answers against a reference table, on the real client handle"),
 "C22": (["tokio"], "All builder chains and all report sequences up to a depth are driven, and two streams interleaved in every order; what the client receives is compared with a model of the typestate.", "stateless model checking of the real progress streams, all call sequences to a depth and all interleavings"),
 "C24": (["tokio"], "All sets of up to two (thorough: three) registrations over ten signatures and fifteen names, built-in ones included, in every lifecycle state, are sent every message of an alphabet and compared with a routing model.", "exhaustive enumeration of registrations, states and messages against a routing model, on the real service"),
 "C07": (both, SERVICE, "stateless model checking of the real service against a lifecycle model, all sequences to a depth"),
 "C08": (both, SERVICE, "stateless model checking of the real service against a lifecycle model, all sequences to a depth"),
 "C09": (both, SERVICE, "stateless model checking of the real service against a lifecycle model, all sequences to a depth"),
 "C10": (both, SERVICE + " " + CLIENT + " " + TRANSPORT, "stateless model checking of the real service, client handles and server against a lifecycle model"),
 "C11": (both, SERVICE + " " + TRANSPORT, "stateless model checking of the real service and server, exactly-once oracle on responses"),
 "C12": (both, SERVICE + " " + TRANSPORT, "stateless model checking of the real service against a model of pending ids, all sequences to a depth"),
 "C13": (both, SERVICE, "stateless model checking of the real service against a model of pending ids, all sequences to a depth"),
 "C14": (both, TRANSPORT + " Concurrency levels 1 to 4 with every order of handler completions up to the bound, and levels up to 1000 with fixed schedules.", "stateless model checking (deviation-bounded) of the real server over handler schedules"),
 "C15": (both, TRANSPORT + " Whenever nothing is woken, the server must be waiting for input, output or a handler with nothing else to do; exact wake flags make lost wakeups visible as such states.", "stateless model checking (deviation-bounded), quiescence and deadlock oracle"),
 "C16": (both, TRANSPORT + " " + CLIENT, "stateless model checking (deviation-bounded) of the real server up to its end, under end of input and exit"),
 "C17": (both, TRANSPORT + " A failure is injected at every read, write, flush and at the final close, for each of a set of workloads.", "exhaustive fault injection combined with deviation-bounded schedules on the real server"),
 "C18": (["tokio"], CLIENT, "stateless model checking of the real client handle, all sequences to a depth"),
 "C19": (both, CLIENT, "stateless model checking of the real client handle against a model of pending requests"),
 "C20": (["tokio"], CLIENT, "stateless model checking of the real client handle in every lifecycle state"),
 "C23": (both, CLIENT, "stateless model checking of the real client handle, exactly-once in-order oracle"),
 "C25": (both, TRANSPORT + " Both builds run the same executions and what they did is compared execution by execution.", "exhaustive differential exploration of both runtimes over the same schedules"),
}
EXTRA = {"C25": {"observe": True}}
NA = {
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
plan, checks, na = {}, [], []
for p in props:
    i = p["id"]
    if i in NA or i not in P:
        na.append({"property": i, "reason": NA.get(i, "the check is still being built")})
        continue
    kinds, expl, tech = P[i][:3]
    if i in THREADED:
        kinds, expl = kinds + ["threads"], expl + " " + THREADS
        tech += "; and of all thread interleavings up to a preemption bound"
    plan[i] = {"kinds": kinds, "explanation": expl, "assumptions": COMMON, **EXTRA.get(i, {})}
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking",
        "level_note": expl + " Exhaustive within the bounds the evidence file lists, nothing beyond them; trusted: the harness (mock I/O, executor, reference models), rustc and the dependencies.",
    })
json.dump(plan, open(os.path.join(HERE, "plan.json"), "w"), indent=1)
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "hooks": {"guard": "none", "enable": "the checks use the public interface of the crate only; no hooks were added to /repo", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "plan.json and MANIFEST.json are written by tools/mkplan.py, properties.jsonl by tools/mkprops.py. known-findings.json lists the findings that are recorded and those that were repaired.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
