#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties lives here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Inbound messages are decoded identically under every chunking of the stream",
 "Whatever sequence of well-formed frames a client sends (Content-Length with or without a utf-8 Content-Type header, in either order, bodies with multi-byte characters, zero-length bodies), the server acts on exactly those messages, in the order sent, no matter how the byte stream is split into reads. Each message is acted on as soon as its last byte has been read, without waiting for further input. Zero-length frames carry no message and are skipped without any response or error.",
 ["inputs", "schedules"], "All streams of well-formed frames; every way of splitting their bytes into reads with pending polls in between.",
 "The codec tests decode a handful of whole buffers and one fixed three-way split through the codec alone; split points, read sizes and pending reads are a combinatorial space.",
 ["src/codec.rs", "src/transport.rs"],
 [("resumable header/body decoding", "src/codec.rs LanguageServerCodec::decode"), ("framed reader loop", "src/transport.rs Server::serve")],
 [("content_len", "body length of the frame being read", "src/codec.rs LanguageServerCodec")], ["Server::serve: handler invocations and bytes on stdout"])

prop("C02", "Malformed input is answered with an error and never stops the server",
 "A frame whose body is not UTF-8 or not JSON is answered with exactly one -32700 error with a null id, and a frame whose body is JSON but not a JSON-RPC 2.0 message with exactly one -32600 error with a null id (either code if a JSON value that is no message is followed by more text). Malformed headers and garbage between frames are answered with at least one -32700 error with a null id. Every well-formed frame that follows is processed as if the malformed input had not been there, under every chunking of the stream, and no input makes the server panic or spin.",
 ["inputs", "schedules"], "All mixtures of malformed and well-formed frames over the alphabet of malformations, every position and every chunking.",
 "One codec test recovers from one mixture decoded directly by the codec, and one transport test feeds a single bad body followed by end of input; neither sends anything to a server after an error.",
 ["src/codec.rs", "src/transport.rs"],
 [("scan ahead to the next header", "src/codec.rs"), ("errors as stream items", "src/codec.rs, src/transport.rs"), ("mapping to JSON-RPC errors", "src/transport.rs to_jsonrpc_error")],
 observe=["Server::serve: bytes on stdout, handler invocations"])

prop("C03", "The output is always a sequence of complete, well-formed frames",
 "The bytes the server writes are always a concatenation of frames `Content-Length: N\\r\\n\\r\\n` followed by exactly N bytes of JSON, one frame per outgoing message, each message intact and written exactly once. This holds however the transport accepts the bytes (partial writes, pending writes, pending flushes) and however responses and server-to-client messages interleave. Everything written is also flushed without waiting for further input.",
 ["schedules", "inputs"], "All outgoing message sequences in the alphabet (empty, multi-byte, large payloads) and all ways the output accepts, splits and delays writes.",
 "The transport tests write a few small messages into a Vec, which accepts everything at once.",
 ["src/codec.rs", "src/transport.rs"],
 [("frame encoder", "src/codec.rs Encoder::encode"), ("single writer fed by select", "src/transport.rs Server::serve")],
 observe=["Server::serve: bytes accepted by stdout and flushes"])

prop("C04", "Incoming JSON is classified correctly and request ids are echoed exactly",
 "A JSON-RPC 2.0 object with a `method` is treated as a request if it has an `id` and as a notification if it has none, and an object with an `id` and a `result` or an `error` is treated as a client response, whatever the order of its members; anything else that is JSON is rejected as an invalid request. The response to a request carries the very id of the request, with its JSON type and value (any 64-bit integer, any string, or null). An explicit `null` member is never confused with an absent one for `id`, `params` and `result`.",
 ["inputs"], "All message shapes built from a small alphabet of values (absent, null, wrong type, right type) for each JSON-RPC member, under all member orders.",
 "Unit tests deserialize about ten fixed objects; the combinations of absent, null and ill-typed members and member orders are not covered.",
 ["src/jsonrpc.rs", "src/jsonrpc/request.rs", "src/jsonrpc/response.rs"],
 [("untagged message enum", "src/jsonrpc.rs Message"), ("optional member deserialization", "src/jsonrpc/request.rs"), ("flattened result/error", "src/jsonrpc/response.rs")],
 observe=["Server::serve with a recording service and client socket"])

prop("C05", "JSON-RPC values survive serialization and parsing unchanged",
 "Serializing any Request, Response, Error or Id and parsing the result yields an equal value, the serialized form is the JSON-RPC 2.0 object for it (`\"jsonrpc\":\"2.0\"`, absent members omitted, explicit nulls kept), and the Display form of a Request is that same JSON. Parts put into a Request or Response are exactly the parts its accessors and into_parts give back. Error codes map to their JSON-RPC/LSP integers and back without collisions for every 64-bit integer code (an ErrorCode::ServerError holding a reserved code is that code, and parses back as its named variant).",
 ["inputs"], "All messages built from a small alphabet of ids, methods, params, results, error codes and data; all integer codes in and around the reserved ranges.",
 "Tests check two error codes and a handful of fixed messages in one direction.",
 ["src/jsonrpc.rs", "src/jsonrpc/request.rs", "src/jsonrpc/response.rs", "src/jsonrpc/error.rs"],
 [("serde derives with skip/default attributes", "src/jsonrpc/request.rs, src/jsonrpc/response.rs, src/jsonrpc/error.rs"), ("ErrorCode conversion", "src/jsonrpc/error.rs")],
 observe=["public jsonrpc types"])

prop("C06", "Every LSP method reaches exactly its own handler, with its data intact",
 "On an initialized server, a message with the name of an LSP method invokes exactly the LanguageServer handler of that method, once, with the params sent, and the handler's result or error becomes the response unchanged; a handler the server does not implement answers a request with -32601. An unknown method answers a request with -32601 naming the method and ignores a notification; missing or ill-typed params answer a request with -32602 and ignore a notification, without running a handler. A request for a notification-only method is answered with -32600, and a notification for a request method is ignored, without running a handler.",
 ["inputs", "configurations"], "Every method of the LSP table x {request, notification} x {valid, missing, ill-typed params} x {ok, error, unimplemented} x {direct, Box, Arc} backends.",
 "Router tests use a mock router with two or three invented methods; not one of the LSP routes of the generated router is exercised beyond initialize, shutdown, exit and codeAction/resolve.",
 ["src/lib.rs", "tower-lsp-macros/src/lib.rs", "src/jsonrpc/router.rs", "src/service.rs"],
 [("generated route registration", "tower-lsp-macros/src/lib.rs"), ("#[rpc(name)] attributes", "src/lib.rs LanguageServer"), ("param/result conversion", "src/jsonrpc/router.rs")],
 observe=["LspService::call"])

prop("C07", "Nothing but initialize is served before the server is initialized",
 "Until an initialize request has succeeded, every other request for a known method is answered with error -32002 and every notification other than exit and $/cancelRequest is dropped, and in neither case does a handler run; this includes the time while initialize is still in progress. Once initialize has been answered with success, all methods are served.",
 ["histories", "schedules"], "All sequences of messages up to a depth, with every interleaving of handler completions, over requests and notifications of every kind.",
 "No test sends a request before initialize, and none sends one while initialize is in progress.",
 ["src/service/layers.rs", "src/service/state.rs", "src/service.rs"],
 [("state check in the Normal/Shutdown layers", "src/service/layers.rs"), ("ServerState", "src/service/state.rs")],
 [("ServerState", "lifecycle state", "src/service/state.rs")], ["LspService::call, handler invocations"])

prop("C08", "At most one initialize succeeds, and a failed one can be retried",
 "While an initialize request is in progress or after one has succeeded, every further initialize request is answered with -32600 without running the handler, also when several are sent in quick succession. If initialize fails, is cancelled, or is abandoned, the server is uninitialized again and the next initialize request is executed. A late completion of initialize never undoes a later lifecycle change.",
 ["histories", "schedules"], "All message sequences up to a depth with every interleaving of polling and completion of in-flight initialize requests, on one and on several threads.",
 "The unit test awaits the first initialize before sending the second, so overlapping, failing and cancelled initializations are never exercised.",
 ["src/service/layers.rs", "src/service/state.rs"],
 [("Initialize layer", "src/service/layers.rs InitializeService"), ("atomic state transition", "src/service/state.rs")],
 [("ServerState", "lifecycle state", "src/service/state.rs")], ["LspService::call, handler invocations"])

prop("C09", "After shutdown only exit is served",
 "A shutdown request on an initialized server runs the shutdown handler exactly once; from the moment it is received, every further request for a known method, including shutdown and initialize, is answered with -32600 and every notification other than exit and $/cancelRequest is dropped, without running a handler. Requests already in progress when shutdown arrives still complete with their own response.",
 ["histories", "schedules"], "All message sequences up to a depth containing shutdown, with every interleaving of handler completions.",
 "The unit test sends shutdown twice sequentially; other methods, in-flight requests and interleavings are not covered.",
 ["src/service/layers.rs", "src/service/state.rs"],
 [("Shutdown layer", "src/service/layers.rs ShutdownService"), ("Normal layer", "src/service/layers.rs NormalService")],
 [("ServerState", "lifecycle state", "src/service/state.rs")], ["LspService::call, handler invocations"])

prop("C10", "Exit is final",
 "Once the exit notification has been received, in any lifecycle state, the service reports the exited error for every readiness check and call, no message received afterwards runs a handler, every request in progress ends cancelled without its handler running further, and the stream of server-to-client messages ends. Nothing that completes later, such as an initialize that was in progress, brings the server back. Client handles stay safe to use: sends fail or are suppressed and pending client requests resolve with an error instead of hanging.",
 ["histories", "schedules"], "All message sequences up to a depth containing exit, with every interleaving of handlers in progress, client requests outstanding and senders blocked on a full client channel.",
 "The unit test sends exit to an idle, uninitialized service and checks one further call.",
 ["src/service.rs", "src/service/layers.rs", "src/service/pending.rs", "src/service/client.rs", "src/service/client/socket.rs", "src/service/client/pending.rs"],
 [("Exit layer", "src/service/layers.rs ExitService"), ("exited checks", "src/service.rs LspService"), ("channel close", "src/service/client.rs Client::close, src/service/client/socket.rs")],
 [("ServerState", "lifecycle state", "src/service/state.rs")], ["LspService poll_ready/call, ClientSocket stream and sink, Client futures"])

prop("C11", "Every request gets exactly one response with its id; notifications get none",
 "For every request received while the server runs, exactly one response bearing that request's id is produced, whatever the outcome (success, handler error, invalid params, unknown method, wrong lifecycle state, cancellation), in whatever order and interleaving handlers finish. No notification and no client response ever produces a response.",
 ["histories", "schedules", "inputs"], "All sequences of messages up to a depth over an alphabet with every kind of request outcome, with every order of handler completion and polling.",
 "The tests check single requests one at a time; concurrent requests finishing in different orders and mixed outcomes are never counted.",
 ["src/transport.rs", "src/service.rs", "src/jsonrpc/router.rs", "src/service/pending.rs", "src/service/layers.rs"],
 [("handler futures multiplexed by buffer_unordered", "src/transport.rs Server::serve"), ("into_response", "src/jsonrpc/router.rs")],
 observe=["Server::serve stdout; LspService::call futures"])

prop("C12", "Cancelling a request cancels exactly that request, promptly",
 "When a $/cancelRequest for the id of a request in progress is processed, that request's handler is dropped without running further and the request is answered with error -32800; no other request is affected, even if its id is the same digits as a string instead of a number. Cancelling an unknown, finished or already cancelled id has no effect, and the id can be used again for a new request that can itself be cancelled. A request that finishes before the cancellation is processed is answered normally.",
 ["histories", "schedules"], "All sequences of requests, completions and cancellations up to a depth over colliding ids, with every interleaving, on one and on several threads.",
 "The unit tests cancel one never-ending request once; races with completion, id reuse, double cancellation and id types are not covered.",
 ["src/service/pending.rs", "tower-lsp-macros/src/lib.rs", "src/service/layers.rs"],
 [("abort handles keyed by id", "src/service/pending.rs"), ("$/cancelRequest route", "tower-lsp-macros/src/lib.rs")],
 [("pending map", "abort handle per request in progress", "src/service/pending.rs")], ["LspService::call futures, handler drop"])

prop("C13", "A request reusing an id that is in progress is rejected, the original survives",
 "While a request is in progress, a second request with the same id is answered with -32600 without running its handler, and the first request completes unaffected and remains cancellable. Ids differing in value or type are independent, and once the first request has been answered its id is accepted again.",
 ["histories", "schedules"], "All sequences of requests with colliding ids, completions and cancellations up to a depth, with every interleaving, on one and on several threads.",
 "No test ever has two requests with the same id in progress.",
 ["src/service/pending.rs", "src/service/layers.rs"],
 [("vacant-entry check", "src/service/pending.rs Pending::execute")],
 [("pending map", "abort handle per request in progress", "src/service/pending.rs")], ["LspService::call futures, handler invocations"])

prop("C14", "Concurrency limit and start order are respected",
 "A server never has more handlers running at once than its configured concurrency level (4 by default), and it uses the level: with enough pending messages that many handlers do run at once. Handlers start in the order in which their messages arrived; at level 1 each message is fully processed before the next one's handler starts.",
 ["schedules", "configurations", "histories"], "Levels 1 to 5, all message sequences up to a depth, every order of handler completion and chunking of input.",
 "No test runs more than one message through the transport or sets the concurrency level.",
 ["src/transport.rs"], [("buffer_unordered over the task queue", "src/transport.rs Server::serve")],
 [("max_concurrency", "concurrency level", "src/transport.rs Server")], ["handler start/finish events under Server::serve"])

prop("C15", "The server keeps making progress: no message is stuck and no wakeup is lost",
 "As long as input keeps arriving and output keeps being accepted, every message received is eventually processed, every response and client-bound message is eventually written, and neither direction starves the other: a client response is delivered to the handler waiting for it even while all concurrency slots are taken by handlers waiting for client responses. The server acts whenever it has work and is only idle when it is truly waiting for input, output or a handler.",
 ["schedules", "histories"], "All interleavings of input arrival, output backpressure, handler steps and client responses, with the server polled only when woken.",
 "The tests complete in one poll on always-ready I/O; blocked slots, pending I/O and client round trips are absent.",
 ["src/transport.rs", "src/service/client.rs", "src/service/client/socket.rs", "src/service/client/pending.rs"],
 [("join of reader, processor and writer", "src/transport.rs Server::serve"), ("responses bypass the task queue", "src/transport.rs"), ("waiter registered before sending", "src/service/client.rs Client::call")],
 observe=["Server::serve polled only on wakeups"])

prop("C16", "Serving ends cleanly at end of input or exit",
 "When the input ends, the server still answers every request it has read once its handler completes, delivers what handlers tell the client meanwhile, fails client requests that can no longer be answered, closes the output, and then serve() returns. After the exit notification serve() returns likewise, without waiting for further input, with the requests in progress answered as cancelled. serve() does not return before either of these on healthy I/O.",
 ["histories", "schedules", "crash_points"], "All message histories up to a depth with the input ending, or exit arriving, at every point, under every interleaving of handler completions and output backpressure.",
 "Each transport test ends its input after one message whose handler is immediate; handlers in progress, client requests outstanding, queued messages and exit are not covered.",
 ["src/transport.rs", "src/service/layers.rs", "src/service/client/pending.rs", "src/service/client/socket.rs"],
 [("shutdown sequence after the read loop", "src/transport.rs Server::serve"), ("Exit layer", "src/service/layers.rs ExitService")],
 observe=["completion of Server::serve, stdout bytes, stdout shutdown"])

prop("C17", "I/O failures end serving without a panic",
 "If reading fails, or writing, flushing or closing the output fails or accepts no bytes, at any operation, the server never panics and never spins. serve() returns at the latest once the input ends and handlers in progress complete. Bytes accepted before the failure are a prefix of a well-formed output.",
 ["fault_sequences", "schedules"], "Every single fault (read error, write error, zero-length write, flush error, close error) at every I/O operation of a set of histories, and pairs of faults.",
 "No test injects an I/O error.",
 ["src/transport.rs"], [("error handling of the reader, processor and writer halves", "src/transport.rs Server::serve")],
 observe=["completion of Server::serve, panics, stdout bytes"])

prop("C18", "Server-to-client request ids are unique",
 "No two requests created through any clones of a client handle ever carry the same id, whichever mixture of typed requests and explicitly drawn ids is used and however many tasks or threads do so at once.",
 ["schedules", "programs"], "All interleavings of the atomic steps of concurrent id draws on several threads, and all sequences of typed requests and explicit draws up to a depth.",
 "No test sends two client requests, let alone concurrently.",
 ["src/service/client.rs"], [("atomic counter", "src/service/client.rs Client::next_request_id")],
 [("request_id", "next id", "src/service/client.rs ClientInner")], ["ids on ClientSocket and from next_request_id"])

prop("C19", "Each client response reaches exactly the request it answers",
 "A response from the client resolves exactly the outstanding client request with that id (same type and value) with its result or error, whatever the order in which responses arrive and even if it arrives immediately after the request was handed to the transport; requests sharing an id are answered first come, first served. Responses with an unknown, null or already answered id, or for a request whose caller has gone away, are ignored without a panic and without affecting other requests.",
 ["schedules", "histories"], "All orders of sending, abandoning and answering up to several outstanding requests with distinct and colliding ids, and all thread interleavings of registering a waiter with the arrival of its response.",
 "Two unit tests insert one or two responses sequentially into the bare map.",
 ["src/service/client/pending.rs", "src/service/client.rs", "src/service/client/socket.rs"],
 [("waiters keyed by id", "src/service/client/pending.rs"), ("waiter registered before sending", "src/service/client.rs")],
 [("pending map", "waiters per request id", "src/service/client/pending.rs")], ["Client request futures, ClientSocket sink"])

prop("C20", "Client messages are gated by the server lifecycle",
 "Before the server is initialized (including while initialize is in progress) and after exit, client requests other than showMessageRequest fail with -32002 and notifications other than showMessage, logMessage and telemetry are silently dropped, and nothing of them reaches the client. From successful initialization until exit, including after shutdown, all client messages are sent; showMessage, showMessageRequest, logMessage and telemetry are sent in every state before exit.",
 ["histories", "inputs"], "Every client API method in every reachable lifecycle state, reached through every short message history.",
 "Unit tests force the initialized state and send four notifications.",
 ["src/service/client.rs", "src/service/client/progress.rs"],
 [("state checks", "src/service/client.rs send_request/send_notification")],
 [("ServerState", "lifecycle state", "src/service/state.rs")], ["ClientSocket stream, results of Client methods"])

prop("C21", "The typed client API speaks the right LSP messages",
 "Each method of the client handle emits exactly one message, with the LSP method name and params that correspond to it and an id exactly when it is a request, and maps the client's answer to its return value: the deserialized result, the client's error unchanged, or a parse error if the result has the wrong shape. telemetry_event wraps any value that is not null, an array or an object into an array.",
 ["inputs"], "Every client API method x a small alphabet of arguments x every kind of client answer (ok, null, ill-typed, error with and without data).",
 "Four notifications are tested for their outgoing form; no request method and no answer mapping is.",
 ["src/service/client.rs", "src/jsonrpc/request.rs"],
 [("typed wrappers", "src/service/client.rs")], observe=["ClientSocket stream, results of Client methods"])

prop("C22", "Progress streams are well-formed begin, report, end sequences",
 "For every way of building and driving a progress stream, the client receives $/progress notifications carrying the given token: one begin with the given title, message, percentage and cancellability, then one report per report call with exactly the given fields, then one end with the given message, in call order. A field not given is absent (cancellable in begin is always stated), and into_unbounded drops the percentage from later reports.",
 ["programs", "inputs"], "All builder chains and all report sequences up to a depth, for all four kinds of stream and both token types.",
 "No test covers progress.",
 ["src/service/client/progress.rs"], [("typestate builder", "src/service/client/progress.rs")], observe=["ClientSocket stream"])

prop("C23", "Messages to the client are delivered in order, exactly once",
 "The messages one task sends through a client handle reach the client in the order sent, each exactly once and unmodified, under any backpressure, interleaving with other senders, clones of the handle and responses being written. A send completes only after the message has been accepted for delivery, and a send that is abandoned delivers its message at most once and never blocks or reorders those of others.",
 ["schedules", "programs"], "All interleavings of several tasks sending several messages over clones of the handle, of the consumer reading or lagging, and of sends being dropped.",
 "Unit tests send one message and collect it.",
 ["src/service/client.rs", "src/service/client/socket.rs", "src/transport.rs"],
 [("bounded channel", "src/service/client.rs Client::call"), ("stream of requests", "src/service/client/socket.rs")], observe=["ClientSocket stream; Server::serve stdout"])

prop("C24", "Custom methods behave like built-in ones and cannot replace them",
 "A custom method registered under a name is invoked exactly for messages with that name, as a request or a notification according to its signature, with its params and result converted, and under the same lifecycle, cancellation and error rules as built-in methods. Names are matched exactly; registering a built-in LSP name, initialize, shutdown, exit or $/cancelRequest does not replace the built-in behaviour, and of several registrations of one name the first wins. A result that cannot be converted to JSON is answered with -32603.",
 ["configurations", "inputs", "histories"], "All combinations of registrations (four signatures, colliding and built-in names, both orders) with messages of matching and non-matching kind, name and params, in every lifecycle state.",
 "One test registers one custom request and calls it once.",
 ["src/service.rs", "src/jsonrpc/router.rs"],
 [("entry().or_insert_with", "src/jsonrpc/router.rs Router::method"), ("Normal layer", "src/service.rs custom_method")], observe=["LspService::call"])

prop("C25", "Both runtimes behave identically",
 "For the same input bytes, chunking, output behaviour and handler schedule, a server built with the runtime-agnostic feature invokes the same handlers in the same order and writes the same bytes as one built with the tokio runtime feature, for well-formed and malformed streams alike (streams cut inside a frame and failing I/O excepted).",
 ["configurations", "schedules", "inputs"], "All streams of the other transport properties' alphabets, with every chunking and schedule up to the bound, on both feature sets.",
 "The test suite runs on one feature set at a time and never compares them.",
 ["src/transport.rs", "src/codec.rs"], [("cfg-selected codec traits and framed I/O", "src/codec.rs, src/transport.rs")], observe=["Server::serve stdout bytes and handler events of both builds"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
