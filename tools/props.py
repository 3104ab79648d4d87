import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Wire messages survive an encode/decode round trip unchanged",
"Every request, response and notification of the protocol, with any string or 64-bit integer id and any JSON payload, is encoded as one valid JSON-RPC 2.0 object (version tag, id exactly on requests and responses, method exactly on requests and notifications, exactly one of result and error on responses) and decodes back to a message of the same kind, method, id and content. A request or notification whose parameters are optional is accepted whether the parameters are absent or an empty object, and metadata (`_meta`) added to the parameters of any request or notification does not change what it decodes to; members with a default may be left out. Serialized by themselves, the typed request and notification enums give that method and those params, and read them back. A method name that the protocol does not define is rejected as method-not-found, never decoded as some other message.",
["inputs"],"all message variants x ids x arbitrary (unicode, nested, extreme number) payloads, including absent and empty params","unit tests encode a few fixed samples per message type; ids, unicode, nesting and optional params are not varied together",
["src/shared/stdio.rs","src/shared/protocol_helpers.rs","src/types/jsonrpc.rs","src/types/protocol.rs"],
[("method/params mapping in both directions","src/shared/protocol_helpers.rs"),("message framing codec","src/shared/stdio.rs"),("serde derives of the protocol types","src/types/protocol.rs")],
["StdioTransport::serialize_message / parse_message","parse_request / create_request / parse_notification / create_notification"])

p("C02","Undecodable input is rejected without panicking or being misread",
"Any byte sequence given to the message decoders produces either a message or an error, never a panic, and a JSON object is decoded as a request only if it has a method and an id, as a notification only if it has a method and no id, and as a response only if it has an id and a result or an error. Text that is not valid JSON, or a valid JSON value of none of these shapes, is an error.",
["inputs"],"all byte strings: random bytes, mutated and truncated valid messages, deep nesting, wrong field types","tests feed a handful of malformed strings; the input space is unbounded",
["src/shared/stdio.rs","src/types/jsonrpc.rs","src/shared/protocol_helpers.rs","src/shared/batch.rs"],
[("shape dispatch on method/id/result/error","src/shared/stdio.rs parse_message"),("raw message classification","src/types/jsonrpc.rs"),("batch decoding","src/shared/batch.rs")],
["StdioTransport::parse_message","RawMessage classification","BatchRequest::from_value","panic hook"])

p("C03","Stdio framing delivers every message once, in order, however bytes arrive",
"A process speaking over standard input and output receives exactly the sequence of messages whose length-prefixed frames were written to its input, however the bytes are split into reads, and writes exactly one well-formed frame (correct byte length, then that many bytes) per message sent. A malformed header, a length that is not the body's, an unparsable body or end of input yields an error to the receiver rather than a panic, an abort or a fabricated message. After closing, sending and receiving report the connection closed.",
["inputs","schedules","fault_sequences"],"all frame sequences x byte-chunk boundaries x truncation points x header mutations (missing, duplicate, huge, negative, non-numeric lengths)","in-process tests cannot drive the real stdin/stdout and only check the codec functions",
["src/shared/stdio.rs"],[("header parsing and exact-length body read","src/shared/stdio.rs"),("closed flag","src/shared/stdio.rs")],
["child process stdin/stdout byte streams","message log of the child"])

p("C04","Errors keep their code and message across the wire",
"Converting any SDK error to a JSON-RPC error object keeps a protocol error's code, message and data, and maps every other error to the internal-error code with its text in the message; reading an error response yields an error with the same code, message and data. Every defined error code converts to its integer and back to itself, and codes outside the reserved server range are preserved.",
["inputs"],"all error variants, all 32-bit codes, arbitrary message/data","tests cover a few codes",
["src/error/mod.rs","src/types/jsonrpc.rs","src/client/mod.rs"],
[("code table","src/error/mod.rs"),("conversion to wire error","src/types/jsonrpc.rs"),("conversion from wire error","src/error/mod.rs")],
["JSONRPCError::from(Error)","Error::from_jsonrpc_error","ErrorCode::from_i32"])

p("C05","The server answers each request exactly once, with its id and own result",
"For every sequence of requests a server produces exactly one response per request, carrying that request's id, and a call to a registered tool, prompt or resource handler runs that handler exactly once with exactly the arguments the request carried and returns what the handler returned, or an error response with the handler's error text if it failed. A request naming an unknown tool or prompt, or a kind of handler the server lacks, gets an error response and runs no handler; listings return exactly the registered names, each once. No request, failing handler or other client's request changes the response to another; after an initialization the server reports the client's capabilities as announced.",
["histories","inputs","schedules"],"all request sequences (every method, valid and invalid params, failing handlers) through both the batch entry point and a live connection","tests send one or two requests to one handler",
["src/server/mod.rs","src/server/batch.rs"],
[("request dispatch","src/server/mod.rs handle_request"),("per-request response construction","src/server/mod.rs"),("handler registries","src/server/mod.rs ServerBuilder")],
["Server::handle_batch_request","responses on the transport under Server::run","handler invocation log"])

p("C06","A running server outlives bad messages and stops when its connection closes",
"While a connection is open, a message the server cannot decode, an unexpected response or an unknown notification does not stop it: every valid request received afterwards is still answered, in order. Only responses to its requests are sent. When the connection closes the serving call returns.",
["fault_sequences","schedules","histories"],"all interleavings of valid requests, undecodable messages, unsolicited responses and notifications, with close at any point","tests never inject a bad message into a live server, nor close its connection",
["src/server/mod.rs","src/shared/transport.rs"],
[("receive loop","src/server/mod.rs spawn_message_handler"),("notification sender task","src/server/mod.rs")],
["messages crossing the transport given to Server::run","completion of Server::run"])

p("C07","Batches return one correctly addressed response per request, in order",
"Processing a batch yields exactly one response per request, in request order, each carrying its own request's id, whatever order the requests finish in; a request that exceeds the configured time limit gets an error response with its own id and does not affect the others. As many requests as the configured limit allows, and no more, run at once, every request is handed to the handler exactly once, and the processor's metrics count each response once as success, error or timeout and keep a finite average and the longest processing time. An empty batch yields an empty list.",
["inputs","schedules","configurations"],"all batch sizes x per-request latencies (virtual time) x concurrency limits x time limits x duplicate ids","tests use 2-5 requests with fixed delays and never time one out",
["src/utils/parallel_batch.rs","src/shared/batch.rs","src/server/batch.rs"],
[("indexed join","src/utils/parallel_batch.rs"),("semaphore","src/utils/parallel_batch.rs"),("per-request timeout","src/utils/parallel_batch.rs"),("metrics","src/utils/parallel_batch.rs BatchProcessor")],
["process_batch_parallel","BatchProcessor","process_batch_request","handler start/stop log under virtual time"])

p("C08","The client never sends what the handshake has not allowed",
"Before a successful initialization every client request fails without sending anything; after it, an operation whose capability the server did not announce fails with an unsupported-capability error without sending anything, while an announced capability lets the operation send its request. A server answering with a protocol version the SDK does not support makes initialization fail and leaves the client uninitialized; a successful one sends the initialized notification exactly once, after the response; and a second initialization is refused.",
["histories","configurations"],"all operation sequences x server capability sets x protocol versions x handshake failures","tests check a few capabilities with one canned server",
["src/client/mod.rs"],[("initialized gate","src/client/mod.rs ensure_initialized"),("capability gate","src/client/mod.rs assert_capability"),("version check","src/client/mod.rs initialize")],
["every message handed to the transport","operation results"])

p("C09","A client call through a server equals calling the handler directly",
"For every client operation against an SDK server, the server-side handler receives exactly the parameters the application passed to the client, and the application receives exactly what the handler produced, or an error carrying the handler's error message; each client call causes exactly one request on the wire with a fresh id. A cancellation or progress report the client sends reaches the wire exactly once, as given.",
["inputs","histories"],"all client operations with arbitrary arguments and handler results, over an in-memory duplex connection that re-encodes every message","tests check fixed round trips of a few operations against mocks",
["src/client/mod.rs","src/server/mod.rs","src/types/protocol.rs"],
[("request construction","src/client/mod.rs"),("dispatch and result encoding","src/server/mod.rs"),("result decoding","src/client/mod.rs")],
["application-visible results","handler argument log","wire log"])

p("C10","A client caller only ever receives the response to its own request",
"Whatever other messages arrive in between and whatever order the peer answers in, each client call completes with the response whose id equals its request's id, and no call completes with another call's response, not even that of a call given up or cancelled before. Notifications that arrive while a call is waiting do not make it fail.",
["schedules","histories"],"concurrent calls on cloned clients x reordered responses x interleaved notifications x stale responses","client tests are strictly one call at a time with canned in-order answers",
["src/client/mod.rs"],[("response wait","src/client/mod.rs send_request")],["per-call request id on the wire vs result delivered"],
[("active requests","ids awaiting a response","src/client/mod.rs")])

p("C11","A pending request is completed once, only by its own id and connection",
"A registered pending request's waiter receives the response delivered for its id on its connection, exactly once; a response for an id never registered, already completed, already cancelled or belonging to another connection is ignored (or reported as not delivered) and disturbs no waiter; cancelling a request ends its wait without a response. No other operation affects an unrelated pending request.",
["histories","schedules"],"all interleavings of register/complete/complete-for-connection/cancel over many ids and connections, including id reuse","tests walk a few fixed sequences",
["src/shared/protocol.rs"],[("pending table keyed by id with connection check","src/shared/protocol.rs")],["receiver outcomes","return values"],
[("pending requests","id -> (connection, waiter)","src/shared/protocol.rs")])

p("C12","Cancelling a request cancels that request's token and nothing else",
"After cancellation of a known request its token, and every clone of it, reports cancelled and exactly one cancelled notification naming that request and reason is emitted; cancelling an unknown or finished request emits nothing and changes nothing. No operation on one request changes another request's token, and clearing cancels every outstanding token.",
["histories","schedules"],"all sequences and concurrent interleavings of create/cancel/remove/clear over many ids","tests cancel a single token",
["src/server/cancellation.rs","src/server/mod.rs"],[("token map","src/server/cancellation.rs"),("notification sender","src/server/cancellation.rs")],["token state","emitted notifications"])

p("C13","Each elicitation ends exactly once, with its own answer",
"Every input elicitation sends exactly one request, holding what it was built with, and ends exactly once: with the response bearing its id, or with cancellation, or with a timeout error no later than the configured timeout; starting one under an id still pending is refused; a response for an unknown or finished elicitation is rejected and delivered to nobody. After it ends, or its caller gives it up, nothing remains pending for it, and no elicitation's end affects another.",
["histories","schedules","fault_sequences"],"all interleavings of starts, responses (late, duplicate, unknown), cancels, cancel-all and timeouts under virtual time","tests run one elicitation each for success, cancel and timeout",
["src/server/elicitation.rs"],[("pending map with oneshot per id","src/server/elicitation.rs"),("timeout","src/server/elicitation.rs")],["elicit_input results","sent requests","pending count"])

p("C14","Resource updates reach a subscriber set that matches history",
"At every point the subscribers of a resource are exactly those whose last operation on it was subscribing; an update of a resource reports that number and emits exactly one update notification for that resource if the number is positive and none otherwise. Removing a client removes it from every resource, and the reported listings and statistics agree with the same history.",
["histories","schedules"],"all sequences and concurrent interleavings of subscribe/unsubscribe/unsubscribe-all/notify/query over many resources and clients","tests use one or two subscribers",
["src/server/subscriptions.rs","src/server/mod.rs"],[("subscription map","src/server/subscriptions.rs"),("server entry points","src/server/mod.rs")],["return values","emitted notifications","query results"])

p("C15","Registered roots are exactly those registered and not yet unregistered",
"Only file URIs are accepted as roots; the listing always contains, in registration order, exactly the roots registered and not unregistered, with the names given; and each successful registration or removal emits one roots-changed notification while rejected or repeated ones emit none.",
["histories","inputs"],"all sequences of register/unregister/list with arbitrary URIs","tests register and remove a single root",
["src/server/roots.rs","src/server/mod.rs"],[("root list","src/server/roots.rs"),("unregister guard","src/server/roots.rs")],["listing","emitted notifications"])

p("C16","Runtime registration changes are visible exactly and announced",
"After any sequence of adding, removing and reloading tools, prompts and handlers at run time, the registry contains exactly those added and not removed since (the last added one under each name), removing an absent name is an error that changes nothing, and built-in names remain known. Every capability listener is called once per successful addition or removal, with capabilities reflecting it, and learns of every kind of handler a reload brings in.",
["histories","schedules"],"all operation sequences over several names, with concurrent callers","tests add and remove one tool",
["src/server/dynamic.rs"],[("dynamic registries","src/server/dynamic.rs"),("capability listeners","src/server/dynamic.rs")],["get_dynamic_tools/has_tool etc.","listener log"])

p("C17","Debounced notifications lose no final state and duplicate nothing",
"For each kind of notification and key, after activity stops the last notification submitted is delivered exactly once within the maximum wait and nothing else follows; until its key has been quiet for its type's interval or the maximum wait has passed, a notification is held back; notifications of different keys never replace each other, and a key's deliveries are a subsequence of its submissions in order. With batching, every notification submitted is delivered exactly once, in order within its key, and no delivered batch exceeds the configured size. Flushing or stopping delivers everything outstanding, once.",
["schedules","histories","configurations"],"all submission timings (virtual time) x kinds/keys x intervals x maximum waits x batch sizes x flush/stop points","tests submit two or three notifications and sleep",
["src/server/notification_debouncer.rs"],[("pending map with first/last times","src/server/notification_debouncer.rs"),("periodic flush","src/server/notification_debouncer.rs"),("batcher timers","src/server/notification_debouncer.rs")],["delivered notifications vs submission log under virtual time"])

p("C18","Batched messages arrive once, in order; debounced ones keep the latest",
"Every message put into the batcher comes out in exactly one batch, in submission order, no batch larger than the configured size and, once the timer runs, none withheld longer than the configured wait. For the debouncer, once submissions under a key pause for the configured wait the most recent one is delivered exactly once, an older one never after a newer one, and keys do not interfere; a flush returns exactly what is still pending, which is then not delivered again.",
["schedules","histories","configurations"],"all submission timings (virtual time, and real threads) x sizes x waits x flush points","tests check one batch and one debounce",
["src/utils/batching.rs"],[("pending buffer and timer","src/utils/batching.rs")],["receiver streams vs submission log"])

p("C19","The event log replays exactly the retained suffix after a given event",
"The event store holds the most recent events up to its limits in storage order, and asking for events after a stored event returns exactly the later retained ones in order, up to the requested count. Resuming with a resumption token returns exactly the events recorded after the token's position for its session, an unknown token is refused, and sequence numbers handed out by one manager never repeat or go backwards.",
["histories","configurations","schedules"],"all sequences of store/query/clear/token operations x capacity limits","tests store a few events",
["src/shared/event_store.rs"],[("bounded queue","src/shared/event_store.rs InMemoryEventStore"),("sequence counter and tokens","src/shared/event_store.rs ResumptionManager")],["query results vs reference log"])

p("C20","Sessions stay within their limit, expire, and are never lost or revived",
"Live sessions never exceed the configured maximum, ids are unique, an expired or destroyed session is never accepted or brought back, and validation succeeds exactly for live sessions. Concurrent updates, authentications and reads lose no update: a read after a completed update sees it, and reading a session never undoes a concurrent change to it; a session renewed before it was removed as expired is kept, and only an explicit update moves its expiry time (reading or validating does not). The session middleware hands a handler only a live, unexpired session named by the request's cookie or header. The creation, destruction and expiry callbacks run exactly once per such event.",
["schedules","histories","configurations"],"all sequential histories against a model, plus multi-threaded races of create/get/update/authenticate/destroy/cleanup","tests are sequential",
["src/shared/session.rs"],[("concurrent map of sessions","src/shared/session.rs SessionManager"),("expiry check","src/shared/session.rs")],["return values of concurrent operations, final state"],
[("sessions","id -> session","src/shared/session.rs")])

p("C21","HTTP sessions follow one lifecycle: created, used, deleted, then unknown",
"In stateful mode initialization without a session id creates a fresh session, returns its id and reports it once; a second initialization of it is refused with 400; any other message without a session id is refused with 400, and every message (initialization included) with an unknown or deleted one with 404, running no handler; an event stream opened without a session id starts a session of its own; deletion of a live session succeeds once, ends it and its stream and reports it once. In stateless mode no session id is issued or required and event streams are refused with 405.",
["histories","schedules","configurations"],"all request histories over many sessions against a session-automaton model, sequential and concurrent, stateful and stateless","tests check single steps",
["src/server/streamable_http_server.rs"],[("session table","src/server/streamable_http_server.rs"),("session checks on POST/GET/DELETE","src/server/streamable_http_server.rs")],["raw HTTP status, headers, callbacks, handler log"])

p("C22","HTTP requests violating content or version rules never reach a handler",
"A POST whose content type is not JSON is refused with 415, one whose accept header names neither JSON nor event streams with 406, a GET not accepting event streams with 406, an undecodable body with 400, an unsupported or session-mismatching protocol version on a POST that is no initialization with 400; none of these runs a handler or creates a session. Every accepted request is answered with the negotiated protocol version header, an accepted notification with 202, and both standard JSON-RPC bodies and the SDK's own id-and-request form are understood.",
["inputs","configurations"],"all header combinations (case, parameters, multiple values, missing, invalid bytes) x bodies x versions x modes","tests check single bad headers",
["src/server/streamable_http_server.rs"],[("header validation","src/server/streamable_http_server.rs validate_headers"),("version validation","src/server/streamable_http_server.rs validate_protocol_version"),("body decoding","src/server/streamable_http_server.rs handle_post_request")],["raw HTTP responses, handler log"])

p("C23","HTTP results go to the requesting session only, once, and can be resumed",
"Each request's response is delivered exactly once, either in its own POST reply or on the event stream of the session that sent it, and never to another session. A session may have one live event stream (a second is refused with 409) and can open a new one after the old one disconnects; a stream resumed after an event replays, in order and under the same event ids, exactly that session's later stored events and no other session's.",
["histories","schedules","fault_sequences"],"many concurrent sessions x streams opened, dropped and resumed at any point x interleaved requests","tests use one session and never reconnect",
["src/server/streamable_http_server.rs"],[("stream table","src/server/streamable_http_server.rs"),("event store replay","src/server/streamable_http_server.rs InMemoryEventStore")],["raw HTTP bodies and SSE events per session"])

p("C24","The HTTP client transport delivers every server message once, in order",
"Every message in a server's JSON reply (single or list) or event-stream reply is delivered to the receiver exactly once and in order, messages of an event stream as soon as they arrive, and the session id and protocol version the server returned are sent on every later request together with the configured headers and credentials. Each message sent becomes exactly one POST with JSON body and headers announcing JSON and event streams; an error status or undecodable reply makes the send fail and delivers nothing, an accepted-with-no-body status does not; event ids are remembered for resumption, starting an event stream or closing ends the one started before, and closing deletes the session at most once.",
["inputs","histories","fault_sequences"],"all scripted server behaviours: statuses, reply kinds, SSE event shapes, header presence, malformed bodies","tests use one well-behaved server",
["src/shared/streamable_http.rs"],[("reply handling","src/shared/streamable_http.rs"),("header propagation","src/shared/streamable_http.rs")],["raw requests seen by a scripted server, messages received"])

p("C25","WebSocket connections carry every message, in order, until closed",
"Every message sent on an open WebSocket connection, in either role, arrives at the peer exactly once and in order; frames that are not valid messages are skipped without ending the connection, pings are answered, and a message or frame larger than the server's configured limits is never delivered and ends the connection. Closing or dropping the transport delivers what was sent before and ends the connection at the peer; after the peer closes, receiving reports an error rather than waiting forever, and without a connection sending and receiving are errors; a new connection replaces the earlier one, which delivers what was sent on it and ends. Connecting gives up after the configured number of attempts, and asking whether there is a connection answers at once and truthfully after connecting and closing.",
["histories","schedules","fault_sequences"],"all interleavings of messages, garbage, ping, fragmentation and close from both sides","tests exchange one message",
["src/server/transport/websocket.rs","src/shared/websocket.rs"],[("reader/writer tasks and channels","src/server/transport/websocket.rs, src/shared/websocket.rs")],["messages received by a raw WebSocket peer and by the transport"])

p("C26","The HTTP+SSE client delivers replies and pushed events intact and in order",
"Each message posted yields exactly the reply message of its own POST; every event pushed on the event stream is delivered as one message with its text intact, in order, however the bytes of the stream are split, including inside multi-byte characters. Error statuses, undecodable replies and replies not complete within the timeout are reported as errors and deliver nothing, undecodable events are skipped without ending the stream, and every request carries the configured headers. The transport says that it is connected as long as its event stream is open, and no longer once closed.",
["inputs","schedules","fault_sequences"],"all replies and event sequences x byte-split points x error statuses","tests never connect to a server",
["src/shared/http.rs"],[("POST reply decoding","src/shared/http.rs"),("SSE reader","src/shared/http.rs")],["raw scripted server vs messages received"])

p("C27","The event-stream parser follows the SSE rules for any input and chunking",
"For any text, the events produced are exactly those the server-sent-events format defines (fields, multi-line data, comments, ids, retry, byte order mark, and CR, LF and CRLF line ends) and do not depend on how the text is split into chunks; no input makes the parser panic. An event rendered to text and parsed again yields the same event, with no field able to smuggle in another.",
["inputs"],"all texts (hostile, unicode, mixed line ends) x all chunkings","tests use a dozen fixed strings",
["src/shared/sse_parser.rs"],[("incremental line parser","src/shared/sse_parser.rs")],["event sequence vs an independent reference parser"])

p("C28","URI templates expand per RFC 6570 and match what they expand",
"Expanding a template with string values gives the RFC 6570 result for every operator and prefix length, with undefined variables omitted; reserved characters in simple expansions are percent-encoded so a value cannot introduce delimiters. Matching a URI against a template either fails or returns values that reproduce it, a URI produced from delimiter-free values matches with those values, and malformed templates are errors, never panics.",
["inputs"],"all templates over all operators/modifiers x values (unicode, reserved, empty, long) x candidate URIs","tests check a few RFC examples",
["src/shared/uri_template.rs"],[("template parser","src/shared/uri_template.rs"),("expansion","src/shared/uri_template.rs"),("regex matching","src/shared/uri_template.rs")],["expand/match_uri/variables vs reference"])

p("C29","Reconnection respects its retry limit, delays, circuit breaker and switch",
"For callers that attempt one after the other, reconnecting stops at the first success or when the configured number of attempts has failed, waits between attempts a delay that grows by the configured factor up to the maximum (plus or minus the jitter), and never attempts while disabled, connected or while its circuit is open (reporting a lost connection does not bypass an open circuit). The circuit opens exactly when consecutive failures have reached the threshold and re-allows attempts only after its timeout, and then closes once however many callers ask at the same time. Callbacks and counters record each attempt, success, failure and circuit change exactly once.",
["histories","configurations","schedules"],"all outcome sequences x configurations against a reference automaton, under virtual time","tests check two or three transitions",
["src/shared/reconnect.rs"],[("state machine and counters","src/shared/reconnect.rs")],["attempt/callback log, delays, stats"])

p("C30","Error recovery retries, falls back and breaks circuits as configured",
"An operation that fails is retried at most the number of times its error's strategy allows, with the configured delays, stopping at the first success and otherwise returning the last error; fail-fast never retries, and a fallback runs exactly once and supplies the result. A circuit breaker opens after the configured consecutive failures, admits nothing until its timeout (not even when an operation admitted before succeeds late), then closes after the configured successes or reopens on a failure; concurrent reports and probes never lose or add a transition, and an operation behind a breaker runs at most once per call and not at all while it is open.",
["histories","configurations"],"all outcome sequences x strategies x thresholds against a reference automaton","tests check single transitions",
["src/error/recovery.rs"],[("retry loops","src/error/recovery.rs"),("circuit breaker","src/error/recovery.rs")],["operation invocation log with virtual timestamps, allow_request results"])

p("C31","Middleware runs in registration order and stops at the first error",
"For any chain, each message kind visits every middleware exactly once in the order added, each seeing the modifications of those before it; when one fails, none after it runs and its error is returned unchanged. Built-in logging and authentication middleware never alter or reject a message.",
["inputs","configurations"],"all chain lengths x failure positions x mutation patterns x hooks","tests use a chain of one or two",
["src/shared/middleware.rs"],[("sequential chain","src/shared/middleware.rs")],["hook invocation log, message after processing"])

p("C32","Request context follows its task and survives header transport",
"Code running inside a context scope sees exactly that scope's context, nested and concurrent scopes never see each other's, and outside there is none. Injecting a context into headers and extracting it preserves trace, user, session, baggage and request id (an integer, or text that is not a number) and makes the sender's span the parent, as a child context does, which keeps all the rest; extraction from arbitrary headers returns a context or nothing and never panics.",
["inputs","schedules"],"all header maps (hostile, non-ASCII), ids and baggage x concurrently interleaved scopes","tests do one round trip",
["src/shared/context.rs"],[("task-local context","src/shared/context.rs"),("traceparent encoding","src/shared/context.rs")],["current() inside tasks, from_headers(to_headers())"])

p("C33","OAuth codes and tokens are single-use, bound, revocable and never deadlock",
"An authorization code yields a token at most once and only to the client (a wrong presented secret is refused), redirect URI and PKCE verifier it was issued for; a refresh token yields new tokens at most once, replacing the old access token; a token validates exactly while issued, unexpired and neither revoked (by its access or refresh token) nor refreshed away, with the client, user and scopes it was issued with. An authorization request is valid exactly for a registered client, one of its redirect URIs and response types, and scopes that are both supported and allowed to the client. Clients, requests, tokens, errors and metadata have the JSON forms of RFC 6749, 7591 and 8414, absent members left out. This holds under concurrent use, and no combination of concurrent operations blocks forever.",
["schedules","histories"],"all sequential histories against a model, plus concurrent exchange/refresh/revoke/validate races on real threads","the test walks one happy path sequentially",
["src/server/auth/oauth2.rs"],[("code, token and refresh tables","src/server/auth/oauth2.rs InMemoryOAuthProvider"),("PKCE check","src/server/auth/oauth2.rs")],["operation results; progress of concurrent operations"],
[("codes / tokens / refresh_tokens","live credentials","src/server/auth/oauth2.rs")])

p("C34","Access is granted only with valid credentials and sufficient scope",
"Bearer authentication succeeds exactly when the presented scheme is bearer and the token validates, yielding that token's identity and scopes (and, when optional, an anonymous context without scopes only if no credentials were presented); client-credential authentication exactly when id and secret match a registered client. Scope requirements admit exactly contexts holding all, or any, of the required scopes, and combinations admit exactly when a member does, in order.",
["inputs","configurations"],"all credential shapes x token states x scope sets x middleware compositions against a reference decision","tests check a few combinations",
["src/server/auth/middleware.rs","src/client/mod.rs","src/types/auth.rs"],[("bearer / client-credentials / scope / composite checks","src/server/auth/middleware.rs")],["authenticate results vs reference"])

p("C35","OAuth client calls send exactly the given parameters and report failures",
"Token exchange and refresh send one form POST holding exactly the given parameters, with basic authentication exactly when a secret is given, and return the server's token fields unchanged; discovery requests the well-known document of the issuer and returns it. An error status, undecodable reply or unreachable server is reported as an error; discovery is attempted again, after the configured delay, exactly when the server could not be reached, and never more often than configured (but at least once).",
["inputs","fault_sequences"],"all parameter strings (reserved and non-ASCII characters) x scripted server replies and failures","tests never contact a server",
["src/client/auth.rs"],[("form encoding","src/client/auth.rs"),("retry loop","src/client/auth.rs")],["raw HTTP requests at a scripted server, results"])

p("C36","Vectorised byte routines equal their scalar definition and stay in bounds",
"For every input the vectorised search, UTF-8 validation, copy, base64, masking, run-length, pattern, length-check and checksum routines return exactly what the plain byte-by-byte definition gives, terminate, and read and write only inside the buffers they were given.",
["inputs"],"all lengths around the 32-byte vector width x alignments x byte patterns, under AddressSanitizer with exact-size heap buffers and against scalar references","tests use one short input per routine, mostly under 32 bytes",
["src/simd/mod.rs"],[("AVX2 kernels","src/simd/mod.rs")],["results vs scalar reference; sanitizer reports"])

p("C37","The fast JSON paths agree with standard JSON parsing",
"The fast parser accepts exactly the documents the standard parser accepts and returns the same value (typed or untyped, single or batch), and the fast pretty-printer and serializer output text that parses back to the same value (printed with two spaces per level of nesting); none of them panics on any input.",
["inputs"],"all JSON texts (whitespace-heavy, unicode, escapes, numbers, invalid) and values","tests parse a few small documents",
["src/utils/json_simd.rs"],[("whitespace preprocessing","src/utils/json_simd.rs"),("pretty printer","src/utils/json_simd.rs")],["results vs serde_json"])

p("C38","Completions return exactly the candidates matching the partial input",
"Static completion returns, in order, exactly the items whose value or label starts with the partial text; file completion returns, sorted and once each, exactly the entries of the directory addressed by the partial text whose names start with what follows its last separator, all directories but only files with an allowed extension. Neither fails or panics for any partial text, and a completable argument keeps its definition over the wire.",
["inputs","configurations"],"all item sets and partial texts; generated directory trees x extension filters x relative and absolute partials","tests use three static items",
["src/types/completable.rs"],[("prefix filters","src/types/completable.rs")],["completion lists vs reference computed from the tree"])

p("C39","File watching notifies about exactly the watched resources that change",
"After a change to a (not hidden) file under the watched directory that matches the patterns, is not ignored and has been registered as a resource, one update for its URI is reported once the debounce period has passed since its last change, repeated changes within the period are reported once, and a burst of changes to many files loses none; changes to unregistered, ignored or unmatched files are never reported. When start returns successfully changes are already watched, it fails when they cannot be, and after stop nothing more is reported and the watcher can be started again. Registering and removing resources never waits for reports to be taken.",
["histories","schedules","configurations"],"generated sequences of file changes in a scratch tree x patterns x ignore rules x registrations","tests only construct the watcher",
["src/server/resource_watcher.rs"],[("pattern filter","src/server/resource_watcher.rs"),("debounced event loop","src/server/resource_watcher.rs")],["notifications emitted vs file operations performed"])
p("C40","Log records carry their own request's identity and obey the configuration",
"A log entry, correlated logger or span made inside a request's scope carries exactly that request's request, trace, span, user and session ids (none outside every scope), wherever and however interleaved it is written, and keeps the level, message, fields and error given to it. Initialised logging writes, once each and in order, exactly the records at or above the configured level, in the configured format with timestamps, source locations and custom fields as configured, to standard error so that a stdio transport's stream stays clean. Initialising it again is refused with an error.",
["inputs","schedules","configurations"],"random scope trees over interleaved tasks x entries, loggers and macros; child processes x levels x formats x options","tests build one entry and one logger",
["src/shared/logging.rs"],[("entry population","src/shared/logging.rs LogEntry::new"),("correlation layer","src/shared/logging.rs"),("initialisation","src/shared/logging.rs init_logging")],["records and spans seen by a recording subscriber, standard output and error of child processes"])

p("C41","Runtime helpers run everything started once, wait long enough, block nobody",
"A task started through the runtime helpers runs exactly once to its end although nobody waits for it, and starting it does not run it in its starter's place; a blocking call runs exactly once beside the other tasks without holding them up, even if its handle is dropped, and its handle yields its result, or an error if it panicked. A wait through the helpers lasts at least the given time, and under an idle runtime no longer than the timer's resolution beyond it. The millisecond timestamp is the wall clock's.",
["schedules","histories"],"random mixtures of tasks, waits, blocking calls, panics and dropped handles under virtual time, on one thread and on several","tests start one task and sleep once",
["src/shared/runtime.rs"],[("tasks, blocking calls and waits","src/shared/runtime.rs")],["run counts, handle results, elapsed virtual and real time"])

p("C42","SDK clients and servers work together over every transport they share",
"Connected over standard input and output, a WebSocket or streamable HTTP (with or without sessions, answering as JSON or as event streams), an SDK client and an SDK server understand each other: initialization succeeds and each client operation runs the server's handler exactly once with exactly the parameters given and yields exactly what the handler produced, or its error. Several callers of one client, and several clients of one HTTP server at the same time, never receive each other's answers; with sessions each client gets its own, ended when it closes. When its client leaves, a server on standard input and output or on a WebSocket finishes serving.",
["inputs","schedules","configurations"],"random operations of one or several clients and callers over each transport and server mode, in process and between two processes","tests exercise each transport alone, with a ping or one tool call",
["src/client/mod.rs","src/server/mod.rs","src/server/streamable_http_server.rs","src/shared/streamable_http.rs","src/server/transport/websocket.rs","src/shared/websocket.rs","src/shared/stdio.rs"],
[("client operations","src/client/mod.rs"),("serving loop","src/server/mod.rs"),("HTTP ends","src/server/streamable_http_server.rs"),("WebSocket ends","src/shared/websocket.rs"),("stdio end","src/shared/stdio.rs")],
["recorded handler calls, results of every client operation, sessions opened and closed, end of the serving call"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
