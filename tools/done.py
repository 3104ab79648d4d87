DONE["C08"] = ("runtime monitoring: history checker over recorded client wire traffic with a scripted server", "Sampled histories of handshake outcomes, capability sets and operations; sends counted at the transport.")
DONE["C09"] = ("runtime monitoring: end-to-end differential oracle, client calls vs recorded handler calls and wire requests", "Sampled operations, one to six callers, virtual time and real threads.")
DONE["C10"] = ("runtime monitoring: request/response correlation checker with interleaved, abandoned and stray messages", "Sampled interleavings against a scripted peer under virtual time.")
DONE["C11"] = ("runtime monitoring: model-based history checker on every waiter after each step, virtual time and threads", "Sampled histories over two or three connections with colliding ids, and threaded waiters.")
DONE["C12"] = ("runtime monitoring: token-state oracle over recorded histories, concurrent threads and live cancelled handlers", "Sampled histories; threaded runs; server runs with a random subset of running handlers cancelled.")
DONE["C13"] = ("runtime monitoring: timed reference model of pending elicitations under virtual time, plus response/cancel races on threads", "Sampled timed histories, blocked and closed channels, raced answers.")
DONE["C14"] = ("runtime monitoring: model-based history checker over queries and emitted notifications, with concurrent bounds", "Sampled histories; threaded runs with per-client exact views and bounded counts.")
DONE["C15"] = ("runtime monitoring: model-based history checker over listings and emitted notifications", "Sampled histories with repeated URIs, through the manager and the server, and threaded runs.")
DONE["C16"] = ("runtime monitoring: model-based history checker over registries and listener logs", "Sampled histories with colliding names, and threaded runs over disjoint names.")
DONE["C17"] = ("runtime monitoring: timed checker of deliveries against the submission log under virtual time, plus slow-consumer stress on threads", "Sampled configurations and timings; threaded runs with overlapping flushes.")
DONE["C18"] = ("runtime monitoring: timed checker of received streams against the submission log under virtual time, plus thread stress", "Sampled configurations and timings, crowds of undelivered keys; threaded runs.")

DONE["C19"]=("runtime monitoring: reference-log oracle over random store/query/clear/token histories, and offline order/uniqueness/bound checks of logs recorded by concurrent writers", "random histories with capacities 0-200 and ages in whole hours; 8-thread runs")
DONE["C20"]=("runtime monitoring: session-automaton oracle over random histories (with lifecycle-callback log), and race workloads on real threads with invariant, lost-update and exactly-once checkers", "random histories; barrier-started races of 4-9 threads")
DONE["C21"]=("runtime monitoring: session-automaton oracle over raw HTTP histories (status, headers, lifecycle callbacks, handler log), and races of deletions and requests on real threads","random histories over several sessions against a live server on loopback, stateful and stateless")
DONE["C22"]=("runtime monitoring: header/body/version decision oracle over raw HTTP requests, with a handler log proving refused requests ran nothing","generated header, body and version combinations in every server mode")
DONE["C23"]=("runtime monitoring: exactly-once, isolation and replay checkers over recorded streams and replies of several sessions, with streams cut and resumed","random histories plus concurrent crowds and store races on threads")
DONE["C24"]=("runtime monitoring: exactly-once/order/header oracle over requests recorded by a scripted server and messages received, plus concurrent clones and end-to-end runs against the SDK server","random reply kinds, byte splits, statuses, cut and held streams")
DONE["C26"]=("runtime monitoring: exactly-once/order oracle over recorded posts and pushed event streams against a scripted server, including servers that fall silent","random replies, byte splits, statuses and timeouts")
DONE["C35"]=("runtime monitoring: request/result oracle over raw HTTP recorded by a scripted OAuth server with scripted failures","random parameters, replies and failure sequences")

DONE["C27"]=("runtime monitoring: independently written SSE interpreter as oracle over hostile texts under random chunkings, and a render/parse round trip","random field mixes, line ends, byte order marks and splits; not exhaustive")
DONE["C28"]=("runtime monitoring: independently written RFC 6570 reference expansion and reproduction oracle for matching","generated templates over every operator and prefix, generated values and mutated URIs")
DONE["C32"]=("runtime monitoring: context-identity checker over concurrently interleaved nested scopes, and header round-trip oracle with hostile headers","random scope trees on virtual time and threads; random contexts and headers")
DONE["C36"]=("runtime monitoring and sanitizers: guard pages around every buffer and allocation, AddressSanitizer (and Miri in the thorough tier) on the same routines, scalar reference oracle","random buffers around the vector width at both ends of guard pages; 48000 calls under AddressSanitizer, 4800 under Miri")
DONE["C37"]=("runtime monitoring: differential oracle against serde_json over valid, mutated and hostile documents","generated values and mutated texts, typed and untyped, single and batch")

DONE["C25"]=("runtime monitoring: exactly-once/order/closing oracle over messages recorded by a scripted raw WebSocket peer and the transport, in both roles and against each other","random scripts of messages, junk, fragments, pings and five kinds of ending on loopback; 16 connections at a time")
DONE["C29"]=("runtime monitoring: reconnection-automaton oracle over random histories (state, counters, callback log, delays), measured waits under virtual time, and concurrent askers on threads","sequential attempts; finite configurations")
DONE["C30"]=("runtime monitoring: retry-policy oracle with measured waits under virtual time, breaker automaton over random histories in real time, and transition counting for concurrent reports and racing probes","random policies and error sequences; breaker timeouts of milliseconds with undecided windows left open")
DONE["C31"]=("runtime monitoring: visit-log oracle over random chains, failing and modifying middleware, shared by concurrent callers","random chains of up to a dozen members")
DONE["C33"]=("runtime monitoring: credential-table oracle over random histories with a stepped clock, single-use and progress checkers over races on real threads","random histories; barrier-started races and operation storms with a progress deadline")
DONE["C34"]=("runtime monitoring: independently written access decision as oracle over generated credentials and middleware compositions","random credentials, token states, scope sets and composites")
DONE["C38"]=("runtime monitoring: reference filters over item lists and over scratch directory trees as oracle for every completion list","random items, trees, extension filters and partial texts")
DONE["C39"]=("runtime monitoring: report-log oracle over real file operations in scratch trees, with timing judged only while a scheduling pulse is in time, plus floods of changes with and without a waiting receiver","random histories of seven kinds of changes, eight patterns and six ignore rules; floods of up to 2500 files")
DONE["C40"]=("runtime monitoring: a recording subscriber compares every record and span with the scope it was written in, over interleaved tasks; output of initialised child processes against the records due","random scope trees and configurations; the correlation of records above the level of the logger's span is not judged")
DONE["C41"]=("runtime monitoring: run-count, result and elapsed-time oracle over random mixtures of tasks, waits and blocking calls, under virtual time and on threads","random mixtures; upper bounds on waits judged only under virtual time")

DONE["C42"]=("runtime monitoring: end-to-end differential oracle over real sockets and pipes, client operations vs recorded handler calls, sessions and server endings","random operations; up to six clients and four callers each; HTTP in all modes, WebSocket, two processes over stdio")
