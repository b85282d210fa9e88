#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here because JSON lines are hard to edit by hand)."""
import json, os
S="opsqueue/src/"
def P(id,title,statement,over,qt,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=S+w) for n,m,w in state],observe_at=list(obs),hook_needed=None))
SUB="common/submission.rs"; CH="common/chunk.rs"; DISP="consumer/dispatcher/mod.rs"; RES="consumer/dispatcher/reserver.rs"
META="consumer/dispatcher/metastate.rs"; STR="consumer/strategy.rs"; CONN="consumer/server/conn.rs"; CSRV="consumer/server/mod.rs"
CST="consumer/server/state.rs"; PSRV="producer/server.rs"; PCL="producer/client.rs"; CCL="consumer/client.rs"; OS="object_store/mod.rs"
DB="db/mod.rs"; TR="tracing.rs"; PR="prometheus.rs"; SRV="server.rs"
TABLES=[("submissions*","one table per status; the row's table is the submission's status",SUB),("chunks / chunks_completed / chunks_failed","where each chunk currently is",CH)]
L=[
P("P01","Every chunk of a submission is accounted for exactly once",
 "At every durable moment each chunk of a known submission is in exactly one place: still to do, done, or failed/skipped, and no chunk belongs to an unknown submission. A submission in progress reports a done-count equal to the number of its chunks that were completed, and its to-do chunks plus its done-count equal its total. (Removal of old finished records by cleanup is the only way a record disappears.)",
 ["histories","schedules","fault_sequences"],"every sequence and interleaving of insert, complete, fail, cancel and cleanup, by any number of consumers, including duplicate reports and failed transactions",
 "The tests run a few hand-written sequences on one connection and look at one table; they cannot cover every interleaving of reports and cancellations, nor the states visible at every commit.",
 [SUB,CH],[("move of a chunk between tables and counter update in one transaction",CH),("skipping of the remaining chunks when a submission ends",CH),("refusal to count a chunk that is no longer there",CH)],TABLES,["tables after every commit","producer status endpoint"]),
P("P02","A submission has one status at a time and finished statuses are final",
 "From the moment it is inserted until it is cleaned up, a submission has exactly one of the statuses in progress, completed, failed, cancelled. Once it is completed, failed or cancelled it never becomes anything else, whatever is reported or requested later. Its identity, chunk total and descriptive data never change.",
 ["histories","schedules","crash_points"],"every history of inserts, reports, cancellations, cleanups and restarts",
 "Tests check single transitions; finality is a statement about every later operation in every order.",
 [SUB,CH],[("move between status tables in one transaction",SUB)],TABLES,["producer status endpoint","tables after every commit"]),
P("P03","A submission completes exactly when its last chunk has been completed",
 "A submission becomes completed in the same atomic step in which the last of its chunks is completed, and never before all of its chunks have been completed. A submission without chunks is completed as soon as it has been inserted. No submission stays in progress with nothing left to do.",
 ["histories","schedules","crash_points","fault_sequences"],"every order and interleaving of completion reports, duplicates, failures and crashes",
 "Tests complete one or two chunks in order, without crashes, duplicates or competing reports.",
 [SUB,CH],[("completion check inside the transaction that completes the chunk",CH),("immediate completion of empty submissions",SUB)],TABLES,["producer status endpoint","tables after every commit"]),
P("P04","A chunk is retried up to the limit and then fails its whole submission",
 "Each failure report for a chunk that is still to do raises its retry count by exactly one and leaves it available until the configured limit of failures is reached. The report that reaches the limit atomically turns the submission into a failed one that names that chunk, its input and that failure text, marks every other unfinished chunk as skipped, and keeps the completed chunks and the done-count. No submission fails before some chunk has used up all its retries.",
 ["histories","configurations","schedules"],"every history of failure and completion reports, for every retry limit",
 "Tests try one retry limit and one failing chunk; they do not enumerate limits, orders, or failures mixed with completions and cancellation.",
 [CH,SUB,CSRV],[("retry counter and permanent failure in one transaction",CH),("failing a submission",SUB)],TABLES,["producer status endpoint","tables after every commit","consumer protocol"]),
P("P05","Cancelling stops an unfinished submission and is refused otherwise",
 "Cancelling a submission that is in progress succeeds and atomically makes it cancelled with none of its chunks left to do, keeping its done-count and completed chunks; from then on none of its chunks is handed out. Cancelling a submission that is completed, failed or already cancelled is refused with an answer that says which of these it is, and cancelling an unknown one is answered with not found; both change nothing.",
 ["histories","schedules","inputs"],"every history and every moment of cancellation relative to reservations, reports and other cancellations",
 "Tests cancel in a handful of fixed situations and never while chunks are being reserved or reported concurrently.",
 [SUB,PSRV],[("cancellation transaction",SUB),("mapping of refusals to HTTP answers",PSRV)],TABLES,["producer cancel and status endpoints","consumer protocol","tables after every commit"]),
P("P06","Every operation is all-or-nothing, durable, and survives a crash or restart",
 "Whatever write fails and wherever the server is killed, the stored state is one that results from whole operations: an insertion, completion, failure, cancellation or cleanup has either happened completely or not at all. Everything that was acknowledged to a producer before a crash is still there afterwards, and after a restart the stored work can be finished normally.",
 ["crash_points","fault_sequences"],"every commit boundary of every operation, and kills at arbitrary moments under load",
 "Tests never fail a write or kill the server.",
 [SUB,CH,DB],[("transactions on the single writer connection",DB),("journal and synchronous settings",DB)],TABLES,["database reopened after an injected failure or kill"]),
P("P07","Duplicate, late and unknown reports change nothing",
 "A completion or failure report for a chunk that is no longer to do (already completed, failed, skipped, cancelled, cleaned up) or that never existed changes no stored data and no count, and does not stop later reports from being processed.",
 ["histories","inputs","schedules"],"every report about every chunk id in every reachable state",
 "Tests report one chunk twice at most; the claim is about any report in any state.",
 [CH,CSRV],[("early return when the chunk row is not there",CH),("completer that logs and goes on",CSRV)],TABLES,["tables after every report","consumer protocol"]),
P("P08","No chunk is held by two consumers at once",
 "Between the moment a chunk is handed to a consumer and the moment that consumer reports it, disconnects, or lets its reservation expire, the chunk is not handed out again, to the same or to any other consumer. Nothing another consumer does can take a held chunk away from its holder.",
 ["schedules","histories"],"every interleaving of concurrent reservation requests, reports, disconnects and expiries of any number of consumers",
 "Tests reserve from one task at a time; double hand-outs need particular interleavings.",
 [RES,DISP,CST],[("atomic reservation table",RES),("reserved chunks filtered in the query",DISP),("per-connection set of reservations",CST)],[("reservations","chunk to holder",RES)],["answers of reservation requests on the consumer protocol"]),
P("P09","Unfinished work given up by a consumer becomes available again",
 "When a consumer fails a chunk below the retry limit, disconnects, dies, or lets its reservation expire, and when the server is restarted, every chunk it held that is not finished can be handed out again, to anyone. No unfinished chunk of an unfinished submission is ever permanently unavailable, and a holder whose reservation expires is told so.",
 ["histories","schedules","fault_sequences"],"every pattern of failures, disconnects, expiries and restarts",
 "Tests release one reservation by hand; a stranded chunk needs a history in which some path forgets to release.",
 [RES,CST,CSRV,CONN],[("release on report",CSRV),("release when the connection state is dropped",CST),("expiry and its notification",RES)],[("reservations","chunk to holder",RES)],["answers of reservation requests on the consumer protocol"]),
P("P10","Finished work is never handed out again",
 "A chunk that was completed, failed permanently, skipped or cancelled is never reserved for a consumer afterwards: not by a request that starts later, and not by one that was already being served when the chunk finished and had not yet reserved it.",
 ["schedules","histories"],"every interleaving of a reservation request's reads with concurrent completions, failures and cancellations",
 "It is a race between a read cursor and a writer; tests do not control that race.",
 [RES,DISP,CSRV],[("delayed release of finished chunks",RES),("reading only unfinished chunks",STR)],[("reservations","chunk to holder, kept a little longer after a chunk finished",RES)],["answers of reservation requests on the consumer protocol"]),
P("P11","A reservation request gets as much available work as it asked for, no more",
 "A request for at most N chunks is answered with min(N, available) distinct chunks, each of them unfinished and reserved for nobody else, and each with the data of its own submission. A request for zero chunks is answered with an error and reserves nothing. Exactly the chunks in the answer become reserved.",
 ["inputs","histories","configurations"],"every N, strategy and population of submissions and reservations",
 "Tests use a few sizes on small populations.",
 [DISP,CST,CONN],[("streaming reserve with a limit",DISP),("rejecting a zero limit",CST)],[("reservations","chunk to holder",RES)],["answers of reservation requests"]),
P("P12","Oldest and Newest hand out submissions in that order",
 "With the Oldest strategy the chunks handed out belong to the submissions that were inserted earliest among those with available work, in that order, and with Newest to those inserted latest. A chunk of a later (earlier) submission is only handed out once every available chunk of the earlier (later) ones has been.",
 ["inputs","histories"],"every population of submissions, reservations and limits",
 "Tests check one small population.",
 [STR],[("ordering clause of the query",STR)],[],["answers of reservation requests"]),
P("P13","Random hands out every available chunk exactly once",
 "With the Random strategy the answer contains only available chunks, each at most once, and repeated or large enough requests hand out every available chunk, wherever the random starting point falls.",
 ["inputs","histories"],"every population and every random starting point",
 "Tests sample a few random starting points; a gap or overlap at the wrap-around shows only for particular ones.",
 [STR],[("two half-open ranges that together cover everything",STR)],[],["answers of reservation requests"]),
P("P14","PreferDistinct prefers submissions with the fewest chunks in flight",
 "With PreferDistinct on a metadata key, submissions are served in increasing order of the number of chunks in flight that share their value for that key; submissions without the key or with nothing in flight come first, and ties are decided by the next nested key and finally by the underlying strategy. It never withholds available work and never hands a chunk out twice.",
 ["inputs","histories"],"every population, nesting of keys, in-flight history and underlying strategy",
 "Tests use one key and a few values.",
 [STR,META,DISP],[("ranking by in-flight counts",STR),("in-flight counters",META)],[("in-flight counters","per key and value",META)],["answers of reservation requests"]),
P("P15","In-flight counts equal the work that is really in flight",
 "At every quiet moment, the number of chunks the server believes to be in flight for a metadata key and value equals the number of chunks currently held by consumers whose submission has that value. Completing, failing, cancelling, disconnecting, expiring and late or duplicate reports all keep this true; with nothing held every count is zero, and concurrent updates are never lost.",
 ["histories","schedules"],"every history of reservations, reports, disconnects, expiries, and every interleaving of concurrent updates",
 "The tests pair every increment with one decrement; the paths that forget or repeat one are not exercised.",
 [META,DISP,CST,CSRV],[("increment when reserving and decrement when releasing",DISP),("removal of empty counters",META)],[("in-flight counters","per key and value",META)],["counts read from the dispatcher","order of PreferDistinct answers"]),
P("P16","Every reservation request is answered exactly once; waiting consumers are woken",
 "A reservation request that finds no work waits, and is answered as soon as there is work it could get: a newly inserted submission or a chunk that was given back. Every request is answered at most once, with the identifier of that request; no wake-up is lost, whatever the timing between the request and the insertion.",
 ["schedules","histories"],"every timing of insertions and give-backs relative to waiting requests",
 "Tests never make a request wait, and a lost wake-up needs a particular interleaving.",
 [CONN,PSRV],[("notification on insert and retry of the waiting request",CONN)],[("waiting requests","requests without an answer yet",CONN)],["consumer protocol"]),
P("P17","Status reads under concurrency show a state that really existed",
 "While other clients change things, a status request for an existing submission never answers not found or fails, and what it answers (status, counts, failed chunk) is a state the submission was in at some moment during the request. Consecutive reads by one client never go backwards.",
 ["schedules"],"every interleaving of the statements of a status read with writers",
 "Tests have no concurrent reader and writer; the window lies between two statements of one read.",
 [SUB,PSRV],[("order of the reads over the status tables",SUB)],TABLES,["producer status endpoint"]),
P("P18","A submission's data is kept intact through its whole life",
 "The input of every chunk, the metadata, strategic metadata, storage prefix, chunk size and trace context given when a submission was inserted are handed to consumers and reported by status unchanged, in progress and in every finished status that shows them. Outputs, failure texts and failed inputs are stored as reported, byte for byte.",
 ["inputs","histories"],"every content (empty, absent, binary, large, many chunks) and every path through the statuses",
 "Tests use short ASCII contents and mostly look at submissions in progress.",
 [SUB,CH,PSRV],[("copying of the columns between status tables",SUB),("batched insertion of chunks",CH)],TABLES,["producer status endpoint","chunks handed to consumers","tables"]),
P("P19","Metadata lookup returns exactly the matching unfinished submissions",
 "Looking up submissions by a set of key/value pairs returns exactly those in progress that have all of the pairs (all of them for an empty set), each once, in order of insertion. When more match than the configured maximum the request is refused as such instead of being cut short, and with exactly the maximum it is answered.",
 ["inputs","histories","configurations"],"every population, query and maximum",
 "Tests look up a few fixed populations.",
 [SUB,PSRV],[("one join per pair and a limit of maximum plus one",SUB)],TABLES,["producer lookup endpoint"]),
P("P20","Prefix lookup finds a submission in every status",
 "Looking up a storage prefix returns the submission inserted with it, in whatever status it is, until it is cleaned up; a prefix that was never used, or that merely resembles one, finds nothing.",
 ["inputs","histories"],"every prefix and every status of its submission",
 "Tests look up a prefix in few statuses.",
 [SUB,PSRV],[("lookup over the status tables",SUB)],TABLES,["producer prefix endpoint"]),
P("P21","Cleanup removes old finished work and nothing else",
 "Cleaning up removes exactly the finished submissions that finished before the cut-off, together with their metadata and their chunks; afterwards they are unknown. Submissions in progress, their metadata and their remaining chunks, and anything that finished after the cut-off are untouched.",
 ["histories","inputs"],"every mix of submissions in every status and age, and every cut-off",
 "Tests clean up one small fixed population.",
 [SUB],[("cleanup transaction",SUB)],TABLES,["tables","producer status endpoint"]),
P("P22","Counts agree with the stored submissions and chunks",
 "The counts of submissions in progress, completed and failed, and of chunks to do, completed and failed, always equal the number of such records; the two that producers can ask for agree with what status reports for each submission.",
 ["histories"],"every history","Tests count after one or two operations.",
 [SUB,CH,PSRV],[("count queries",SUB),("count queries of chunks",CH)],TABLES,["producer count endpoints","count functions"]),
P("P23","The consumer client pairs answers with requests and hands work back",
 "Each reservation call of the consumer client returns the answer the server gave to that very request, in whatever order and with whatever other messages answers arrive. Expired reservations and reports are passed on faithfully; when the connection breaks, pending and later calls end with an error or with the answer of a new connection, they never hang or receive another request's answer, and the client reconnects when the server is back. A connection that works is kept, and with it the chunks reserved over it, however many callers share it and whatever the server refuses them; what the server answers to a caller that has gone away is handed back.",
 ["schedules","fault_sequences","histories"],"every order of answers, asynchronous messages, pings and connection losses",
 "There are no tests of the client against a server that delays, reorders or disappears.",
 [CCL],[("table of requests in flight by nonce",CCL),("reconnecting outer client",CCL)],[("in-flight requests","nonce to caller",CCL)],["calls of the consumer client against a scripted server"]),
P("P24","Heartbeats detect dead peers and spare live ones",
 "A connection whose peer sends nothing for longer than the permitted number of missed heartbeats is closed, in bounded time, and its chunks are handed back. A peer that keeps answering, however slowly it works, is never disconnected, and any message counts as a sign of life.",
 ["schedules","fault_sequences","configurations"],"every pattern of messages, pongs and silences, for every interval and number of permitted misses",
 "Tests have no silent peers.",
 [CONN,CCL],[("heartbeat counter of the server",CONN),("heartbeat counter of the client",CCL)],[("missed heartbeats","since the last message",CONN)],["consumer protocol with scripted peers"]),
P("P25","The producer client reports exactly what the server did",
 "Every call of the producer client sends one well-formed request and returns what the server answered, decoded without loss, and turns refusals (not found, not cancellable with its reason, too many matches) into their own errors. Transient failures are retried only where that cannot repeat an effect that already happened, and permanent errors are not retried.",
 ["inputs","fault_sequences"],"every answer of the server and every pattern of transient failures",
 "Tests use a healthy server only.",
 [PCL,PSRV],[("retry policy",PCL),("decoding of answers",PCL)],[],["requests arriving at a scripted server and results of the calls"]),
P("P26","What is stored in the object store is what is retrieved",
 "Chunk inputs and outputs stored under a submission's prefix are retrieved byte for byte, in index order and complete; inputs and outputs, different indexes and different prefixes never mix. A missing or unreadable object is reported as an error, never as data, and the number of stored chunks is reported exactly.",
 ["inputs","fault_sequences","schedules"],"every content, count, prefix and order of completion of concurrent transfers",
 "Tests store a few chunks under one prefix.",
 [OS],[("path scheme",OS),("ordered concurrent transfer",OS)],[],["object store client against an in-memory or local store"]),
P("P27","Trace context travels unchanged from producer to consumer",
 "The trace context under which a submission was inserted is stored with it and is the one its consumers receive; encoding a context and decoding it again, through HTTP headers or the stored form, yields the same trace, span, flags and state, and malformed input yields an empty context rather than a failure.",
 ["inputs"],"every valid context and every malformed carrier",
 "Tests check one context.",
 [TR,SUB],[("conversion to and from headers and JSON",TR)],[],["conversion functions","submissions handed to consumers"]),
P("P28","Backlog metrics equal the work to do",
 "The exported backlog of chunks equals the number of chunks to do, and the exported backlog of operations equals the sum over those chunks of the chunk size of their submission, for every mix of submissions, sizes and progress.",
 ["histories","inputs"],"every history and chunk size","Tests compute one estimate.",
 [PR,CH],[("scaling metrics",PR),("backlog estimate",CH)],TABLES,["metrics endpoint","count functions"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in L:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(L))
