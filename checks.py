"""What each check runs: harness files, bounds per tier, vacuity witnesses, assumptions."""
import json as _j
import os

COMMON_ASSUMPTIONS = [
    "the LLVM IR produced by clang 18 from /repo's sources (-O1) is what is executed symbolically; engine/symx.cpp and z3 are trusted, sample paths are replayed natively with identical traces on every run",
    "libstdc++'s headers are executed for real; its out-of-line parts (red-black trees, list hooks, string conversions, exceptions) are re-implemented in rt/rt.cpp; allocation never fails; addresses are never reused",
    "logging (spdlog) is replaced by empty bodies whose arguments are still evaluated",
]
BROKER_ASSUMPTIONS = [
    "job identifiers are distinct; a job a worker announces as already running is unknown to the broker or the worker's own current one",
    "the failure limit is at least 1; worker identities are distinct, non-empty and may contain any bytes; header frames have the form name=value; hardware groups are not empty",
    "the order of pointers to workers (which std::map iteration depends on) is explored as ascending and descending; the clock is constant unless stated",
]
CHECKS = {}

# event kinds of harness/broker.cpp
EVAL, OK, INTERNAL, FAILED, EXPIRE, QUIET, REINIT, SAME, PING, PROGRESS, FREEZE, STATS, JUNK, INIT, MISMATCH, TICK, REJOIN, BADEVAL = [1 << i for i in range(18)]


def broker(name, what, workers, jobs, events, evs, reach=(), thorough=None, tiers=("quick", "thorough"), **defs):
    d = dict(N_WORKERS=workers, N_JOBS=jobs, EVS=hex(evs))
    d.update(defs)
    q = dict(N_EVENTS=events)
    t = dict(q)
    t.update(thorough or {})
    return dict(name=name, src="broker.cpp", what=what, defs={k: v for k, v in d.items() if k not in t}, quick=dict({k: v for k, v in d.items() if k in t}, **q), thorough=t, reach=list(reach), tiers=tiers)


HIST = EVAL | OK | INTERNAL | EXPIRE
LOSS = ["loss-nobody", "loss-redispatched", "loss-requeued", "loss-waiting-nobody", "tick-expired", "tick-expired-several"]

CHECKS["C01"] = dict(
    bounds="both queue managers, both pointer orders, failure limit 2; 2 workers (arbitrary env values), 2 jobs (arbitrary env requirement), then every sequence of 3 (thorough 4) events out of submission, OK, INTERNAL_ERROR, expiry of any subset; sequences of 2 with FAILED, changed re-registration, announced jobs, late registrations; 3 workers with 4 jobs and one expiry/re-registration/error; at the end the queue manager is emptied and every job must be found in exactly one place",
    outside="more workers, jobs and events; duplicate job ids",
    runs=[broker("history", "sequences of submissions, completions, errors and expiries", 2, 2, 3, HIST, LOSS + ["drained", "internal-redispatched", "internal-requeued", "internal-limit", "loss-limit", "eval-rejected", "done-ok"], dict(N_EVENTS=4), LIMIT=2),
          broker("registrations", "re-registrations, announced jobs, late registrations, failures", 2, 2, 2, EVAL | OK | FAILED | EXPIRE | REINIT | INIT | INTERNAL, ["reinit-changed", "reinit-keeps-job", "announced", "loss-orphan", "internal-orphan", "init-got-job", "drained"], dict(N_EVENTS=2, N_JOBS=3), LIMIT=2, ORPHANS=1),
          broker("three", "three workers", 3, 3, 1, INTERNAL | EXPIRE | REINIT, LOSS + ["drained"], dict(N_EVENTS=2), LIMIT=2)])

CHECKS["C02"] = dict(
    bounds="2 workers with arbitrary env value, hardware group and thread count; 2 jobs requiring nothing, env, group, threads, env and threads or group and threads (arbitrary values); then 1 event; one job also requiring two env values, alternative groups or unknown headers from workers with one or two env values, re-registrations adding, dropping and changing headers; 2 events with env/group requirements; 3 workers with env requirements and 2 events; both managers, both pointer orders",
    outside="more workers and requirements per job; multi-character values (the matching of single headers is decided by C08)",
    runs=[broker("kinds", "all kinds of requirements", 2, 2, 1, OK | INTERNAL | EXPIRE | REINIT, ["done-ok", "loss-redispatched", "internal-redispatched", "reinit-changed"], dict(N_EVENTS=2), REQK=6),
          broker("headers", "several values, alternatives, added and dropped headers", 2, 1, 1, OK | INTERNAL | EXPIRE | REINIT, ["done-ok", "loss-redispatched", "internal-redispatched", "reinit-changed", "reinit-drops", "reinit-adds"], dict(N_JOBS=2), REQK=9, HDRS=1),
          broker("reregistered", "submissions after registrations", 2, 0, 2, EVAL | REINIT, ["reinit-drops", "reinit-adds", "reinit-changed", "eval-dispatched", "eval-rejected"], dict(N_EVENTS=3, REQK=7, PREK=1), REQK=9, PREK=1, HDRS=1),
          broker("sequences", "env and group requirements", 2, 2, 2, EVAL | OK | INTERNAL | EXPIRE | REINIT | INIT, ["init-got-job", "reinit-changed", "loss-redispatched", "eval-dispatched"], dict(N_EVENTS=2, N_JOBS=3), REQK=3),
          broker("three", "three workers", 3, 2, 2, HIST | FAILED, LOSS, dict(N_JOBS=3), LIMIT=2)])

CHECKS["C03"] = dict(
    bounds="2 workers (possibly announcing a job), 2 jobs, every sequence of 3 events out of submission, completion, errors, expiry, mismatching reports; sequences of 2 with registrations of busy and idle workers and re-registrations; both managers, both pointer orders",
    outside="longer histories, more workers",
    runs=[broker("history", "sequences", 2, 2, 3, HIST | FAILED, ["done-ok", "done-failed", "internal-requeued", "loss-redispatched", "eval-waiting"], dict(N_EVENTS=4, EVS=hex(HIST)), LIMIT=2),
          broker("registrations", "busy workers register or register again", 2, 2, 2, EVAL | OK | EXPIRE | REINIT | SAME | INIT | PING | MISMATCH, ["announced", "reinit-keeps-job", "reinit-same", "init-got-job", "done-mismatch"], dict(N_JOBS=3), ORPHANS=1)])

CHECKS["C04"] = dict(
    bounds="2 workers, 3 jobs, every sequence of 3 (thorough 4) events out of submission, OK, FAILED, INTERNAL_ERROR, expiry; sequences of 2 with registrations and re-registrations; one worker with 3 jobs and 4 events; both managers, both pointer orders; at the end the queues are emptied and an idle worker's queue must be empty",
    outside="more workers, longer queues and histories",
    runs=[broker("history", "sequences", 2, 3, 3, HIST | FAILED, ["done-ok", "done-failed", "internal-requeued", "internal-redispatched", "loss-redispatched", "drained"], dict(N_EVENTS=4), LIMIT=2),
          broker("registrations", "registrations", 2, 2, 2, EVAL | OK | INTERNAL | EXPIRE | REINIT | INIT, ["init-got-job", "reinit-changed", "drained"], dict(N_JOBS=3), ORPHANS=1, LIMIT=2),
          broker("one", "one worker, longer sequences", 1, 3, 4, EVAL | OK | INTERNAL | FAILED | SAME, ["done-ok", "internal-requeued", "internal-limit", "drained"], dict(N_EVENTS=5), LIMIT=2)])

CHECKS["C05"] = dict(
    bounds="2 workers (arbitrary env values of 0..2 bytes), 1 job, every sequence of 2 out of submission (arbitrary requirement, with and without metadata), submission without header terminator (1..4 frames), freeze/unfreeze, expiry; 2 submissions to 2 workers, and 2 to one with 3 jobs, requiring nothing, env, two env values, group, alternative groups, threads, combinations of them, or headers nobody has (also ones whose names start with meta), workers having one or two env values; both managers",
    outside="longer header values and requests with more than 2 requirement headers",
    runs=[broker("answers", "answers to submissions", 2, 1, 2, EVAL | BADEVAL | FREEZE | EXPIRE, ["eval-dispatched", "eval-waiting", "eval-rejected", "eval-frozen", "eval-malformed"], dict(N_EVENTS=3), VALLEN=2, UNREG=1, META=1),
          broker("requirements", "kinds of requirements", 2, 1, 1, EVAL, ["eval-dispatched", "eval-waiting", "eval-rejected"], dict(META=1), REQK=9, HDRS=1, UNREG=1),
          broker("waiting", "kinds of requirements while jobs wait", 1, 3, 2, EVAL | OK, ["eval-dispatched", "eval-waiting", "eval-rejected"], dict(N_JOBS=4), REQK=9, PREK=1, HDRS=1),
          broker("commands", "almost known commands in between", 1, 1, 2, EVAL | JUNK | FREEZE, ["junk", "eval-dispatched", "eval-frozen"], dict(N_EVENTS=3), REQK=2),
          broker("none", "no workers", 0, 1, 2, EVAL | INIT | FREEZE, ["eval-rejected", "eval-dispatched", "eval-frozen"], dict(N_EVENTS=4), REQK=3, UNREG=1)])

CHECKS["C06"] = dict(
    bounds="failure limits 1..3, running jobs having failed any smaller number of times before; 2 workers, 2 jobs, every sequence of 2 (thorough 3) events out of INTERNAL_ERROR, FAILED, OK, expiry of any subset, changed re-registration; one worker and one job with 5 events; both managers",
    outside="limits above 3",
    runs=[broker("limits", "counting failures", 2, 2, 2, OK | INTERNAL | FAILED | EXPIRE | REINIT, ["internal-limit", "loss-limit", "loss-requeued", "internal-redispatched", "done-failed"], dict(N_EVENTS=2, N_JOBS=3), LIMIT=0, MIDFAIL=1),
          broker("long", "one worker, one job, many failures", 1, 1, 5, EVAL | INTERNAL | REINIT, ["internal-limit", "loss-limit", "internal-redispatched"], dict(N_EVENTS=6, EVS=hex(EVAL | INTERNAL)), LIMIT=0),
          broker("waiting", "jobs waiting for expiring workers", 2, 3, 2, INTERNAL | EXPIRE, ["internal-limit", "loss-limit", "loss-waiting-moved"], dict(N_EVENTS=3), LIMIT=0, MIDFAIL=0, REQK=2)])

CHECKS["C07"] = dict(
    bounds="arbitrary ping interval up to 300 ms, 1 or 2 lives; 2 workers, every sequence of 4 (thorough 5) events out of tick of 1, 60 or 250 ms, message from a worker (ping, result), re-registration of an expired worker; one tick of arbitrary length up to 999 ms; 3 workers with expiries of any subset; both managers",
    outside="intervals over 300 ms, more lives (the number of lives is set directly in the other checks), longer histories",
    runs=[broker("expiry", "silence and signs of life", 2, 1, 4, OK | PING | TICK | REJOIN, ["tick-quiet", "tick-expired", "tick-expired-several", "rejoined", "ping-unknown", "loss-nobody"], dict(N_EVENTS=5), SYMINT=300, MANAGER=0),
          broker("signs", "every kind of message is a sign of life", 1, 1, 4, PING | PROGRESS | SAME | REINIT | MISMATCH | TICK | REJOIN, ["tick-quiet", "tick-expired", "reinit-same", "reinit-changed", "progress-empty", "done-mismatch"], dict(N_EVENTS=5), SYMINT=300, MANAGER=1),
          broker("elapsed", "arbitrary elapsed time", 2, 1, 1, TICK | PING, ["tick-quiet", "tick-expired-several"], dict(TICKDIG=4), SYMINT=300, TICKDIG=3),
          broker("three", "three workers, any subset expires", 3, 2, 2, EXPIRE | OK | QUIET | REJOIN, LOSS + ["rejoined"], dict(N_EVENTS=3), LIMIT=2)])

CHECKS["C09"] = dict(
    bounds="one worker: 4 jobs and 2 (thorough 3) events with any progress of the monotonic clock (0, 0.4, 1 ms) and of the wall clock (also one hour back); 2 workers, 3 jobs, every sequence of 3 events out of submission, OK, INTERNAL_ERROR, expiry; 20 (thorough 40) jobs arriving within one tick or while the wall clock runs back, one of them of another kind at any position; both managers",
    outside="longer queues; in the multi-queue manager jobs several workers could take are ordered only by what their dispatches reveal",
    runs=[broker("clocks", "one worker, arbitrary clocks", 1, 4, 2, EVAL | OK | INTERNAL, ["done-ok", "internal-requeued", "eval-waiting"], dict(N_EVENTS=3), CLOCKS=3),
          broker("history", "two workers", 2, 3, 3, EVAL | OK | INTERNAL | EXPIRE, ["done-ok", "internal-requeued", "loss-waiting-moved", "loss-requeued"], dict(N_EVENTS=3, REQK=2), LIMIT=3),
          broker("registrations", "re-registrations keep the order", 1, 3, 3, EVAL | OK | REINIT, ["reinit-changed", "loss-waiting-moved", "done-ok"], dict(N_EVENTS=4), REQK=2),
          dict(name="long", src="c09.cpp", what="long queues", quick=dict(LONG=20), thorough=dict(LONG=40), reach=["single", "multi", "internal-requeued"])])

CHECKS["C10"] = dict(
    bounds="payloads of 0..2 (thorough 3) frames of 0..2 arbitrary bytes (including empty frames and '='), with and without metadata headers; dispatch on submission, from the queue, after INTERNAL_ERROR, expiry and re-registration; frames that look like metadata or requirements; both managers",
    outside="more and longer frames",
    runs=[broker("payloads", "arbitrary payloads", 2, 1, 1, OK | INTERNAL | EXPIRE, ["eval-dispatched", "internal-redispatched", "loss-redispatched", "done-ok"], dict(PAYLOAD=3), PAYLOAD=2, META=1),
          broker("queued", "from the queue", 1, 2, 1, OK | INTERNAL | FAILED | REINIT, ["eval-waiting", "done-ok", "internal-requeued"], dict(N_EVENTS=2), PAYLOAD=1, META=1),
          broker("retries", "payload frames that look like headers, several attempts", 2, 3, 3, OK | INTERNAL | EXPIRE, ["internal-redispatched", "loss-redispatched"], dict(N_EVENTS=4), META=0),
          broker("busy", "registration of a busy worker", 2, 2, 2, EVAL | OK | INIT | REINIT, ["announced", "reinit-keeps-job"], dict(N_EVENTS=2, N_JOBS=3), ORPHANS=1)])

CHECKS["C11"] = dict(
    bounds="failure limits 1..3 with any number of earlier failures; 2 workers, 2 jobs, every sequence of 2 events out of OK, INTERNAL_ERROR, FAILED (arbitrary explanation of 0..2 bytes), expiry of any subset, re-registration; every mismatching report (unknown sender, other known job or any id of 3 to 5 bytes, idle worker, unknown status, wrong number of frames); 3 workers with one expiry; both managers",
    outside="longer histories",
    runs=[broker("outcomes", "reports about jobs", 2, 2, 2, OK | INTERNAL | FAILED | EXPIRE, ["done-ok", "done-failed", "internal-limit", "loss-limit", "loss-nobody", "loss-redispatched", "internal-nobody" if False else "internal-requeued"], dict(N_EVENTS=3), LIMIT=0, MIDFAIL=1),
          broker("mismatch", "reports that do not match", 2, 2, 2, OK | MISMATCH, ["done-mismatch", "done-unknown-status"], dict(N_EVENTS=2, N_JOBS=3), MISM=1),
          broker("orphans", "announced jobs and re-registrations", 2, 1, 2, OK | INTERNAL | EXPIRE | REINIT, ["internal-orphan", "loss-orphan", "internal-nobody", "reinit-changed"], dict(N_JOBS=2), LIMIT=2, ORPHANS=1),
          broker("three", "three workers", 3, 3, 1, EXPIRE, LOSS + ["loss-waiting-moved"], dict(N_EVENTS=2), LIMIT=2)])

CHECKS["C12"] = dict(
    bounds="4 states (no worker, idle workers, busy worker, waiting job), both managers; one message of 0..4 (thorough 5) frames from a client, either worker or an unknown one: command known or arbitrary (0..2 bytes), further frames arbitrary (0..2 bytes) or threads=/current_job=/hwgroup=/meta. with an arbitrary byte, or a status; two such messages of up to 2 (thorough 3) frames in a row; frames of 64 to 5000 bytes and messages of up to 300 frames; followed by regular traffic",
    outside="arbitrary longer frames; a re-registration of an already known foreign job as current job",
    runs=[dict(name="one", src="c12.cpp", what="one arbitrary message", quick=dict(NFRAMES=4, FLEN=1), thorough=dict(NFRAMES=4, FLEN=3), reach=["valid", "invalid", "empty", "idle", "busy", "waiting", "junk"]),
          dict(name="two", src="c12.cpp", what="two arbitrary messages", defs=dict(RAW=1, N_MSG=2), quick=dict(NFRAMES=2, FLEN=1), thorough=dict(NFRAMES=3, FLEN=1), reach=["raw"]),
          dict(name="large", src="c12.cpp", what="long and many frames", defs=dict(LONG=1, RAW=1), quick=dict(N_MSG=1), thorough=dict(N_MSG=2), reach=["raw"]),
          broker("commands", "almost known commands", 1, 2, 2, JUNK | EVAL | OK, ["junk", "done-ok", "eval-dispatched", "eval-waiting"], dict(N_EVENTS=2)),
          broker("mismatch", "reports that do not match", 2, 2, 2, OK | MISMATCH | BADEVAL, ["done-mismatch", "done-unknown-status", "eval-malformed"], dict(N_EVENTS=2), MISM=1)])

CHECKS["C16"] = dict(
    bounds="2 workers, 2 jobs, every sequence of 2 (thorough 3) events out of submission, OK, INTERNAL_ERROR, FAILED, expiry, quiet tick, re-registration, freeze, statistics, and a final statistics request; both managers",
    outside="counters beyond the number of events",
    runs=[broker("stats", "statistics after arbitrary events", 2, 2, 2, EVAL | OK | INTERNAL | FAILED | EXPIRE | QUIET | REINIT | FREEZE | STATS, ["stats", "tick-quiet", "tick-expired", "freeze", "unfreeze"], dict(N_EVENTS=3), STATS_END=1, LIMIT=2),
          broker("quiet", "ticks in different states", 2, 3, 3, OK | INTERNAL | QUIET, ["stats", "tick-quiet", "done-ok"], dict(N_EVENTS=4), STATS_END=1, LIMIT=2)])

CHECKS["C18"] = dict(
    bounds="two brokers given the same messages, only one of them frozen and unfrozen: 2 workers, 2 jobs, every sequence of 3 (thorough 4) events out of freeze, unfreeze, submission, OK, INTERNAL_ERROR, FAILED, expiry of any subset, statistics, and of 2 (thorough 3) with registrations, re-registrations, pings and progress, and of 4 (thorough 5) out of freeze, unfreeze, OK, ping, progress and ticks of 600 or 1100 ms: everything they send has to be equal except the answers to submissions and the frozen state; against the reference model: 2 workers, 2 jobs, every sequence of 3 (thorough 4) events out of freeze, unfreeze, submission, OK, INTERNAL_ERROR, expiry, statistics; both managers; the reference model lets freezing influence nothing but submissions",
    outside="longer histories",
    runs=[dict(name="relational", src="c18.cpp", what="a frozen broker against one that is not", quick=dict(N_EVENTS=3), thorough=dict(N_EVENTS=4), reach=["accepted", "rejected", "freeze", "unfreeze", "ok", "internal", "failed", "expired", "stats", "end"]),
          dict(name="relational-more", src="c18.cpp", what="with registrations", defs=dict(MORE=1), quick=dict(N_EVENTS=2), thorough=dict(N_EVENTS=3), reach=["registered-again", "rejected"]),
          dict(name="relational-time", src="c18.cpp", what="signs of life and silence", defs=dict(MORE=2, N_JOBS=1), quick=dict(N_EVENTS=4), thorough=dict(N_EVENTS=5), reach=["silent", "not-silent", "ok", "freeze", "unfreeze"]),
          broker("freeze", "freezing in between", 2, 2, 3, FREEZE | EVAL | OK | INTERNAL | EXPIRE | STATS, ["freeze", "unfreeze", "eval-frozen", "eval-dispatched", "eval-waiting", "done-ok", "internal-redispatched", "loss-redispatched", "stats"], dict(N_EVENTS=4, EVS=hex(FREEZE | EVAL | OK | INTERNAL | EXPIRE)), LIMIT=2),
          broker("registrations", "registrations while frozen", 1, 1, 3, FREEZE | EVAL | OK | INIT | REINIT | PING, ["freeze", "eval-frozen", "init-got-job", "reinit-changed"], dict(N_EVENTS=4), LIMIT=2),
          broker("requirements", "kinds of submissions while frozen", 1, 1, 2, FREEZE | EVAL, ["freeze", "eval-frozen"], dict(N_EVENTS=3, META=0), REQK=9, PREK=1, META=1, MANAGER=0),
          broker("commands", "almost known commands", 1, 1, 2, FREEZE | EVAL | JUNK, ["freeze", "eval-frozen", "junk"], dict(N_EVENTS=3))])

CHECKS["C19"] = dict(
    bounds="2 workers (arbitrary hardware group and env, with or without description and announced job), 1 job, every sequence of 2 events out of identical and changed re-registration (group or header changed, header added or dropped; announcing nothing, another job, the current job), expiry, registration after expiry, pings of known and unknown identities, submission; both managers",
    outside="registrations listing the same headers in another order; more headers per registration",
    runs=[broker("registry", "registrations", 2, 1, 2, EVAL | REINIT | SAME | EXPIRE | PING | INIT, ["reinit-changed", "reinit-same", "reinit-keeps-job", "ping-known", "ping-unknown", "announced"], dict(N_JOBS=2), REQK=3, ORPHANS=1, DESCR=1, MANAGER=0),
          broker("single", "registrations with the single queue", 2, 1, 2, EVAL | REINIT | SAME | REJOIN | EXPIRE | PING, ["reinit-changed", "reinit-same", "rejoined", "ping-known", "ping-unknown"], dict(N_JOBS=2), REQK=2, DESCR=1, MANAGER=1),
          broker("headers", "added and dropped headers", 2, 1, 2, EVAL | REINIT | SAME, ["reinit-changed", "reinit-same", "reinit-drops", "reinit-adds"], dict(N_EVENTS=3), HDRS=1),
          broker("values", "values of arbitrary length", 2, 1, 1, EVAL | REINIT | SAME | PING, ["reinit-changed", "reinit-same"], dict(N_EVENTS=2), VALLEN=2)])
for c in list(CHECKS.values()):
    if "assumptions" not in c: c["assumptions"] = BROKER_ASSUMPTIONS

CHECKS["C08"] = dict(
    bounds="hardware group 1..2 arbitrary bytes, group requirement 0..4 bytes; thread counts up to 2 digits against arbitrary 0..2 byte requirements, plus values around 2^8..2^64; 2 announced headers and 1 (thorough: 2) requirements of arbitrary 1..2 byte names and 0..1 byte values; mixed requirement sets; groups, names and values of 15 to 257 bytes differing in their last, arbitrary, byte, up to 12 alternatives, up to 13 (thorough 41) announced headers",
    outside="empty hardware groups, numbers written with leading blanks or signs, an announced extra header literally named hwgroup",
    runs=[dict(name="matching", src="c08.cpp", quick=dict(GLEN=2, RLEN=4, NDIG=2, TLEN=2, NH=2, NR=1, NLEN=2, VLEN=1), thorough=dict(GLEN=2, RLEN=6, NDIG=3, TLEN=3, NH=3, NR=2, NLEN=2, VLEN=1, MANY=40),
               reach=["hw-match", "hw-nomatch", "thr-match", "thr-nomatch", "thr-nonumber", "big-req", "big-have", "multi", "plain-match", "plain-nomatch", "mixed-match", "mixed-nomatch", "long-hw-match", "long-hw-nomatch", "long-match", "long-nomatch"])])

ZMQ_ASSUMPTIONS = [
    "ZeroMQ is replaced by a model of its C interface (harness/zstub.h): in-memory queues, whole-message delivery, ROUTER/DEALER identity handling, messages to unknown peers dropped; a send can be refused only at the first frame of a message, a receive at any frame",
    "threads are scheduled cooperatively: another thread may run before and after every whole message passed through a socket, a bounded number of times; a new handler thread starts at once or not before the others wait; handlers do not call each other in circles",
]
CURL_ASSUMPTIONS = [
    "libcurl is replaced by a model of its easy interface (harness/curlstub.h): every attempt succeeds, cannot connect, is answered with an HTTP error, or has no handle; sleeping is recorded instead of done",
    "job identifiers consist of characters that need no encoding in a URL path; credentials contain no NUL and user names no colon",
]
CHECKS["C13"] = dict(
    bounds="identities of 0..2 arbitrary bytes, up to 3 frames of 0..2 arbitrary bytes, two messages in a row, failure of any single send or receive call; frames of 255 to 65546 bytes, 20 and 300 frames, identities of 255 bytes; through the reactor: messages of 0..2 frames to and from synchronous and asynchronous handlers, 2 (thorough 3) passes of the loop, failing receive calls",
    outside="several failures, connection losses below ZeroMQ's interface",
    assumptions=ZMQ_ASSUMPTIONS,
    runs=[dict(name="wrapper", src="c13.cpp", what="router_socket_wrapper", quick={}, thorough={}, reach=["received", "recv-failed-first", "recv-failed-later", "refused", "sent", "sent-empty", "sent-large", "received-large"]),
          dict(name="async", src="c14.cpp", what="frames to and from handler threads", defs=dict(PART=2, SHAPES=4), quick=dict(PASSES=2, PREEMPT=0), thorough=dict(PASSES=2, PREEMPT=2), reach=["async-internal", "async-socket", "async-several"]),
          dict(name="failing", src="c14.cpp", what="reception failures in the main loop", defs=dict(PART=4, SHAPES=4), quick={}, thorough={}, reach=["recv-failed", "recv-fine"]),
          dict(name="large", src="c14.cpp", what="long messages to and from handler threads", defs=dict(PART=2, FIRST=4, SHAPES=2), quick=dict(PASSES=2, PREEMPT=0), thorough=dict(PASSES=2, PREEMPT=2), reach=["async-internal", "async-socket", "async-several"]),
          dict(name="whole", src="wiring.cpp", what="messages through the whole broker", quick=dict(PREEMPT=0), thorough=dict(PREEMPT=2), reach=["done", "failed", "expired"])])

CHECKS["C14"] = dict(
    bounds="2 sockets, 2 synchronous handlers subscribed to any of 4 names and responding to any name, 2 passes with any arrivals (0..2 frames, arbitrary bytes); asynchronous handlers (one or two, answering through sockets or to handlers, terminated early or late) with every schedule of up to 2 (thorough 4) extra switches; frames of 300 bytes, 42 frames, 300 messages waiting at once; the whole broker as broker_connect assembles it, from registration to notification, ports {1, 80, 9657, 65535}, both managers",
    outside="more sockets, handlers and passes; preemption inside a message; handlers that pass messages round in circles",
    assumptions=ZMQ_ASSUMPTIONS + CURL_ASSUMPTIONS[:1],
    runs=[dict(name="sync", src="c14.cpp", what="synchronous handlers", defs=dict(PART=1), quick=dict(PASSES=2), thorough=dict(PASSES=2, SHAPES=4), reach=["sync", "sync-to-socket", "sync-internal", "sync-nothing"]),
          dict(name="async", src="c14.cpp", what="an asynchronous handler", defs=dict(PART=2), quick=dict(PASSES=2, PREEMPT=2), thorough=dict(PASSES=3, PREEMPT=3, SHAPES=1), reach=["async-internal", "async-socket", "async-several", "terminated-early"]),
          dict(name="two", src="c14.cpp", what="two asynchronous handlers", defs=dict(PART=3), quick=dict(PASSES=2), thorough=dict(PASSES=3, SHAPES=1), reach=["two"]),
          dict(name="failing", src="c14.cpp", what="reception failures", defs=dict(PART=4, SHAPES=4), quick={}, thorough={}, reach=["recv-failed", "recv-fine"]),
          dict(name="large", src="c14.cpp", what="long messages", defs=dict(FIRST=4, SHAPES=2, PASSES=2), quick=dict(PART=1), thorough=dict(PART=3)),
          dict(name="large-async", src="c14.cpp", what="long messages and an asynchronous handler", defs=dict(PART=2, FIRST=4, SHAPES=2, PASSES=2), quick=dict(PREEMPT=0), thorough=dict(PREEMPT=2)),
          dict(name="burst", src="c14.cpp", what="many messages at once", defs=dict(PART=5), quick=dict(PREEMPT=0, BURST=300), thorough=dict(PREEMPT=1, BURST=60), reach=["burst"]),
          dict(name="burst-switches", src="c14.cpp", what="many messages at once, more schedules", defs=dict(PART=5), quick=dict(PREEMPT=1, BURST=24), thorough=dict(PREEMPT=2, BURST=24), reach=["burst"]),
          dict(name="unstarted", src="c14.cpp", what="messages before the loop, a loop that cannot start", quick=dict(PART=6, PREEMPT=1), thorough=dict(PART=6, PREEMPT=3), reach=["not-startable", "not-started", "sent-early"]),
          dict(name="whole", src="wiring.cpp", what="the whole broker", quick=dict(PREEMPT=1), thorough=dict(PREEMPT=3), reach=["done", "failed", "expired", "ended"])])

CHECKS["C15"] = dict(
    bounds="every pattern of success, connection failure, HTTP error and missing handle over the attempts of 2 (thorough 3) notifications in a row of every kind; descriptions and job ids of 0..2 (thorough 3) arbitrary bytes; arbitrary field names and values; arbitrary port, credentials of 0..2 bytes; texts and credentials of 30 to 3000 bytes, 40 fields, 30 jobs rejected at once, 16 notifications in a row; the same through the whole broker with its notifier thread",
    outside="arbitrary longer texts, job ids that need encoding, redirects, messages with an odd number of frames (the broker never produces them)",
    assumptions=CURL_ASSUMPTIONS,
    runs=[dict(name="http", src="c15.cpp", what="requests, retries and encoding", quick=dict(VLEN=2, NMSG=2), thorough=dict(VLEN=3, NMSG=2), reach=["error", "rejected", "rejected-several", "done", "failed", "first-time", "retried", "given-up", "several", "config", "fields", "long", "many-rejected", "many-fields"]),
          dict(name="whole", src="wiring.cpp", what="notifications of the whole broker", quick=dict(PREEMPT=0), thorough=dict(PREEMPT=2), reach=["done", "failed", "expired"])])

CHECKS["C17"] = dict(
    bounds="all 18 settings; any two of them at once absent, of another node kind, or arbitrary: texts of 0..2 bytes, numbers of up to 5 (thorough 6) arbitrary digits, values around 2^16, 2^32, 2^63, 2^64, negative, empty and non-numeric texts - while all others are absent or present; every subset of each section; documents and sections of the wrong kind; texts of 15 to 300 bytes",
    outside="other notations of numbers (hexadecimal, octal, signs, blanks), paths with dots, trailing or repeated slashes, parsing of the YAML text itself",
    assumptions=["yaml-cpp's node classes and boost::filesystem::path are modelled in rt/shim when executed symbolically; sample paths are replayed against the real libraries"],
    runs=[dict(name="settings", src="c17.cpp", what="arbitrary documents", quick=dict(NDIG=5, SLEN=2), thorough=dict(NDIG=7, SLEN=4), reach=["accepted", "rejected", "text", "file", "number", "boundary", "port-too-large", "not-a-number", "negative", "other-kind", "subsets", "no-map", "section-kind", "long"])])

CHECKS["C20"] = dict(
    bounds="identities of 0..3 (thorough 4) arbitrary bytes and all identities of ZeroMQ's own form, descriptions of 0..2 bytes, directly and as registered; 1..2 progress messages of 0..4 (thorough 5) frames of 0..2 arbitrary bytes from known and unknown, idle and busy workers; progress mixed with 2 other events; both managers",
    outside="longer identities and frames",
    runs=[dict(name="texts", src="c20.cpp", what="descriptions and progress", quick=dict(IDLEN=3, PFRAMES=4), thorough=dict(IDLEN=4, PFRAMES=5), reach=["plain", "described", "zmq", "registered", "progress", "progress-empty", "progress-sent"]),
          broker("mixed", "progress among other events", 2, 1, 3, PROGRESS | OK | EXPIRE | FREEZE, ["progress", "progress-empty", "done-ok", "tick-expired"], dict(N_EVENTS=3, N_JOBS=2), LIMIT=2, MANAGER=1, PFRAMES=2)])
CHECKS["C20"]["assumptions"] = BROKER_ASSUMPTIONS


def scale(name, **over):
    n = {"texts": (1, "long texts", ["rejected", "accepted", "mismatch", "failed", "internal", "keeps"], dict(NLENS=3), dict(NLENS=4)),
         "many": (2, "many workers and jobs", ["half-expired", "most-expired", "all-expired", "registered-again", "all-failed", "stats"], dict(MANYW=8, MANYJ=20), dict(MANYW=12, MANYJ=40)),
         "counters": (3, "large limits and counts", ["many-failures", "huge-limit", "many-jobs"], dict(COUNT=280), dict(COUNT=280)),
         "splits": (5, "names and values that run into one another", ["accepted", "rejected", "same", "changed", "second"], {}, {}),
         "times": (4, "large times and numbers of lives", ["many-lives", "long-intervals"], dict(COUNT=280), dict(COUNT=280))}[name]
    return dict(name="scale-" + name, src="scale.cpp", what=n[1], defs=dict(PART=n[0]), reach=n[2], quick=dict(n[3], **over), thorough=dict(n[4]))


for c in ("C01", "C02", "C03", "C04", "C05", "C09", "C10", "C11", "C16"):
    CHECKS[c]["runs"].append(broker("retried", "jobs that have failed several times", 2, 3, 2, EVAL | INTERNAL | EXPIRE | OK, ["internal-requeued", "internal-redispatched", "loss-redispatched"], dict(N_EVENTS=2, N_JOBS=4), LIMIT=5, MIDFAIL=2, REQK=2))
    CHECKS[c]["bounds"] += "; running jobs that have failed 2 to 4 times before and a waiting one, then 2 events"
SCALE = {"texts": "; texts of 17, 64, 260 (thorough 600) bytes for identities (255), groups, header names and values, descriptions, job ids and payload frames that differ in their last, arbitrary, bytes",
         "many": "; 8 (thorough 12) workers of two kinds and 20 (40) jobs with half, most or all workers expiring, registering again or failing at once",
         "counters": "; 280 failures of one job, limits around 2^8 to 2^64 nearly reached, 280 jobs finished and 140 waiting",
         "splits": "; one worker with a header of 1..2 arbitrary bytes as name and 0..2 as value, then a job, then another job or registration whose name and value have the same total length but arbitrary bytes",
         "times": "; 280 lives and intervals and silences around 2^16, 2^31, 2^32 and 9e12 ms"}
for cs, n in ((("C02", "C05", "C10", "C11", "C19", "C20"), "texts"), (("C01", "C02", "C03", "C04", "C07", "C09", "C11", "C16"), "many"), (("C01", "C04", "C06", "C16"), "counters"), (("C07",), "times"), (("C02", "C05", "C19"), "splits")):
    for c in cs:
        CHECKS[c]["runs"].append(scale(n))
        CHECKS[c]["bounds"] += SCALE[n]

CHECKS["C21"] = dict(
    bounds="2 passes with 8 possible durations (0, 1 ns .. 1 h, around whole milliseconds) of each wait and each handler, wall clock jumps of 2 hours in both directions, 1 or 2 subscribers, with and without a message per pass; 3 (thorough 4) passes with 4 durations; 300 (thorough 1200) passes whose waits take the same one of 12 durations (up to 49 days) and whose handlers take the same one of 7; one pass (thorough two) with every number of nanoseconds below 2^24 (thorough 2^22) for each wait and handler",
    outside="more passes; arbitrary durations over several passes (64-bit division is beyond the solver there)",
    assumptions=ZMQ_ASSUMPTIONS[:1] + ["real time is what std::chrono::steady_clock shows; reading a clock takes no time"],
    runs=[dict(name="durations", src="c21.cpp", what="many durations", quick=dict(PASSES=2), thorough=dict(PASSES=2), reach=["zero", "some", "ended"]),
          dict(name="passes", src="c21.cpp", what="more passes", quick=dict(PASSES=3, STEPS=4), thorough=dict(PASSES=4, STEPS=4), reach=["zero", "some", "ended"]),
          dict(name="many", src="c21.cpp", what="many passes of the same kind", defs=dict(SAME=1), quick=dict(PASSES=300), thorough=dict(PASSES=1200), reach=["zero", "some", "ended"]),
          dict(name="symbolic", src="c21.cpp", what="arbitrary durations", quick=dict(PASSES=1, SYMTIME=24), thorough=dict(PASSES=2, SYMTIME=22), reach=["zero", "some", "ended"])])

CHECKS["C22"] = dict(
    bounds="names of 0..8 (thorough 12) arbitrary bytes; all documented names; all pairs of levels",
    outside="longer names",
    assumptions=[],
    runs=[dict(name="levels", src="c22.cpp", what="names and comparison", quick=dict(LEN=8), thorough=dict(LEN=12), reach=["named", "most-verbose", "documented", "less", "equal", "more"])])

CHECKS["C23"] = dict(
    bounds="main and broker_core with everything below: no option, -c F, -cF, --config F, --config=F with names of 1..2 (thorough 3) arbitrary bytes, missing, repeated and unknown options, help; a missing, unreadable or wrong document; log files in 5 kinds of directories (existing, missing, refused) with names of 1..2 (thorough 3) arbitrary bytes, all levels, 4 sizes and 4 counts; queue manager absent, single, multi or any other name of 1..6 (thorough 9) bytes, told apart by 2 workers and 4 jobs; an endpoint that is taken",
    outside="the texts written to the terminal; signals; the rest of boost::program_options' syntax",
    assumptions=["boost::program_options, boost::filesystem's directory operations, spdlog's 0.x registry, yaml-cpp, ZeroMQ and libcurl are models; program_options is the real library in the native replays", "the process ends at std::exit: no destructor is examined after it"],
    runs=[dict(name="startup", src="c23.cpp", what="command line, configuration, log, queue manager, endpoints", natflags=["-I" + os.path.dirname(os.path.abspath(__file__)) + "/rt/nshim2"], quick=dict(FLEN=2, MLEN=6), thorough=dict(FLEN=3, MLEN=9), reach=["default", "given", "no-file", "bad-command-line", "bad-config", "log-refused", "log-directory", "log", "log-level", "log-here", "unknown-manager", "single", "multi", "busy"])])

CHECKS["C24"] = dict(
    bounds="2 workers; every pair of 13 kinds of finished work (jobs done, failed, retried to the limit, rejected; a worker that expires with jobs and comes back; other workers, also with a job of their own, that come and go; changed registrations; messages nobody understands; freezing; waiting jobs; everybody lost), repeated 20 (thorough 60) times with new names, arbitrary bytes in requirements, names and commands, both managers, both pointer orders: objects and bytes held after all repetitions are compared with those after half of them; the whole broker with jobs that succeed or fail and notifications that fail once, sockets and HTTP handles counted",
    outside="caches that stop growing later; memory held by the libraries; fragmentation",
    assumptions=ZMQ_ASSUMPTIONS + CURL_ASSUMPTIONS[:1] + ["memory is what operator new handed out and operator delete did not take back"],
    runs=[dict(name="work", src="c24.cpp", what="repeated work", defs=dict(PART=1), quick=dict(CYCLES=10), thorough=dict(CYCLES=30), reach=["measured", "accepted", "reported"]),
          dict(name="whole", src="c24.cpp", what="the whole broker", defs=dict(PART=2), quick=dict(CYCLES=12), thorough=dict(CYCLES=60), reach=["measured", "whole"])])

if os.environ.get("VERIF_DEV"):  # development aid: all assertions of the broker model at once with given bounds
    CHECKS["C00"] = dict(bounds="", outside="", runs=[dict(name="dev", src=os.environ.get("VERIF_SRC", "broker.cpp"), defs=_j.loads(os.environ["VERIF_DEV"]))])
