#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

BH="src/handlers/broker_handler.cpp"; SQ="src/queuing/single_queue_manager.h"; MQ="src/queuing/multi_queue_manager.cpp"
WK="src/worker.cpp"; WR="src/worker_registry.cpp"; RE="src/reactor/reactor.cpp"; RS="src/reactor/router_socket_wrapper.cpp"
CU="src/helpers/curl.cpp"; SN="src/handlers/status_notifier_handler.cpp"; RN="src/notifier/reactor_status_notifier.cpp"
CF="src/config/broker_config.cpp"

prop("C01","An accepted job is never lost and never duplicated",
 "From the moment the broker accepts a job until the frontend is told its final outcome, the job is at every quiescent point held in exactly one place: being processed by exactly one registered worker, or waiting in exactly one queue where some registered worker can still take it. Once the job has left the system the frontend has been sent exactly one final status for it, and no job disappears without one. This holds with either queue manager, for any interleaving of submissions, completions, failures, registrations, re-registrations and worker expirations.",
 ["histories","inputs","configurations"],"every sequence of client, worker and timer events, every header assignment, both queue managers",
 "Each test plays one fixed sequence of two or three events against one or two workers; loss and duplication need particular combinations of occupancy, queue contents and failure kind.",
 [BH,SQ,"src/queuing/multi_queue_manager.cpp"],
 [("queue bookkeeping of current and waiting requests",SQ+", "+MQ),("reassignment after failure/expiry",BH+": process_worker_done, process_timer, reassign_request")],
 [("current request per worker","job the broker believes the worker is processing",SQ+", "+MQ),("waiting jobs","accepted jobs not yet sent",SQ+", "+MQ)],
 ["response callback of the broker handler","queue manager interface"])

prop("C02","A job is only ever sent to a worker able to process it",
 "Every job the broker sends goes to a currently registered worker whose most recently announced hardware group and headers satisfy every requirement header of that job, whether it is dispatched on submission, from a queue, or after a failure or expiry of another worker.",
 ["histories","inputs"],"all header sets of workers and jobs, all dispatch paths, both queue managers",
 "Tests use workers with identical headers almost everywhere, so a dispatch path that skips or weakens the capability check is invisible to them.",
 [SQ,MQ,WK,BH],[("capability check before each assignment",SQ+", "+MQ),("header matching",WK)],(),["eval messages sent to workers"])

prop("C03","A worker is never given a second job while it has one in progress",
 "Between the moment a job is sent to a worker and the moment that worker reports that job as finished (or expires), no other job is sent to that worker, and no waiting job is sent to a worker that announced it is already busy. A worker is sent at most one job per event.",
 ["histories","inputs"],"all event sequences and occupancy patterns, both queue managers",
 "Tests only observe a busy worker in one two-job scenario; double assignment needs a specific combination of idle/busy workers and failure or expiry events.",
 [BH,SQ,MQ],[("busy check on assignment",SQ+", "+MQ)],(),["eval messages sent to workers"])

prop("C04","No worker idles while a job it should run is waiting",
 "After every event the broker has fully processed, there is no idle registered worker for which a waiting job exists that it should be running: with the single-queue manager, any waiting job it is capable of processing; with the multi-queue manager, any job in its own queue.",
 ["histories","inputs"],"all event sequences, occupancies, header assignments, both queue managers",
 "Starvation shows only when a particular event (failure with retry, orphan job failure, expiry, registration) frees a worker while other jobs wait; the tests combine none of these with a non-empty queue except one FAILED case.",
 [BH,SQ,MQ],[("next job assigned on completion/failure/registration",BH+": process_worker_done, process_worker_init")],(),["eval messages","queue manager interface"])

prop("C05","Every evaluation request gets a correct and complete answer",
 "Every evaluation request is acknowledged to the requesting client first; a well-formed one then gets exactly one further answer, sent to that same client: accept if and only if the broker is not frozen and at least one registered worker satisfies all its requirement headers, otherwise reject with a reason. An accepted job is taken in exactly once, a rejected or malformed one not at all, and when no worker is capable the monitor is told the job failed.",
 ["inputs","histories"],"all client identities, job ids, header frames, payloads and broker states",
 "The tests submit three fixed well-formed requests; requests with odd framing, many headers, non-matching or metadata headers, or arriving in other states are not sampled.",
 [BH,SQ,MQ],[("eval command processing",BH+": process_client_eval"),("enqueue result",SQ+", "+MQ)],(),["messages to clients and monitor"])

prop("C06","A failing job is retried only up to the configured limit",
 "A job whose processing fails internally or whose worker expires is attempted again while its number of failures is below the configured maximum, and is given up exactly when that number is reached: it is then reported failed to the frontend and the monitor and never sent again. Each failed attempt counts exactly once, merely waiting in the queue of an expired worker does not count, and a job reported as FAILED by its worker is not retried.",
 ["histories","inputs","configurations"],"all failure counts, limits, failure kinds and interleavings",
 "The two tests touching the limit use one fixed count and limit each; off-by-one and double-counting errors need the boundary with each failure kind.",
 [BH],[("failure counting and limit check",BH+": process_worker_done, process_timer, check_failure_count")],
 [("failure_count","failed attempts of a request","src/worker.h"),("max_request_failures","configured limit",CF)],["messages to workers, frontend, monitor"])

prop("C07","Silent workers expire on time and live workers never do",
 "A registered worker from which nothing is heard loses one life each time more than one ping interval of accumulated time passes, and is removed exactly when its configured number of lives is used up, starting from its registration; any message from a worker restores its full lives and restarts its interval. A worker that is heard from within every interval is never removed, expiry of one worker never affects another, and a removed worker is forgotten completely.",
 ["histories","schedules","configurations"],"all timings of ticks and messages, all lives and interval settings",
 "The tests expire a worker whose lives are preset to 1 with a single 1100 ms tick; registration followed by silence, several intervals, messages between ticks and boundary elapsed times are never run.",
 [BH,WR],[("per-worker timer and lives",BH+": on_request, process_timer"),("removal",WR)],
 [("liveness","remaining lives","src/worker.h"),("worker timers","time since last heard or last life lost","src/handlers/broker_handler.h")],["registry contents, messages"])

prop("C08","Worker capability matching follows the header rules",
 "A worker satisfies a set of requirements exactly when every requirement header is satisfied: a hardware-group requirement if one of its '|'-separated alternatives equals the worker's group, a thread-count requirement if the worker announced at least that many threads, and any other requirement if the worker announced a header of that name with exactly that value. Headers announced several times with different values satisfy any of those values; a requirement that is not a number where one is needed is never satisfied.",
 ["inputs"],"all worker header sets, requirement names and values (bounded lengths)",
 "The worker tests compare about fifteen literal pairs; prefix/suffix matches, empty alternatives, repeated headers, large or malformed numbers are outside them.",
 [WK],[("header matchers",WK)],(),["worker capability check result"])

prop("C09","Waiting jobs are started in arrival order",
 "Among the waiting jobs a worker is able and entitled to run, it is always given the one that was accepted (or put back, after a failure or after its worker expired) earliest, also when many jobs arrive within the same clock tick. Taking one job out never changes the relative order of the others.",
 ["histories","inputs","schedules"],"all arrival patterns and header assignments, both queue managers",
 "Tests queue at most two jobs; reordering needs several waiting jobs, mixed requirements, removals from the middle or equal arrival times.",
 [SQ,MQ],[("ordered waiting list",SQ),("per-worker FIFO",MQ)],(),["order of eval messages per worker"])

prop("C10","Job data reaches the worker unchanged",
 "Whenever a job is sent to a worker, on the first or any later attempt, the message addressed to that worker consists of the evaluation command, the job identifier and exactly the payload frames the client submitted after the empty delimiter frame, byte for byte and in order. Requirement headers and metadata are not forwarded, and nothing in the payload (empty frames, '=' or 'meta.' prefixes) is interpreted.",
 ["inputs","histories"],"all job ids, header lists, payload frame counts and contents",
 "Tests forward two one-character frames; embedded empty frames, binary bytes and retries with payload are not compared.",
 [BH,"src/worker.h"],[("request data kept verbatim","src/worker.h: job_request_data"),("header/payload split",BH+": process_client_eval")],(),["eval messages to workers"])

prop("C11","Job outcomes are reported truthfully to frontend and monitor",
 "The frontend is told a job succeeded exactly when the worker processing it reports that job done successfully, and that it failed exactly when its worker reports it failed, its retries are exhausted, or it can no longer be processed by any worker, always naming that job, with the worker's own explanation passed on when it gave one. When a worker expires, the monitor is told for each of its jobs either that it was aborted (and will be retried) or that it failed. Reports about a job other than the worker's current one, or with an unknown status, change nothing and are not passed on.",
 ["inputs","histories"],"all done messages (job id, status, message), all states, all expirations",
 "Tests check one message per status; stale or mismatched completions, other statuses, and simultaneous expiry with mixed queues are not sampled.",
 [BH,RN],[("done and expiry processing",BH),("status messages",RN)],(),["messages to frontend notifier and monitor"])

prop("C12","No message from a worker or client can bring the broker down",
 "Whatever sequence of frames a connected worker or client sends (unknown commands, missing or extra frames, malformed headers or numbers, completions of jobs it does not have, messages from unregistered workers), the broker processes it without crashing, without an exception escaping and without touching memory it does not own. A message that is not a valid request leaves registered workers, running jobs and waiting jobs as they were.",
 ["inputs","histories"],"all frame counts and contents within the bounds, in every broker state",
 "Tests send well-formed messages only.",
 [BH,WK,"src/reactor/command_holder.cpp"],[("argument checks in command handlers",BH),("numeric header parsing",WK)],(),["absence of exceptions/UB; state observers"])

prop("C13","Messages cross the sockets with their framing intact",
 "A message handed to a socket for sending produces one complete multipart message: the recipient's identity followed by every data frame in order, byte for byte, and never a partial message that a later one would be glued to. A received multipart message is delivered with its sender identity and exactly its data frames; if reception fails part-way nothing is delivered.",
 ["inputs","fault_sequences"],"all identities and frame lists within the bounds, all send/receive fault points",
 "The only tests of this layer need a live ZeroMQ socket pair of another type, send single short frames, and inject no faults.",
 [RS,"src/reactor/socket_wrapper_base.cpp",RE],[("frame loop with more-flag",RS),("poll loop",RE)],(),["ZeroMQ C API calls"])

prop("C14","The reactor routes every message to exactly the right place",
 "A message arriving on a socket is passed once to each handler subscribed to that socket and to no other; a response goes out through the socket it names, or to the handlers subscribed to that name when there is no such socket. Messages to and from an asynchronous handler arrive complete, unmodified, exactly once and in order, whatever the scheduling of its thread, from the moment the handler was added, and a loop that terminates, or a reactor that is destroyed because its loop could not start, stops every handler.",
 ["schedules","inputs"],"all keys, subscriptions, message contents within the bounds and all schedules of handler threads",
 "The reactor tests depend on sleeps and one schedule each, and are not among the reliable tests.",
 [RE,"src/reactor/reactor.h","src/reactor/command_holder.cpp"],[("subscription maps",RE),("asynchronous handler thread",RE)],(),["handler calls, socket sends"])

prop("C15","Frontend notifications are delivered or retried, and arrive uncorrupted",
 "Each notification becomes an HTTP POST to the configured address, port and credentials, with the path built from its type and job id and all other fields as form parameters that decode back to exactly the original keys and values. A failed attempt is retried up to a total of four attempts with waiting times growing from one second by doubling, and no attempt is made after one has succeeded.",
 ["inputs","fault_sequences","configurations"],"all field values within the bounds, all success/failure patterns of the HTTP attempts",
 "No test exercises the HTTP path at all.",
 [SN,CU,RN],[("retry loop",SN),("request construction",CU)],(),["libcurl calls, sleeps"])

prop("C16","Runtime statistics tell the truth",
 "A statistics request is answered, to the requesting client only, with all statistics as name/value pairs: the number of jobs workers reported done successfully and the number of attempts they reported failed (FAILED or INTERNAL_ERROR) since start, the current frozen state, and - as of the last timer tick - the numbers of registered workers, idle workers, jobs in progress and waiting jobs, each equal to the true value.",
 ["histories"],"all histories of submissions, completions, failures, registrations, expirations",
 "No test requests the statistics.",
 [BH],[("runtime counters",BH+": process_timer, process_worker_done, process_client_get_runtime_stats")],(),["get-runtime-stats response"])

prop("C17","Configuration values are honoured or rejected, never altered",
 "For every configuration document, each recognised setting given as a scalar takes exactly the configured value, each absent one its documented default independently of the others, and a value that cannot be represented in its type causes a configuration error instead of a silently different setting. A document that is not a map is rejected.",
 ["inputs","configurations"],"all subsets of settings present, all scalar values within the bounds, wrong node kinds",
 "Tests load one full document and three invalid ones; interactions of missing sections, boundary values and defaults are not covered.",
 [CF,"src/config/broker_config.h","src/config/notifier_config.h","src/config/log_config.h"],[("per-key loading",CF)],(),["configuration getters"])

prop("C18","Freezing stops new jobs and nothing else",
 "After a freeze request is acknowledged every evaluation request is rejected, until an unfreeze request is acknowledged, after which requests are again judged on worker availability alone. Freezing does not affect accepted jobs: running and waiting jobs complete, are retried and are dispatched exactly as without it.",
 ["histories"],"all interleavings of freeze/unfreeze with other events",
 "One test freezes once and submits once; unfreeze, repeated freezing and the fate of queued jobs are not exercised.",
 [BH],[("frozen flag",BH+": process_client_freeze, process_client_unfreeze, process_client_eval")],(),["messages"])

prop("C19","Worker registration keeps one truthful record per worker",
 "After any sequence of registrations there is exactly one record per worker identity, holding the hardware group, headers, description and current job the worker announced in its most recent differing registration; repeating a registration with the same hardware group and headers changes nothing and a different one replaces the old record, is reported to the frontend, and hands the old record's unfinished jobs on. A ping is answered pong if the sender is registered and with a request to introduce itself otherwise, always to the sender.",
 ["inputs","histories"],"all sequences of init and ping messages, all header lists within the bounds",
 "Tests register one worker once and repeat one identical registration.",
 [BH,WR,WK],[("init processing",BH+": process_worker_init"),("registry lookup",WR)],(),["registry contents, messages"])

prop("C20","Progress updates and worker descriptions are passed on faithfully",
 "Every progress message from a worker is forwarded to the monitor with exactly its frames after the command, in order and unchanged, and a progress message without content is not forwarded at all. The printable worker description contains every byte of the worker's identity as exactly two lower-case hexadecimal digits, in order, so different identities never look the same, followed by the announced description if there is one.",
 ["inputs"],"all frame lists and identities within the bounds, all byte values",
 "Tests forward one two-frame message and print one ASCII identity.",
 [BH,WK,"src/helpers/string_to_hex.cpp"],[("progress forwarding",BH+": process_worker_progress"),("hex conversion","src/helpers/string_to_hex.cpp")],(),["messages to monitor, description text"])

prop("C21","Elapsed time reported to timers adds up to real time",
 "The sum of the elapsed times the main loop reports to its timer subscribers never differs from the real time passed since the loop started by more than one millisecond at the moment of reporting, however often sockets wake the loop, however long handlers run, and however the wall clock is adjusted. One report is made per loop pass, after the messages of that pass have been handled.",
 ["schedules","fault_sequences"],"all sequences of poll wake-ups, handler durations and clock readings",
 "The reactor timer test merely waits 200 ms and checks that at most one message arrived.",
 [RE],[("elapsed time computation",RE+": start_loop")],(),["timer messages"])

prop("C22","The configured log level selects exactly that verbosity",
 "Each of the log level names off, critical, err, warn, info, debug and trace selects the level of that name, the documented names emerg and alert select critical and notice selects info, an unknown name selects the most verbose level, and comparing two levels yields a negative, zero or positive result exactly when the first is less, equally or more verbose than the second, for every pair of levels.",
 ["inputs"],"all level names within the length bound and all pairs of levels",
 "There is no test of the log level helpers.",
 ["src/helpers/logger.cpp"],[("level mapping","src/helpers/logger.cpp")],(),["helper return values"])

prop("C23","The broker that starts is the one its command line and configuration describe",
 "The program reads the configuration file named by -c or --config, config.yml when none is named, and no other. It then logs to the configured file, creating its directory if needed, with the configured level, size limit and number of files, opens the configured client, worker and monitor endpoints, and dispatches jobs with the configured queue manager: a single queue shared by all workers by default or when single is named, a queue of its own for every worker when multi is named. Called with wrong options or asked for help, or with a configuration that is missing, malformed or names another queue manager, or when the log cannot be created or an endpoint is taken, it brokers nothing and ends in an orderly way, with a failure status except for help.",
 ["inputs","configurations","fault_sequences"],"all command line forms, file and manager names within the bounds, all log settings, all startup failures",
 "No test constructs broker_core or runs main; the build of this sandbox does not even compile broker_core.cpp.",
 ["src/main.cpp","src/broker_core.cpp","src/broker_core.h","src/broker_connect.cpp"],[("startup sequence","src/broker_core.cpp")],(),["exit status, files and sockets opened"])

prop("C24","Finished work leaves nothing behind",
 "What the broker holds - memory, HTTP handles, sockets - depends only on the workers that are registered and the jobs that are not finished, not on what it has done before: after any amount of work whose jobs are finished and whose additional workers have expired it holds no more than before, however the jobs ended, workers came and went, and unintelligible messages arrived. It can therefore run for an unlimited time.",
 ["histories","fault_sequences"],"all repetitions of pairs of the kinds of work within the bounds",
 "Tests end after a few messages and look at answers only.",
 [BH,MQ,SQ,WR,CU,RE],[("per-worker and per-job tables",BH+": worker_timers_, removal of workers")],(),["allocated memory, open handles and sockets"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
