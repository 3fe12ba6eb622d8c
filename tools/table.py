#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing it."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, technique="", note="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, hook=hook, technique=technique, note=note, claimed=claimed, reason=reason))

SCHEDHOOK = "cfg(dam_verif_sched): a cooperative seeded scheduler behind the shim module"
TRUST = " Trusts the harness's own scheduler and reference model; in scheduled runs memory is sequentially consistent (the native runs of the same generator add real parallelism). Absence is not proved."

prop("C01", "Channels deliver every element once, in order, then report closed",
 "Whatever a context sends on a channel arrives at the receiving context exactly once, unchanged and in sending order, under every schedule. Closed is reported only after the sender is gone and every element has been taken, and from then on every further read says closed.",
 ["programs", "schedules"], "all feasible programs of contexts and channels (bounded, unbounded, cyclic, self-loops, both flavor modes), all thread interleavings",
 "The channel tests run one producer and one consumer with fixed capacities and whatever interleaving the host gives; no cycles, no sharing of contexts, no early closing.",
 ["src/channel/mod.rs", "src/channel/receiver/mod.rs", "src/channel/receiver/acyclic.rs", "src/channel/receiver/cyclic.rs", "src/channel/sender/mod.rs", "src/channel/sender/bounded.rs", "src/channel/handle.rs"],
 [("a cached head element which peek fills and dequeue empties", "src/channel/receiver/mod.rs"), ("set_flavor wires one queue per channel", "src/channel/handle.rs")],
 state=[("head", "element or closed/nothing verdict already taken off the queue", "src/channel/receiver/mod.rs")], observe=["Receiver::dequeue", "Receiver::peek_next", "Receiver::peek"], hook=SCHEDHOOK,
 technique="stateful property-based testing: feasible-by-construction random programs under a seeded scheduler, FIFO history oracle",
 note="Generated search over random networks and schedules with shrinking; a deadlock of a feasible program counts as loss." + TRUST)

prop("C02", "Element timestamps and clocks follow the latency law",
 "An element becomes available at the later of the time its sender asked for and the sender's clock at sending plus the channel's latency, and carries exactly that time. Taking an element moves the receiver's clock to the later of its own value and the element's time, never back and never further.",
 ["programs", "schedules", "inputs"], "all programs, latencies, requested times and schedules",
 "Existing tests look at values, hardly ever at times; only one latency test exists and it fixes one topology.",
 ["src/channel/sender/mod.rs", "src/channel/receiver/acyclic.rs", "src/channel/receiver/cyclic.rs", "src/view/basic.rs"],
 [("enqueue raises the element's time to clock + latency", "src/channel/sender/mod.rs"), ("dequeue advances to the element's time", "src/channel/receiver/")],
 observe=["ChannelElement::time", "TimeManager::tick"], hook=SCHEDHOOK,
 technique="property-based testing of random timed programs, latency-law oracle over both ends' histories",
 note="Checks every send/receive pair of every generated history exactly." + TRUST)

prop("C03", "Bounded channels hold back senders exactly as long as they are full",
 "A channel never holds more elements than its capacity in simulated time: a send which finds it full completes exactly when the response for the element that frees its slot arrives (the time that element was taken plus the response latency), or at once if that is already past. Waiting for room explicitly and then sending costs the same as sending alone.",
 ["programs", "schedules"], "all capacities, latencies, access patterns and schedules, with and without flavor inference",
 "Tests use bounded channels but never assert when a blocked sender resumes; the wait-then-send combination is only exercised without inference.",
 ["src/channel/sender/bounded.rs", "src/channel/sender/mod.rs", "src/channel/receiver/mod.rs"],
 [("send_receive_delta counts elements without a response", "src/channel/sender/bounded.rs"), ("register_recv sends the response time", "src/channel/receiver/mod.rs"), ("next_available defers a response from the future", "src/channel/sender/bounded.rs")],
 state=[("send_receive_delta", "sends minus consumed responses", "src/channel/sender/bounded.rs"), ("next_available", "response or check-back time already seen", "src/channel/sender/bounded.rs")],
 observe=["Sender::enqueue", "Sender::wait_until_available", "TimeManager::tick"], hook=SCHEDHOOK,
 technique="property-based testing of random bounded programs, exact stall-time oracle (k-th send against the (k-capacity)-th dequeue)",
 note="Exact equality of every send's completion time." + TRUST)

prop("C04", "Results and simulated times do not depend on the schedule",
 "For a given program, every value received, every timestamp, every clock reading at a program point and the total of elapsed cycles are the same under every thread schedule. What may differ is only what a non-blocking peek happens to see and the clock directly after a channel is found closed.",
 ["programs", "schedules"], "all programs and interleavings",
 "Every test runs once under the host's interleaving; nothing compares two schedules.",
 ["src/view/basic.rs", "src/channel/receiver/cyclic.rs", "src/channel/receiver/mod.rs", "src/channel/sender/bounded.rs", "src/datastructures/time.rs", "src/simulation/initialized.rs"],
 [("wait_until on the peer's clock before deciding that nothing is there", "src/channel/receiver/mod.rs"), ("signal buffer and park/unpark", "src/view/basic.rs")],
 observe=["Executed::elapsed_cycles", "element times"], hook=SCHEDHOOK,
 technique="differential property-based testing: one random program under several seeded schedules (random walk and priority-based, spurious wakeups)",
 note="Differential, so independent of the reference model; the schedule-dependent clock after closing is the recorded finding F-CLOSE-CLOCK." + TRUST)

prop("C05", "Flavor inference changes speed, never results",
 "Running the same program with and without channel flavor inference gives the same values, timestamps, program-point clocks and elapsed cycles, and never turns a program that finishes into one that hangs. This holds for graphs with and without cycles and for contexts that declare their own input-to-output connections.",
 ["programs", "configurations", "schedules"], "all program graphs including mixed cyclic/acyclic ones, both settings of inference",
 "Two tests run one acyclic channel with inference on; cycles, mixtures and explicit connections are never compared.",
 ["src/simulation/building.rs", "src/channel/handle.rs", "src/channel/receiver/acyclic.rs", "src/channel/sender/bounded.rs", "src/templates/pmu.rs"],
 [("strongly connected components decide the flavor", "src/simulation/building.rs"), ("edge_connections of composite contexts", "src/templates/pmu.rs")],
 observe=["InitializationOptions", "element times"], hook=SCHEDHOOK,
 technique="differential property-based testing: inference on against off on random graphs, including contexts with explicit connections",
 note="Peeking at bounded channels under inference is excluded by construction (recorded finding F-INFER-PEEK)." + TRUST)

prop("C06", "Feasible simulations always finish",
 "A program whose operations can all be carried out in some order is carried out to the end under every schedule: no lost wakeup, no deadlock and no endless waiting of one context for another's clock.",
 ["programs", "schedules"], "all feasible programs, all interleavings including spurious wakeups",
 "A hang shows only under particular interleavings of clock reads, signal registration and parking, which the tests do not control.",
 ["src/view/basic.rs", "src/datastructures/time.rs", "src/channel/receiver/mod.rs", "src/channel/receiver/cyclic.rs", "src/channel/sender/bounded.rs", "src/simulation/initialized.rs"],
 [("time is rechecked under the signal buffer's lock before parking", "src/view/basic.rs"), ("a finished context's clock becomes infinite and signals everybody", "src/view/basic.rs")],
 state=[("signal_buffer", "threads to wake at a time", "src/view/basic.rs")], observe=["Initialized::run returning"], hook=SCHEDHOOK,
 technique="property-based testing under a scheduler with exact deadlock detection; feasibility by construction",
 note="Deadlock is detected exactly (no runnable thread), endless waiting by a step bound far above what the model needs." + TRUST)

prop("C07", "A peek never lies about what will arrive",
 "A peek that shows an element shows the one the next dequeue returns; a peek that reports nothing up to a time is at least current with the receiver's clock, and no element with a time at or before that ever arrives; a peek that reports closed is never followed by an element. Peeking never moves the clock, and waiting for the next element moves it exactly to that element's time.",
 ["programs", "schedules"], "all programs mixing peeks with sends, dequeues and closing, all interleavings",
 "One test peeks a single producer's trace; races between the peek, the sender's clock and its sends are not reached.",
 ["src/channel/receiver/mod.rs", "src/channel/receiver/cyclic.rs", "src/channel/receiver/acyclic.rs", "src/channel/mod.rs"],
 [("the queue is looked at again after waiting for the sender's clock", "src/channel/receiver/mod.rs")],
 state=[("head", "cached verdict of the last peek", "src/channel/receiver/mod.rs")], observe=["Receiver::peek", "Receiver::peek_next"], hook=SCHEDHOOK,
 technique="property-based testing with peeks at random points, oracle: the peek's claim against the whole later history",
 note="Every claim of every peek is checked against the complete history of the channel." + TRUST)

prop("C08", "Combined events report the first possible moment, soundly",
 "The next event of any of several sources is the earliest one that can happen; the next event of all of several sources is ready only when every one is ready, and then at the latest of their times. Neither ever claims readiness that is not there, a 'nothing until' that a later event contradicts, or closing while an event can still come, so an arbiter built on them serves requests in timestamp order under every schedule.",
 ["programs", "schedules", "inputs"], "all lists of event states, and all arbiter programs over several channels and schedules",
 "The only event test has one receiver; combinators over several sources in mixed states are untested.",
 ["src/channel/utils.rs", "src/templates/dram.rs", "src/templates/pmu.rs"],
 [("ordering of event times", "src/channel/utils.rs"), ("EventAny / EventAll", "src/channel/utils.rs")],
 observe=["Peekable::next_event", "any_event", "all_events"], hook=SCHEDHOOK,
 technique="property-based testing: algebraic checks of the combinators against a set-of-possible-futures model, and generated arbiter/join programs against a timestamp-ordered merge",
 note="The combinator check is by enumeration of the futures each state allows." + TRUST)

prop("C09", "Ending a channel is seen by the other side, cleanly",
 "When the receiving side of a channel goes away, its sender's attempts eventually return an error instead of hanging or panicking, and once the sender knows (through any other channel) that the receiver is gone, every further attempt fails; when the sending side goes away the receiver gets all remaining elements and then a closed error. Sending to a void never fails, blocks or costs time, and using an endpoint of an uninitialised program panics rather than losing data.",
 ["programs", "schedules", "fault_sequences"], "all points at which either end may be dropped, all capacities and flavors, all interleavings",
 "One test covers one broken pipeline; timing of the drop against blocked sends is never varied.",
 ["src/channel/mod.rs", "src/channel/sender/bounded.rs", "src/channel/sender/void.rs", "src/channel/receiver/terminated.rs", "src/channel/sender/terminated.rs", "src/channel/handle.rs"],
 [("Drop replaces the endpoint by a terminated one", "src/channel/mod.rs"), ("Never is remembered on disconnect", "src/channel/sender/bounded.rs")],
 observe=["EnqueueError", "DequeueError"], hook=SCHEDHOOK,
 technique="fault-injecting property-based testing: endpoints dropped at generated points under generated schedules",
 note="Deadlock counts as a violation; exact error results are required where a happens-before edge makes them certain." + TRUST)

prop("C10", "Clocks only move forward and waiting on them is exact",
 "A context's clock never goes back: incrementing adds exactly that many cycles and advancing to a past time does nothing. Waiting for another context's clock returns only once it has reached the requested time and always returns when it does; a finished context counts as infinitely late while keeping its last tick, and a view of several contexts reports the slowest.",
 ["schedules", "inputs", "histories"], "all sequences of clock operations, all numbers of waiters and targets, all interleavings with finishing",
 "There is no test of views or waiting at all; the races are between clock store, signal scan and registration.",
 ["src/view/basic.rs", "src/view/parent.rs", "src/datastructures/time.rs"],
 [("advance scans the signal buffer under its lock", "src/view/basic.rs"), ("try_advance refuses to go back", "src/datastructures/time.rs")],
 state=[("signal_buffer", "threads waiting for a time", "src/view/basic.rs"), ("time/done", "tick count and finished flag", "src/datastructures/time.rs")],
 observe=["TimeManager", "ContextView::wait_until", "ContextView::tick_lower_bound"], hook=SCHEDHOOK,
 technique="model-based testing of random clock histories with concurrent observers under a seeded scheduler",
 note="Observers' results are checked against the owner's history." + TRUST)

prop("C11", "Timestamps form a consistent ordered algebra",
 "Timestamps are totally ordered by tick with every infinite timestamp equal to each other and above all finite ones; ordering, equality, maximum and minimum agree with each other. Adding and subtracting cycles is exact and keeps infinity, adding two times gives infinity if either is, in-place addition agrees with addition, and conversion and serialisation keep both the tick and the infinity; a finite timestamp prints as its tick, and unequal ones print differently.",
 ["inputs"], "all pairs and triples of timestamps, including the largest ticks and infinite ones with different ticks",
 "Three unit tests look at a handful of constants.",
 ["src/datastructures/time.rs"],
 [("a done flag beside the tick", "src/datastructures/time.rs")],
 observe=["Ord/Eq/Add/Sub/Display of Time"],
 technique="property-based testing of algebraic laws against a (infinite, tick) model, boundary-heavy generation",
 note="Sampled, with boundary values over-represented; overflow is a panic in debug builds and is not judged.")

prop("C12", "Initialisation accepts exactly the well-formed programs",
 "Initialising a program succeeds exactly when every channel has both ends attached (a void only its sender) and every attached context has been added; otherwise it returns an error that names a channel or context which really has that problem. A successful initialisation initialises every context exactly once, runs every one exactly once, and construction rejects zero latencies.",
 ["programs", "configurations"], "all program graphs with any subset of ends detached or contexts left out, both inference settings, composite contexts",
 "No test builds an ill-formed program.",
 ["src/simulation/building.rs", "src/simulation/programdata.rs", "src/channel/channel_spec.rs", "src/simulation/initialized.rs"],
 [("ProgramData::check", "src/simulation/programdata.rs"), ("assertions on latencies", "src/channel/channel_spec.rs")],
 observe=["ProgramBuilder::initialize", "InitializationError"],
 technique="property-based testing: random graphs with generated defects, oracle: an independent well-formedness predicate",
 note="Error kind and named id are checked against the set of real problems.")

prop("C13", "Failures are reported, and only failures",
 "A run passes exactly when no context returned an error or panicked through the fallible entry point; each failing context is reported exactly once, by its own identifier and with its error, and does not stop the others from finishing. The elapsed cycle count is the largest tick any successfully finished context (or part of one) reached, and is absent only if there is none. A context which panics where nothing turns that into an error takes the run as a whole down, but only after all others have come to their ends.",
 ["programs", "schedules", "fault_sequences"], "all subsets of contexts failing at any point by error or panic, all interleavings",
 "One test has one failing context and only checks that it failed.",
 ["src/simulation/executed.rs", "src/simulation/initialized.rs", "src/context/mod.rs", "src/context/summary.rs", "src/templates/pmu.rs"],
 [("failures and summaries are collected per thread", "src/simulation/initialized.rs"), ("panics of the infallible entry point become errors", "src/context/mod.rs")],
 observe=["Executed::passed", "Executed::run_failures", "Executed::elapsed_cycles"], hook=SCHEDHOOK,
 technique="fault-injecting property-based testing with an exact expected failure set",
 note="Failing contexts are custom ones whose failures are planned by the generator, and memory units and pipelines asked for what they must refuse or left by whoever takes their replies." + TRUST)

prop("C14", "The datastore answers as of the time asked",
 "Reading an address at a time returns the value of the latest write to it at or before that time, whatever later writes exist and whatever order reads come in; before the first write it returns the default value or panics as configured. Addresses beyond the capacity wrap or panic as configured, writes that go back in time are refused, and other addresses are never affected.",
 ["histories", "inputs"], "all histories of reads and writes over addresses and times, all configurations",
 "The datastore has no test of its own.",
 ["src/templates/datastore.rs"],
 [("per-address history searched by time", "src/templates/datastore.rs")],
 state=[("underlying", "history of each address", "src/templates/datastore.rs")], observe=["Datastore::read", "Datastore::write"],
 technique="model-based testing of random read/write histories against a sorted-map model, including expected panics",
 note="Sequential histories; concurrency is covered through C15.")

prop("C15", "The memory unit reads and writes consistently in simulated time",
 "Every read of the memory unit returns the latest write to that address whose time is not after the read's own time, under every schedule and however many read and write ports there are. Each port serves its requests in order with one response per request and none lost; the read side and the write side each perform one operation per cycle, earliest request first, never before the request's inputs are available.",
 ["programs", "schedules", "histories"], "all request streams on any number of ports, all channel shapes and schedules, both inference settings",
 "The only test writes 64 cells and reads each after its acknowledgement through one port each.",
 ["src/templates/pmu.rs", "src/templates/datastore.rs"],
 [("the reader waits for the writer's clock", "src/templates/pmu.rs"), ("earliest next event is served", "src/templates/pmu.rs")],
 observe=["response and acknowledgement channels"], hook=SCHEDHOOK,
 technique="model-based property-based testing: random multi-port request streams, oracle computed from requests and observed acknowledgement times; schedules and inference varied",
 note="Responses are checked against the write history reconstructed from acknowledgements." + TRUST)

prop("C16", "The DRAM model keeps data and respects its limits",
 "Every DRAM read returns, in order, the values most recently written (or filled) to the addresses asked for, as observed by clients that order their accesses; each request gets exactly one reply per read element or one acknowledgement per write. A transfer starts once the latency since the request was accepted has passed and the previous transfer is over, and takes its size in bits divided by the bandwidth (rounded down), so transfers never overlap; the next request is accepted only when fewer than the configured number are outstanding.",
 ["programs", "schedules", "configurations"], "all request streams on several read and write ports, all latencies, bandwidths and windows, all schedules",
 "One test writes and reads back one range through one port each and checks no times.",
 ["src/templates/dram.rs", "src/templates/datastore.rs"],
 [("request_windows holds transfer end times", "src/templates/dram.rs"), ("transfers start after the previous one ends", "src/templates/dram.rs")],
 state=[("request_windows", "end times of outstanding transfers", "src/templates/dram.rs")], observe=["data and ack channels"],
 hook="cfg(dam_verif): constructors for the DRAM configuration and bundles, whose fields are private; " + SCHEDHOOK,
 technique="model-based property-based testing: random request streams, value and exact timing oracle; schedules varied",
 note="Timing oracle recomputed from requests." + TRUST)

prop("C17", "The compute pipeline computes its stages, one result per input per cycle",
 "The pipeline unit's k-th result equals applying its stages in order to the k-th set of inputs with the declared register reads, forwards and accumulations carried over between inputs, for any depth, with missing stages passing values through. Each result appears one pipeline depth after the moment all of its inputs are available, inputs are accepted at most once per cycle, and it ends when any input does.",
 ["programs", "inputs", "schedules"], "all stage programs, register layouts, input streams, timings and schedules",
 "One test runs one fixed two-stage program and checks values only; reductions are never used.",
 ["src/templates/pcu.rs", "src/templates/ops.rs"],
 [("stages applied front to back each iteration", "src/templates/pcu.rs"), ("operation macro binding registers", "src/templates/ops.rs")],
 state=[("registers", "one row per stage boundary", "src/templates/pcu.rs")], observe=["output channel"], hook=SCHEDHOOK,
 technique="model-based property-based testing: random stage programs against an independent interpreter for values and times",
 note="Values and exact times." + TRUST)

prop("C18", "Library sources, broadcasts and sinks move data faithfully",
 "A generator emits its sequence in order, one element per cycle; a trace hands each element over one cycle before its given time, so that without back-pressure it arrives over a unit-latency channel exactly then, for any non-decreasing times including zero; a broadcast sends every element to every target in order, all with the same requested time, and a consumer drains everything. A source or checker which is asked to run a second time refuses and changes nothing. All of this holds for any capacities, latencies, number of targets and schedule.",
 ["programs", "inputs", "schedules"], "all sequences, traces, fan-outs, channel shapes and schedules, both inference settings",
 "The broadcast test uses one shape without inference; the trace test does not check times and its generator can produce a time the context rejects.",
 ["src/utility_contexts/generator_context.rs", "src/utility_contexts/trace_context.rs", "src/utility_contexts/broadcast_context.rs", "src/utility_contexts/consumer_context.rs", "src/utility_contexts/function_context.rs"],
 [("wait for all targets before sending to any", "src/utility_contexts/broadcast_context.rs"), ("advance to just before the element's time", "src/utility_contexts/trace_context.rs")],
 observe=["output channels"], hook=SCHEDHOOK,
 technique="property-based testing of random pipelines of library contexts against a timed reference model",
 note="Values and exact times." + TRUST)

prop("C19", "Checkers accept exactly the streams that match",
 "A checker makes its run fail if and only if the stream differs from the expected sequence within its length: some element is unequal (or outside the given tolerance), or the stream ends early. Extra elements after the expected ones are not a failure of the checker, and an exact checker reports the first differing position. A checker whose stream ends early reports how many elements there were and on which channel.",
 ["inputs", "programs", "schedules"], "all expected/actual sequences with any single or multiple differences, any tolerance function, all schedules",
 "Checkers are used by the tests but only on matching data, so a checker which never fails would go unnoticed.",
 ["src/utility_contexts/checker_context.rs", "src/utility_contexts/approx_checker_context.rs", "src/simulation/executed.rs"],
 [("element-wise comparison with the iterator", "src/utility_contexts/checker_context.rs")],
 observe=["Executed::passed", "Executed::run_failures"], hook=SCHEDHOOK,
 technique="property-based testing with mutated streams, oracle: first difference computed independently",
 note="Verdict and reported position." + TRUST)

prop("C20", "Logging records the right events and never disturbs the run",
 "With a logger installed, exactly the events whose type the filter allows are recorded, in program order per context, each with the context's identifier and its clock before the event, and every recorded event decodes to what was logged. Deferred events are only built when they will be recorded, a filter naming an unknown event type is rejected with exactly the unknown names, and logging on or off never changes simulation results.",
 ["histories", "configurations", "programs"], "all sequences of events and clock moves, all filters, several contexts and nested ones",
 "No test reads a log; the logging tests need a database server that is not there.",
 ["src/logging/mod.rs", "src/logging/log_functions.rs", "src/logging/log_interface.rs", "src/logging/registry.rs", "src/view/basic.rs", "dam-macros/src/lib.rs"],
 [("thread-local log interface", "src/logging/log_functions.rs"), ("ticks updated with the clock", "src/view/basic.rs")],
 observe=["LogEntry stream", "LogFilter::check"], hook=SCHEDHOOK,
 technique="model-based property-based testing: random event/clock histories against an expected log, differential runs with logging on and off",
 note="The log is observed through its public interface." + TRUST)

prop("C21", "The graph export shows the program as it is",
 "The exported graph of an initialised or executed program has exactly one node per context (composites as clusters with their parts), exactly one edge per channel connecting two contexts, between the right ones, with its capacity and latencies; the executed form also shows the elapsed ticks of each context that finished. The text form parses back to the same graph.",
 ["programs"], "all program graphs, including parallel channels, self-loops, voids and composite contexts",
 "Tests only print the graph.",
 ["src/simulation/dot.rs", "src/simulation/initialized.rs", "src/simulation/executed.rs"],
 [("nodes from the contexts, edges from the channels", "src/simulation/dot.rs")],
 observe=["to_dot", "to_dot_string"],
 technique="property-based testing: random graphs exported, parsed back and compared with the generated graph",
 note="Parsing with the same graph library and a line scan.")

prop("C22", "Data types report their size and placeholders behave like their type",
 "Every built-in scalar reports its width in bits, a pair the sum of its parts, the empty type zero, and an array its element count times the element width for every shape. An unevaluated placeholder has the size of the type it stands for and can flow through arithmetic and channels, and typed channel adapters deliver exactly the converted values and times. Converting a channel element keeps its time.",
 ["inputs"], "all scalar values, nestings of pairs, array shapes, and element streams through adapters",
 "Two unit tests look at one pair and one 2x2 array; adapters and placeholders are untested.",
 ["src/types/scalar.rs", "src/types/tensor.rs", "src/types/unevaluated.rs", "src/types/mod.rs", "src/channel/adapters.rs"],
 [("static sizes", "src/types/scalar.rs"), ("conversion in the adapters", "src/channel/adapters.rs")],
 observe=["DAMType::dam_size", "RecvAdapter", "SendAdapter"],
 technique="property-based testing over generated values, shapes and adapter streams against direct computation",
 note="Values of every registered type, random shapes.")

prop("C23", "Build configurations agree on every result",
 "Backing bounded channels by unbounded queues, or stepping the clock cycle by cycle, changes neither values nor timestamps nor elapsed cycles of any program that the standard configuration completes.",
 ["configurations", "programs"], "all programs under the standard, unbounded-channels and cycle-like builds",
 "The test suite is built with one configuration.",
 ["src/channel/handle.rs", "src/datastructures/time.rs", "Cargo.toml"],
 [("feature-gated queue construction", "src/channel/handle.rs"), ("feature-gated yielding in the clock", "src/datastructures/time.rs")],
 observe=["element times", "elapsed_cycles"], hook=SCHEDHOOK,
 technique="differential property-based testing across separately built configurations, each judged by the same history laws and compared by digest",
 note="One binary per configuration; digests of histories compared." + TRUST)

prop("C24", "Identifiers are unique and stable",
 "Every context and every channel ever created has an identifier different from all others of its kind, including ones created concurrently on many threads, and both ends of a channel, the context's views, summaries, errors and exported graphs all use that same identifier.",
 ["programs", "schedules"], "all interleavings of concurrent creation, all program graphs",
 "No test creates identifiers concurrently or compares them.",
 ["src/datastructures/identifier.rs", "src/channel/channel_id.rs", "src/context/mod.rs", "dam-macros/src/lib.rs"],
 [("atomic counters", "src/datastructures/identifier.rs")],
 observe=["Identifiable::id", "Sender::id", "Receiver::id"],
 technique="concurrent property-based testing: generated creation patterns on many threads, uniqueness over the whole process",
 note="Native threads only: the counters are plain atomics.")

def write(claimed):
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]: anchors["observe_at"] = list(p["observe"])
            anchors["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "hooks": {"guard": "rustc cfg flags dam_verif and dam_verif_sched",
                   "enable": "RUSTFLAGS=\"--cfg dam_verif [--cfg dam_verif_sched]\" when building /verif/harness (done by check.py)",
                   "source_commits": [h.split()[0] for h in hooks if h.split(" ", 1)[1].startswith("hook:")]},
         "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in claimed:
            m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                                "evidence_file": f"evidence/{p['id']}.json",
                                "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"] or "check still being built in this session"})
    m["notes"] = "See DESIGN.md. Every check builds /verif/harness against /repo's working tree itself."
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__":
    claimed = open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()
    write(claimed)
