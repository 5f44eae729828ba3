"""What the evidence files say about each check, apart from what is measured."""

REAL = [
    "ros_pointcloud2 and rpcl2-derive: compiled from /repo's working tree, instrumented with a step at every branch and memory access",
]
REAL_RAYON = ["rayon (its plumbing, adapters, collectors): the real crate"]
STUB_POOL = "rayon-core: replaced by a simulated pool with the same API (join, scope, spawn, broadcast, current_num_threads); who steals which job, and when, is drawn from the seed"
STUB_HEAP = "global allocator: a checked heap per run (guard pages or canaries, placement and fill drawn from the seed, poisoned after free, failing allocations)"
STUB_THREADS = "thread scheduling: caller threads and pool workers hand on one baton; the seed decides who runs, at memory-access granularity when preemption is on"
STUB_RANDOM = "operating system randomness (hash map seeds): drawn from the seed"
NO_CLOCK = "the library reads no clock; no simulated time passes in this workload, effort is counted in instrumented steps"

BASE_ASSUME = [
    "x86-64, little endian, Rust stable; big-endian hosts are not simulated (big-endian messages are)",
    "interleavings are sequentially consistent: reorderings of a weaker memory model are not explored",
    "seeded sampling: a clean batch is evidence, not proof",
]

_RULE = "One run is one program drawn from one seed (configuration, cloud, operations, schedule, faults), executed in its own process. "
_COUNT = " Runs that reach the operation under test are non-trivial; distinct_nontrivial counts different event histories among them (hash of the log, summed over build flavours)."


def m(rule, extra_real=(), stubs=(), assume=(), time=NO_CLOCK):
    return {
        "rule": _RULE + rule + _COUNT,
        "real": REAL + list(extra_real),
        "stubs": list(stubs),
        "assumptions": BASE_ASSUME + list(assume),
        "time": time,
    }


SCHED = (STUB_POOL, STUB_THREADS, STUB_HEAP, STUB_RANDOM)
SEQ = (STUB_HEAP, STUB_RANDOM)

META = {
    "C01": m("A message of 0 to 66000 points of one of 21 types is read through one of the parallel pipelines (plain, indexed, short-cut, nested) on a pool of 1 to 64 simulated workers; the answer is compared with the sequential read of the same message.",
             REAL_RAYON, SCHED, ["the sequential read itself is judged by C03 and C07"]),
    "C02": m("Points are written from one of the parallel source shapes on a simulated pool; the message is decoded by an independent strict reader and compared with the message written sequentially.",
             REAL_RAYON, SCHED),
    "C03": m("A point iterator goes through a history of pulls from both ends, skips, splits, length queries, adaptors, drops and panicking conversions; after every step the points and lengths are compared with a double-ended queue.",
             (), SEQ),
    "C04": m("Nodes publish clouds over simulated links and bridges (native, ros2-interfaces over CDR, r2r, rosrust) with loss, duplication, reordering, delay, partitions, restarts and clock jumps; every delivered cloud is compared with the published one, metadata and points.",
             ["cdr-encoding, ros2-interfaces-jazzy message structs: the real crates"] + REAL_RAYON,
             ("network, nodes and clocks: simulated with an event queue", "r2r, rosrust, rosrust_msg: minimal stand-ins with the message structs these crates generate (the real ones need a ROS installation)") + SCHED,
             ["the stand-ins of r2r and rosrust have the same fields as the generated messages"],
             time="the nodes' clocks and link delays run on simulated time"),
    "C05": m("A message, damaged in one to four ways (bits, lengths, dimensions, fields, steps, overflows), is read on every path in a checked heap of drawn placement and fill; the answer is compared with an independent reading of the message definition.",
             (), SCHED),
    "C06": m("The same message - intact, foreign or damaged - is read on every path, the parallel ones under drawn schedules; the answers are compared with each other.",
             REAL_RAYON, SCHED),
    "C07": m("A fleet of publishers with drawn schemas (order, gaps, extra fields, padding, rows, byte order, rolling upgrades) feeds readers of drawn types; every field of every point is compared with an independent decoder.",
             (), SEQ),
    "C08": m("A conversion runs undisturbed, then with a panic at a drawn callback, a failing allocation or an early drop at a drawn instant, then again; live blocks, live points and answers are compared.",
             REAL_RAYON, SCHED),
    "C09": m("A message is written from a stream that lies about its length, ends and resumes, stalls, calls the library, is fed by another thread through a bounded queue, or breaks off; the message is decoded by an independent reader and compared with what the stream handed out.",
             (), SCHED),
    "C10": m("Two to four callers convert at the same time, preempted between memory accesses, nested in each other's callbacks or sharing one split iterator; every answer is compared with the same operation alone.",
             REAL_RAYON, SCHED),
    "C11": m("Clouds and points are saved (JSON, CDR, raw) to a simulated disk with torn, lost and reordered writes, full disks and crashes at any write, and recovered after restarts; whatever was acknowledged reads back, and nothing recovered is garbage.",
             ["serde_json, cdr-encoding, the serde implementations of the library: the real code"],
             ("disk: simulated pages, cache, crashes and errors", "the store on it (checksummed records, atomic replace) belongs to the harness") + SEQ,
             ["acknowledged means the simulated fsync returned success"], time="operations of the store run on simulated time"),
    "C12": m("Every write path writes drawn points of drawn types; the message is checked against the definition of a well formed PointCloud2 and read by an independent strict decoder, with foreign consumers of the raw bytes.",
             REAL_RAYON, SCHED),
    "C13": m("Parallel reads that may stop early (find, any, all, try_for_each, take_any, panicking consumers) run on simulated pools; the answer must be one a sequential reader could justify.",
             REAL_RAYON, SCHED),
    "C14": m("The same operation runs on a cloud and on one eight times as large, on forged messages and through deep split trees; instrumented steps, allocated and live bytes are compared and bounded.",
             REAL_RAYON, SCHED, ["effort inside std and rayon that runs uninstrumented is bounded by wall time only"]),
}
