#!/usr/bin/env python3
# Source of properties.jsonl (kept as code only so that the JSON stays readable and valid).
import json
I="rpcl2/src/iterator.rs"; L="rpcl2/src/lib.rs"; R="rpcl2/src/ros.rs"; P="rpcl2/src/points.rs"; D="rpcl2-derive/src/lib.rs"
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
out=[
p("C01","Parallel reads equal sequential reads under every schedule",
  "Reading a cloud through the parallel iterators yields, for every way the work is split, stolen, stalled and interleaved and for every pool size, exactly the points (and, where the pipeline is ordered, exactly the order) that the sequential read of the same message yields. Every point of the cloud is handed out exactly once, for every cloud size including 0 and 1, and indexed pipelines (reversed, enumerated, zipped, skipped, chunked, length-limited) pair and order the points the same way.",
  ["schedules","inputs"],"all split points, steal decisions, interleavings and pool sizes; all cloud sizes, point types, endiannesses and pipelines",
  "Two tests collect 3-4 points on the ambient pool: they see one split tree chosen by the machine, no reversed or indexed pipeline, no empty cloud.",
  [I,L],[("half-open cursor, split of a shared byte buffer","PointCloudIterator/ByteBufferView/RayonProducer in "+I),("try_into_par_iter",L)],
  ["points returned by the pipeline, in order","number of conversions made per point"],
  [("cursor","front and back position of one iterator part",I+" PointCloudIterator"),("view","byte range and point bounds shared between the parts",I+" ByteBufferView")]),
p("C02","Parallel writes equal sequential writes under every schedule",
  "A message written from a parallel source is, for every split, steal, stall and interleaving of the workers and every pool size, point for point and in order the message written from the same points sequentially. No point is lost, duplicated, reordered or torn, whether the source is indexed, filtered, flattened or chained.",
  ["schedules","inputs"],"all schedules and pool sizes; all cloud sizes, point types and parallel source shapes",
  "One test writes four points from an indexed source on the ambient pool; the join order and split tree are whatever the machine chose.",
  [L],[("try_from_par_iter collects then writes",L)],["fields and points of the resulting message"]),
p("C03","A point iterator hands out each point once, for any history",
  "For any history of operations on a point iterator - pulling from either end, skipping, asking for its length or size hint, splitting it at any position (also after it was partly consumed) and going on with both parts - every point of the cloud is handed out at most once, from the end that was asked, in cloud order, and reported lengths always equal the number of points still to come. Once exhausted it stays exhausted, and a user conversion that panics in the middle of a pull loses at most the point it was converting.",
  ["histories","inputs","crash_points"],"all operation histories over front/back pulls, nth, len, size_hint, split_at, adaptors, drops and mid-pull panics; all cloud sizes including 0",
  "Two unit tests run one fixed five-step history each on three points, never exhaust from the back, never split a consumed or empty iterator, never ask for a length after a pull.",
  [I],[("next / next_back / size_hint / len / split_at",I)],["returned points","size_hint and len after every step"],
  [("iteration, iteration_back","front and back cursor",I)]),
p("C04","A delivered cloud is the published cloud",
  "A cloud that a node publishes and another receives intact - over any chain of ROS 1 / ROS 2 message types and bridges, with loss, duplication, delay, reordering, restarts and clock jumps around it - reads back, on every read path, as exactly the published points bit for bit and in order, whatever write path produced it. The header stamp and frame, dimensions, fields, steps, endianness, density and data of the message arrive unchanged through every hop; the sequence number arrives unchanged wherever every message type on the way carries one.",
  ["fault_sequences","histories","inputs"],"all publish/deliver/crash histories, hop chains, write and read paths, point types and point values (NaN payloads, extremes)",
  "Tests convert one ordinary message once inside one function; only one hop kind is built by the tests, and the ROS 1 and r2r hops are never compiled in this environment.",
  [L,R,P],[("try_from_iter/try_from_vec/try_from_par_iter",L),("From impls between message types",R),("point <-> RPCL2Point conversions",P)],
  ["points decoded by each subscriber","metadata of each delivered message"]),
p("C05","A damaged message never harms its reader",
  "However a message's bytes or metadata were damaged, truncated, forged or made inconsistent in transit or storage, every read of it returns in bounded time with either an error or exactly the points its own fields describe within its own data. It never panics, crashes, or reads or writes outside the message's data, and never returns uninitialised or unrelated memory.",
  ["fault_sequences","inputs"],"all bit flips, truncations, extensions, field and dimension forgeries (including arithmetic overflow) at any hop, for every target point type and read path, any heap layout",
  "No test reads an inconsistent message: the reader's raw copies are only ever run on messages the library has just written itself.",
  [I,L],[("length and bounds checks before reading",I+" TryFrom<PointCloud2Msg>"),("try_into_vec copy paths",L)],
  ["result of each read","process survival under guard pages","independence of the result from heap contents and placement"]),
p("C06","All read paths give the same answer for every message",
  "For every message - intact, foreign or damaged - and every target point type, reading it into a vector, through the sequential iterator and through the parallel iterator either all fail or all succeed with the same points in the same order. The choice of read path is a performance choice only.",
  ["inputs","fault_sequences","schedules"],"all messages (any layout, step, dimensions, endianness, damage), target types and schedules of the parallel path",
  "Tests compare read paths on a handful of dense single-row clouds; the raw-copy paths are chosen by layout, step and endianness combinations the tests do not vary.",
  [L,I],[("byte similarity decides between raw copy and per-point conversion",L),("iterator construction",I)],
  ["Ok/Err and the decoded points of each path"]),
p("C07","Readers match fields by name across mixed message schemas",
  "In a fleet whose publishers order, space, pad, extend, organise (several rows) or byte-swap their point fields differently, a reader gets for each of its point's fields exactly the value of the message field of that name (when it has the datatype the reader declares) in the publisher's encoding, for every point of every row. When the message lacks fields the reader needs, the read fails, and the iterator reads name exactly the missing ones.",
  ["configurations","histories","inputs"],"all field orders, offsets, gaps, extra fields, trailing padding, width x height shapes, endiannesses and rolling schema changes; all target types",
  "Tests read XYZI as XYZ and one reader that needs a prefix of the writer's fields, little-endian and one row only; order, gaps, rows, big-endian and missing fields are never exercised.",
  [I,L,R],[("field lookup and offsets",I+" TryFrom<PointCloud2Msg>"),("byte_similarity",L),("endian aware decoding",L+" PointData::get / FromBytes")],
  ["decoded points per schema version","names carried by the error"]),
p("C08","Interrupted conversions release everything exactly once",
  "When a conversion is interrupted at any instant - a panic in a user conversion, source or consumer, on any worker, a failed allocation, or the caller dropping a half-consumed iterator - the interruption reaches the caller, every buffer and every point is released exactly once (nothing freed or dropped twice, nothing leaked - except that running out of memory, which normally ends the process, may leave buffers behind), and later conversions behave as if it had not happened.",
  ["crash_points","fault_sequences","schedules"],"all interruption points (every user callback, every allocation, every drop point), all conversions, sequential and parallel",
  "No test ever makes a callback panic, an allocation fail or an iterator end early with its memory accounted for.",
  [L,I],[("ownership of buffers in try_from_*/try_into_*",L),("shared buffer lifetime",I)],
  ["live allocations and live points after the interruption","results of later conversions"]),
p("C09","Writing from a stream keeps exactly what the stream yielded",
  "A message written from an iterator contains exactly the points the iterator yielded before it first ended, once each and in order, whatever its size hints, laziness, fusedness, re-entrant use of the library or stalls. A stream that breaks off with a panic yields no message and leaves nothing behind.",
  ["histories","fault_sequences","inputs"],"all stream behaviours: short or missing size hints, ending and resuming, re-entrant library calls, panics at any element; all point types and lengths",
  "Tests only write from a vector's own iterator, whose length is known and exact.",
  [L],[("try_from_iter loop over the source",L)],["points and widths of the written message","pull count seen by the source"]),
p("C10","Concurrent and re-entrant conversions do not influence each other",
  "Conversions running at the same time on several caller threads, nested inside one another's callbacks, or working on parts of one split iterator moved to different threads, produce exactly the results they produce alone, under every interleaving of their memory accesses. No conversion blocks, corrupts or observes another.",
  ["schedules","inputs"],"all interleavings at memory-access granularity of 2-4 callers running any mix of conversions and point types, and all nestings",
  "Tests run one conversion per test function; nothing controls or even observes the interleaving of two conversions.",
  [L,I],[("no shared mutable state; parts of an iterator share an immutable buffer",I),("stateless conversions",L)],
  ["result of every operation compared with the same operation alone"]),
p("C11","Stored clouds and points survive crashes and restarts unchanged",
  "A cloud message or point that was stored through its serialised form and acknowledged as durable is, after any crash, torn or lost write and restart, restored with every field equal to what was stored - header, dimensions, fields, endianness, steps, data, density, and colour and coordinate bits - and reads back as the same points. A record that was not durable is either absent or complete.",
  ["crash_points","histories","inputs"],"all store/flush/crash/restart histories with torn, lost or flipped unsynced writes; all messages and points",
  "No test serialises anything: the serde implementations are compiled but never run.",
  [L,R,P],[("serde derives of the message types",L+" and "+R),("serde of RGB and the predefined points",P)],
  ["restored messages and points compared with the stored ones"]),
p("C12","Every written message is a well-formed PointCloud2",
  "Every message the library writes, by any write path, under any schedule and after any earlier interruption, is self-consistent: width times height is the number of points, row step is width times point step, data length is row step times height, every field lies inside the point step, has a standard datatype and count one, no two fields overlap, names and datatypes are those of the point type in order, and the endianness flag matches the data. A reader that knows nothing but the PointCloud2 definition recovers exactly the written points from it.",
  ["inputs","schedules","histories"],"all write paths, point types (predefined, derived, hand written, reordered by the compiler), sizes, schedules and earlier interruptions",
  "Tests only read messages back with the library itself, which would hide any error made symmetrically, and check no metadata.",
  [L,P,D],[("field and step computation in try_from_iter/try_from_vec",L),("layout()",P+" and "+D),("builder validation",L)],
  ["metadata and data of every message put on the simulated wire"]),
p("C13","Cut-short parallel reads are correct under every schedule",
  "A parallel read that may stop early - searching for any, the first or the last match, testing all or any, taking some, stopping at an error - returns under every schedule an answer that is right for the cloud: positional searches give the exact position and point, existential answers agree with the sequential ones, and whatever is returned are points of the cloud, each used at most once. Workers still running when the answer is found neither invent nor repeat points.",
  ["schedules","inputs"],"all schedules, pool sizes, predicates, stop positions, cloud sizes and point types",
  "No test stops a parallel read early.",
  [I],[("producer splitting and draining into consumers that become full",I)],["answers of searching pipelines compared with the sequential answer"]),
p("C14","Conversions make bounded progress and use bounded memory",
  "Every conversion, read, split and drop finishes within a number of steps proportional to the size of the message and of the points handed out, under every schedule and for every message, intact or damaged, and uses memory proportional to it: reading in parallel does not copy the point data per split. No operation hangs or deadlocks.",
  ["schedules","inputs","fault_sequences"],"all schedules and pool sizes, messages (also damaged ones claiming huge dimensions), conversions and split trees",
  "Tests have no step or memory accounting and only see tiny, consistent clouds on one schedule.",
  [I,L],[("length checks before allocation",L),("buffer shared, not copied, between parts",I)],
  ["instrumented steps and live bytes per operation"]),
p("C15","Derived point layouts match the struct",
  "For every struct the derive macro accepts, the generated layout lists the fields in declaration order under their (renamed) names with the true datatypes and paddings of the struct.",
  ["programs"],"all structs accepted by the derive macro",
  "One struct is tested; attributes other than the rename, other orders and compiler-chosen layouts are not.",
  [D],[("layout_of_type, struct_field_rename_array",D)],["layout() of derived types"]),
p("C16","RGB packs and unpacks losslessly",
  "Setting and reading the red, green and blue channels and the packed value of a colour are mutually consistent for all values, and comparison and display depend on the three channels only.",
  ["inputs"],"all 2^32 packed values","Tests use a handful of grey values.",[P],[("RGB union accessors",P)],["accessor results"]),
p("C17","nalgebra views equal the coordinates",
  "The nalgebra getters and conversions of every predefined point return exactly its x, y, z, widened exactly for f64.",
  ["inputs"],"all coordinate values","Not tested.",[P],[("xyz_f32/xyz_f64/From impls",P)],["returned nalgebra points"]),
p("C18","The message builder rejects inconsistent descriptions",
  "Building a message succeeds exactly when it has fields, every count is one, every datatype is standard, the point step can hold the fields and the data length is a multiple of it; otherwise it fails with the matching error.",
  ["inputs"],"all builder inputs","Not tested directly.",[L],[("PointCloud2MsgBuilder::build",L)],["Ok/Err of build"]),
p("C19","Scalar values encode and decode losslessly in both byte orders",
  "Every supported scalar, wrapped as point data and read back as its own type, is bit-identical, and decoding follows the given byte order.",
  ["inputs"],"all values of the eight datatypes","Only a doc example.",[L],[("PointData, FromBytes",L)],["decoded scalars"]),
p("C20","The crate works without std",
  "The no_std configuration builds and offers the same iterator and vector conversions.",
  ["configurations"],"all feature combinations","Checked by building only.",[L],[("cfg attributes",L)],["build result"]),
]
with open("/verif/properties.jsonl","w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
