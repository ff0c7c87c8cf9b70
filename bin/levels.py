"""What MANIFEST.json says about each check."""
ENGINE = ("TLC checks the Engine specification's invariants and action properties on its complete state space within the "
          "stated bounds; every transition and random long multi-stream behaviours are replayed on the real native handler, "
          "wasm guest and wasm host, comparing all observable effects of each step. Trusts the harness' wire codec and the "
          "specification; streams beyond the bounds are only sampled.")
FRAMES = ("Frames.tla defines the wire layout, fragmentation and deframing; TLC evaluates it on every generated input and its "
          "value is compared with what the real code does; theorems about the layout are checked on the same inputs. "
          "Inputs are boundary-directed and random, not exhaustive.")
LIN = ("Histories recorded from real goroutines are accepted or refused by the TLA+ object specification (some order of the "
       "overlapping operations explains every result); the sequential short histories are exhaustive. Interleavings of the "
       "real code are sampled by the scheduler; the design model covers every interleaving within its bounds.")
T = {
    "C01": ("TLA+ (Frames.tla) evaluated by TLC as layout oracle; real encoders and decoders compared on each input", FRAMES),
    "C02": ("TLA+ (Frames.tla FragmentsOk) decides each fragment sequence recorded from the real code", FRAMES),
    "C03": ("TLA+ (Deframe.tla, Frames.tla) with TLC; every way of cutting a stream replayed on the real connection", FRAMES),
    "C04": ("TLA+ (Frames.tla decode relation, Hostile.tla) evaluated by TLC; hostile bytes replayed on the real decoders; recorded runs of "
            "the three engines fed with junk decided by the specification", FRAMES),
    "C05": ("TLA+ (Senders.tla, SendersDesign.tla) with TLC; recorded concurrent histories decided by trace validation", LIN),
    "C06": ("TLA+ (Queue.tla, QueueDesign.tla) with TLC; recorded concurrent histories decided by trace validation", LIN),
    "C07": ("TLA+ (StreamIds.tla) with TLC; recorded id runs, the whole id space included, decided by the specification",
            "The id generator is model checked for small id spaces and three laps; the real generators are run through their "
            "whole 31-bit space and windows around later wraps, each run judged by TLC as segments. Concurrent runs are sampled."),
    "C08": ("TLA+ (Table.tla) with TLC; exhaustive short and recorded concurrent histories decided by trace validation", LIN),
}
for p in ("C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"):
    T[p] = ("TLA+ (Engine.tla) with TLC; transition-covering replay on the real engines", ENGINE)
LINK = (" Both ends together: Link.tla is checked completely for one stream or channel of a few items with cancels, errors and closing at "
        "any moment; crowds of concurrent requests between two real ends are sampled (half under the race detector), what became of "
        "each being decided by LinkRuns.tla.")
for p in ("C10", "C11", "C12", "C13", "C14"):
    T[p] = ("TLA+ (Engine.tla, Link.tla, LinkRuns.tla) with TLC; transition-covering replay on the real engines; recorded requests "
            "between two real ends decided by the specification", ENGINE + LINK)
T["C16"] = ("TLA+ (Engine.tla, Serve.tla, ServeDesign.tla, ServeRuns.tla, Link.tla, LinkRuns.tla) with TLC; transition-covering replay on the real engines, servers "
            "and clients; recorded runs of servers under load decided by the specification",
            ENGINE + " Serve.tla, checked completely for two connections, is replayed on servers and clients over the harness' connections "
            "and over sockets; what still refers to ended connections is observed. Closing while connections come and go is model "
            "checked (ServeDesign) and sampled on the real server, also under the race detector." + LINK)
T["C30"] = ("TLA+ (Engine.tla) with TLC; transition-covering replay on the real engines, what the streams that are over left behind being observed",
            ENGINE + " At the end of each behaviour the streams that are gone in the specification must be unreachable from the live "
            "connection (weak pointers to the user's callbacks after garbage collection) and their goroutines ended.")
RX = ("TLC explores the machine specification (Flux.tla, Mono.tla, Flow.tla) completely within its bounds; short programs of "
      "operations (source signals, demand, cancel, notify, block, reentrant calls) are enumerated and longer ones sampled, run on "
      "the real package in the native and wasm flavours, and every observed call compared with the specification's. Overlapping "
      "calls from several goroutines are sampled, each recorded run being accepted or refused by RxRuns.tla.")
T["C17"] = ("TLA+ (Flux.tla) with TLC; enumerated and random programs replayed on the real flux package", RX)
T["C18"] = ("TLA+ (Flux.tla, Mono.tla with mappers) with TLC; programs replayed on the real flux and mono packages", RX)
T["C19"] = ("TLA+ (Mono.tla) with TLC; enumerated and random programs replayed on the real mono package", RX)
T["C20"] = ("TLA+ (Flow.tla) with TLC; enumerated step lists and completion orders replayed on the real flow package", RX)
MP = ("MsgPack.tla defines the written form of every value and what every read operation gives on any bytes; TLC evaluates it on "
      "each generated input and its value is compared with what the real sizer, encoder, decoder and payload transforms do. That "
      "what is written reads back is checked on the specification for the same inputs. Inputs are boundary-directed and random.")
T["C21"] = ("TLA+ (MsgPack.tla) evaluated by TLC as oracle; writer programs run on the real sizer, encoder and decoder", MP)
T["C22"] = ("TLA+ (MsgPack.tla) evaluated by TLC as oracle; arbitrary bytes read and skipped by the real decoder", MP)
T["C23"] = ("TLA+ (Ops.tla, OpsModel.tla) with TLC; registration histories, tables and hostile table bytes replayed on the real "
            "code", "TLC checks the registration machine for every history of a few calls; Ops.tla, evaluated by TLC, predicts indices, "
            "handlers, published tables and their bytes for each generated history, and what reading damaged bytes gives. Histories "
            "and tables are sampled and directed at look-alike names and size limits.")
T["C24"] = ("TLA+ (Mesh.tla, MeshDesign.tla) with TLC; load and call histories replayed on the real mesh with wasm modules; recorded "
            "concurrent runs decided by trace validation",
            "TLC checks that cells, links and waiting imports lead to the specified destination for every history of a few loads; "
            "Mesh.tla, evaluated by TLC, says where every call of a random history arrives, which is compared with the frames the "
            "loaded modules exchange. Calls made while modules are loaded are recorded and must be explained by some moment.")
T["C25"] = ("TLA+ (Batch.tla, BatchDesign.tla) with TLC; recorded runs through a real wasm module, and in a guest, decided by trace "
            "validation",
            "TLC checks senders, channel, buffer and closing for all interleavings of a few frames; recorded runs of up to five "
            "goroutines with closes and crashes at sampled moments must be allowed by Batch.tla, frame contents being compared "
            "byte by byte. Schedules and sizes are sampled, sizes directed at the edges of the buffer.")
T["C26"] = ("TLA+ (Handles.tla, Port.tla, Convert.tla) with TLC; recorded histories of handles decided by trace validation, "
            "envelopes and conversions compared with the specification's values",
            "Recorded histories of puts, gets and removals, one after another and by several goroutines, also under the race detector, "
            "must be explained by an order of the operations. Envelopes and conversions are generated around the stated limits; "
            "conversions between numeric types are covered for values that both types hold.")
T["C27"] = ("TLA+ (Uuid.tla, UuidDesign.tla) with TLC; text and fields compared with the specification's values, recorded draws of random "
            "identifiers and timestamps decided by trace validation",
            "TLC checks the pool and the clock sequence for all interleavings of a few draws, failing sources and any clock; texts are "
            "mutated at every position, draws are recorded with sources whose bytes are recognised, clocks are stood still and moved back.")
T["C31"] = ("TLA+ (Frames.tla, Ops.tla, Foreign.tla) evaluated by TLC; cases and scripts replayed on the real Rust crates",
            "The layout of frames and operation lists is the specification the Go ends are checked against; Foreign.tla adds one Rust "
            "socket with its caller, handlers and peer. TLC computes what every generated case gives, and the crates, built offline from "
            "/repo's tree, have to give the same. The same holds for damaged bytes.")
TECHNIQUE = {p: t for p, (t, _) in T.items()}
NOTE = {p: n for p, (_, n) in T.items()}
NOT_APPLICABLE = {
    "C28": "the code generators are TypeScript on @apexlang packages that are not installed here, so there is no running "
           "implementation to which a specification could be bound",
    "C29": "the Rust engine has no flow control of its answers at all, so the statement does not hold of it by design, "
           " and the rest of the Rust runtime (host, guest, wasmtime) needs wasmtime and wasm-msgpack, which are not available "
           "offline; what the crates that can be built do guarantee is C31",
}
