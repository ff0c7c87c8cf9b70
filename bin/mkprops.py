import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

ENG=["go/handler/handler.go","go/handler/caller.go","go/transport/wasmrs/guest/guest.go","go/transport/wasmrs/guest/caller.go","go/transport/wasmrs/host/instance.go","go/transport/wasmrs/host/caller.go","go/proxy/flux.go","go/proxy/mono.go"]
NOENG="No existing test drives any of the three protocol engines (native handler, wasm guest, wasm host) at all."

p("C01","Every frame survives encoding and decoding unchanged",
 "For every frame kind and every field value, encoding fills exactly the advertised size with the RSocket layout (31-bit stream id, 6-bit type, 10-bit flags, big-endian credit/error code, 24-bit metadata length when there is metadata, then data), and decoding those bytes gives back the same kind, stream id, flags, credit or error code, metadata and data. The text names and flag tests reported for a frame header agree with its bytes.",
 ["inputs"],"All frame kinds x flag combinations x stream ids up to 2^31-1 x credits/codes up to 2^32-1 x metadata/data lengths including empty and multi-byte length boundaries.",
 "The tests cover two fragment() samples; no frame is ever encoded and decoded back by a test.",
 ["go/internal/frames/frame_header.go","go/internal/frames/request_payload.go","go/internal/frames/payload.go","go/internal/frames/request_n.go","go/internal/frames/cancel.go","go/internal/frames/error.go","go/internal/frames/types.go","go/internal/u24/u24.go"],
 [("Size/Encode/Decode of each frame type","go/internal/frames"),("NewFrameHeader/ResetFrameHeader/ParseFrameHeader","go/internal/frames/frame_header.go")],
 observe=["bytes written by Encode","fields after Decode"])
p("C02","Fragments fit the limit and reassemble to the original payload",
 "Splitting a request or payload frame for a maximum frame size (at least large enough for one header, credit, metadata length and one byte) gives either nothing, when the frame already fits, or a sequence in which no fragment exceeds the limit, the first keeps the request kind and credit, every fragment but the last is marked as followed and only the last carries completion. Concatenating the metadata and the data of the fragments, also after sending each through encoding and decoding, gives back exactly the original metadata and data.",
 ["inputs"],"All request kinds and payloads, metadata/data lengths from 0 to several frames, flags, and maximum frame sizes from the minimum up to beyond the frame's size.",
 "Two fixed examples are tested, neither with metadata shorter than the first frame, nor through the wire encoding.",
 ["go/internal/frames/request_payload.go","go/internal/frames/payload.go","go/internal/frames/util.go"],
 [("Fragment","go/internal/frames/request_payload.go, payload.go"),("splitPayloads","go/internal/frames/util.go")])
p("C03","A byte stream yields exactly the frames sent, however it is chunked",
 "Whatever way the network cuts the byte stream into reads, including a last read that brings data together with end of stream, the receiver delivers exactly the complete frames that were sent, in order and byte for byte, and then reports the end of the stream. A frame that has been delivered keeps its content no matter what is read after it.",
 ["inputs","schedules"],"All frame sequences up to the 24-bit size limit, all partitions of the byte stream into reads (also empty reads and data-with-EOF), truncation at any byte, any number of frames held back before use.",
 "No test reads frames from a connection at all.",
 ["go/transport/rsocket/decoder.go","go/transport/rsocket/tcp_conn.go","go/transport/rsocket/transport.go"],
 [("length prefixed split function over bufio.Scanner","go/transport/rsocket/decoder.go"),("TCPConn.Read","go/transport/rsocket/tcp_conn.go")],
 [("scanner buffer","bytes read but not yet consumed","go/transport/rsocket/decoder.go")],["frames returned by the connection"])
p("C04","Bytes from the peer can never crash the process",
 "For every sequence of bytes a peer can send - truncated frames, metadata or name lengths running past the end, unknown frame types, zero lengths, truncated operation tables or port envelopes - decoding returns a value or an error and the connection is at worst closed; it never panics. Input that is well formed up to the offending frame is still delivered before the error is reported.",
 ["inputs","fault_sequences"],"All byte strings at the frame, connection, operation-table and port-envelope level; exhaustively for small structures, sampled for mutations of valid messages.",
 "Tests only present well-formed input.",
 ["go/internal/frames","go/transport/rsocket/tcp_conn.go","go/transport/rsocket/decoder.go","go/operations/operatons.go","go/invoke/portio.go","go/transport/wasmrs/host/instance.go","go/transport/wasmrs/guest/guest.go"],
 [("length checks before slicing","Decode functions"),("frame length check","go/transport/rsocket/decoder.go")])
p("C05","Concurrent senders never corrupt, lose, duplicate or reorder frames",
 "When any number of goroutines send frames on one connection at the same time, the peer receives every accepted frame exactly once and intact, and frames sent by one goroutine arrive in the order it sent them. Once a send that asked for flushing has returned successfully, its frame has been handed to the network.",
 ["schedules","inputs"],"All interleavings of concurrent sends, mixed frame sizes below and above the write buffer, with and without flush.",
 "No test sends frames; a test samples one schedule.",
 ["go/transport/rsocket/transport.go","go/transport/rsocket/tcp_conn.go"],
 [("Transport.Send","go/transport/rsocket/transport.go"),("TCPConn.Write/Flush over a shared buffered writer","go/transport/rsocket/tcp_conn.go")],
 [("writer","shared buffered writer","go/transport/rsocket/tcp_conn.go")])
p("C06","The unbounded receive queue is FIFO, loses nothing and ends cleanly",
 "Every item accepted by the queue is handed to the consumer exactly once and in acceptance order, without the producer ever blocking. After the queue is disposed new items are refused, the items accepted before are still delivered, and then the consumer sees the end of the queue, for every interleaving of put, take, load and dispose.",
 ["schedules","histories"],"All interleavings of producers' puts, the consumer's take/load cycle and dispose at any point.",
 "One test with fixed schedules; disposal with a backlog or racing puts is sampled at best.",
 ["go/internal/buffer/unbounded.go","go/transport/rsocket/transport.go"],
 [("mutex protected backlog plus one-slot channel","go/internal/buffer/unbounded.go")],
 [("backlog","items not yet on the channel","go/internal/buffer/unbounded.go"),("disposed","no more puts","go/internal/buffer/unbounded.go")])
p("C07","Stream ids have the right parity, are never zero and do not repeat in a cycle",
 "Ids given out for new streams are non-zero 31-bit numbers, odd and starting at 1 on the client or guest side, even and starting at 2 on the server or host side, ascending by 2, and no two of them are equal until the whole id space of that side has been used, also when requested concurrently and also across the wrap-around. The first-cycle indication is true exactly for the ids handed out before the space is exhausted for the first time.",
 ["schedules","histories"],"All histories of id requests from any number of goroutines, including counters next to the 31-bit wrap-around and next to the counter's own overflow.",
 "Tests read the first three ids of a fresh counter sequentially.",
 ["go/internal/socket/stream_id.go","go/handler/caller.go","go/transport/wasmrs/host/caller.go","go/transport/wasmrs/guest/caller.go"],
 [("atomic counter and mask","go/internal/socket/stream_id.go")],[("counter","ids handed out so far","go/internal/socket/stream_id.go")])
p("C08","The table of live streams behaves as a map under any history",
 "After any sequence of adding and removing streams, looking an id up finds the stream that was added under it and not since removed, and reports absence for every other id; removing an id never affects another id. The same holds when lookups, additions and removals run concurrently: every result is one that some sequential order of the overlapping operations would give.",
 ["histories","schedules"],"All add/remove/lookup histories over several ids (first, middle, last position, re-adding an id, removing absent ids) and their concurrent overlaps.",
 "The table has no tests.",
 ["go/proxy/lookup.go"],[("linked list guarded by a mutex","go/proxy/lookup.go")],[("list","live streams","go/proxy/lookup.go")])
p("C09","Requests are dispatched to the operation they name, or refused",
 "A request whose operation index and interaction type are registered invokes exactly that operation's handler, exactly once, with the data (and the metadata after the routing prefix for single-response and fire-and-forget operations on the native and guest side, the full metadata otherwise) that the caller sent; an index that is not registered for that interaction type is answered with the error 'not_found', and metadata too short to route with 'Invalid metadata', on that stream, without invoking anything. This holds identically in the native handler, the wasm guest and the wasm host.",
 ["inputs","histories"],"All interaction types, operation indexes inside and outside the registered range, metadata lengths around the routing prefix, payload contents, registration orders including gaps.",
 NOENG,ENG+["go/invoke/handlers.go"],[("handleRequest* functions","engines"),("index tables","go/invoke/handlers.go")])
p("C10","Each single-response request gets exactly its own answer, once",
 "For any number of outstanding requests and any order and interleaving of their answers, every requester gets exactly one outcome - the value or the error text its own request was answered with, never another's - and later or duplicate answers have no effect. On the answering side each request whose handler succeeds or fails produces exactly one answer on the request's stream.",
 ["schedules","histories"],"All interleavings of requests, answers (value, error, duplicate, late) over several streams in both directions; waiting by callback, by notification and by blocking.",
 NOENG,ENG,[("stream registry keyed by id","go/proxy"),("mono sink closes once","go/rx/mono/mono.go")],[("stream registry","live requests by id","engines")])
p("C11","Streams are delivered in order, completely, and end exactly once",
 "Every item a stream or channel handler emits is sent to the requester on that stream in emission order, followed by exactly one completion or one error frame and nothing after it; the requesting side hands the items received for a stream to its subscriber in arrival order and unmodified, followed by exactly one completion or error, and nothing after it. Streams never receive each other's items.",
 ["schedules","histories","inputs"],"All sequences of emissions and terminal events over several concurrently open streams and channels, including terminals before the first request, handlers that fail before returning a stream, and frames after the end.",
 NOENG,ENG+["go/rx/flux/flux.go"],[("responder subscription forwarding signals as frames","engines"),("processor forwarding frames as signals","go/proxy/flux.go")])
p("C12","Credit is conserved: producers get exactly the demand requested",
 "A stream or channel request is sent only when its consumer first asks for items and carries that first demand; each later demand is sent as a request-n frame of the same amount. The producer at the other side is asked for exactly the sum of the initial and later demands received, whenever they arrive - also before the handler has returned its stream - and a producer that honours its demand therefore never sends more items than requested and never stalls while demand is outstanding.",
 ["schedules","histories","inputs"],"All sequences and timings of request-n relative to opening, handler return, emission and completion, amounts 1..2^31-1, for response streams and channel inputs.",
 NOENG,ENG+["go/rx/flux/flux.go"],[("initial N and RequestN frames","go/proxy/flux.go, engines"),("subscriber.Request","go/rx/flux/flux.go")],[("credit","demand granted but not consumed","go/rx/flux/flux.go")])
p("C13","The two directions of a channel end independently",
 "On a request channel the requester's items reach the handler and the handler's items reach the requester, each direction in order and under its own demand. When one direction completes or its receiver no longer wants items, the other direction continues to deliver items and demand until it ends itself; an error sent by one side reaches the other side as that stream's error.",
 ["schedules","histories"],"All interleavings of items, completion, cancellation, error and demand in both directions of a channel, from both the requester and the responder side.",
 NOENG,ENG,[("Payload/RequestN/Cancel handling per stream","engines"),("input subscription of a channel","go/proxy/flux.go")])
p("C14","Cancelling a stream stops its producer and nothing else",
 "When a requester cancels a stream, one cancel frame is sent; when a cancel frame arrives, the producer of that stream is told to cancel, and no item, completion or error frame is sent for it afterwards. Cancelling at any moment - before the handler returned, after completion, twice, for an unknown stream - never crashes and never affects other streams or the connection.",
 ["schedules","histories"],"All positions of one or two cancels relative to opening, handler return, emission, completion and error, over several streams and all interaction types.",
 NOENG,ENG+["go/rx/flux/flux.go"],[("Cancel frame handling","engines"),("subscriber.Cancel","go/rx/flux/flux.go")])
p("C15","Late and stray frames are harmless",
 "A request-n, cancel, payload or error frame for a stream that is not open - never opened, already finished, or of an interaction type the frame makes no sense for - is ignored: it neither crashes, nor closes the connection, nor changes what any other stream sees. All open streams then still work to their normal end.",
 ["histories","schedules","fault_sequences"],"Every frame kind addressed to never-opened, finished, and inappropriate streams of both parities, at any point of any history of other streams.",
 NOENG,ENG+["go/transport/rsocket/transport.go"],[("stream lookup in frame handling","engines"),("dispatch error handling","go/transport/rsocket/transport.go")])
p("C16","Losing or closing a connection ends everything that depended on it",
 "When a connection ends - closed locally, by the peer, by a read error, at any byte, or through its context - every request still waiting on it gets exactly one error or end, producers serving it are cancelled, and the transport closes its connection exactly once and stops. A server stops listening when closed, closes the connections it accepted and no longer holds connections that ended.",
 ["crash_points","fault_sequences","schedules"],"Connection loss at every point of request histories, by every cause, in every order relative to other events; server close racing with accepts.",
 "Transport and server have no tests.",
 ["go/transport/rsocket/transport.go","go/transport/rsocket/tcp_transport.go","go/handler/handler.go"],
 [("Transport.Start/Close","go/transport/rsocket/transport.go"),("tcpServerTransport","go/transport/rsocket/tcp_transport.go")],[("m","open transports of a server","go/transport/rsocket/tcp_transport.go")])
p("C17","A flux delivers items in order, then exactly one end signal",
 "A subscriber of a flux sees the items its source emitted in order, then at most one of completion or error, and nothing after the end or after cancelling; its finally callback and every registered notification fire exactly once, with the signal (complete, error, cancel) that ended it - notifications registered afterwards at once. Cancel reaches the source at most once and only before the end, the demand passed to the source equals the demand requested (the default being the maximum), and blocking on a flux returns exactly when it ends, with its error if any.",
 ["schedules","histories","inputs"],"All interleavings of source emissions (also contract-breaking ones after the end), demand, cancel, notify and block on flux.Create, FromSlice, SliceResponse, Processor and Error, in the native and the wasm build flavour.",
 "The reactive packages have no tests.",
 ["go/rx/flux/flux.go","go/rx/flux/flux_host.go","go/rx/flux/flux_webassembly.go","go/rx/flux/processor.go","go/rx/flux/slice.go","go/rx/flux/response.go"],
 [("subscriber state machine","go/rx/flux/flux.go")],[("closed/signal/n","subscriber state","go/rx/flux/flux.go")])
p("C18","Mapping preserves the stream and turns a failing item into its one error",
 "Mapping a flux or mono delivers the transformed items in the same order with the same demand, cancellation, end and notification behaviour as the original. If the transformation of an item fails, the subscriber gets the items before it, then exactly that error as the only end signal, finally fires exactly once with the error signal, and nothing follows whatever the source does next.",
 ["inputs","histories"],"All source histories and all positions of failing transformations, nested maps, on flux and mono, by callbacks, blocking and notification.",
 "The reactive packages have no tests.",
 ["go/rx/flux/flux.go","go/rx/mono/mono.go","go/rx/flux/flux_host.go","go/rx/mono/mono_host.go"],[("mapper","go/rx/flux/flux.go, go/rx/mono/mono.go")])
p("C19","A mono resolves exactly once and every way of waiting agrees",
 "A mono delivers exactly one outcome - its value or its error - to its subscriber; its finally callback and each notification fire exactly once with the matching signal, and later outcomes are ignored. Blocking, getting and subscribing report the same outcome, whether it was produced before or after the wait began, on Create, Just, Error, Processor and mapped monos; a mono that is already subscribed is not run again by blocking on it.",
 ["histories","schedules"],"All orders of producing (success, error, repeated), subscribing, notifying, getting and blocking.",
 "The reactive packages have no tests.",
 ["go/rx/mono/mono.go","go/rx/mono/mono_host.go","go/rx/mono/processor.go","go/proxy/mono_host.go"],[("subscriber state machine","go/rx/mono/mono.go")],[("closed/value/err/signal","outcome","go/rx/mono/mono.go")])
p("C20","Flow steps run once each, in order, after what they wait for",
 "The steps of a flow run in the order given, each exactly once, and a step starts only after everything the previous step asked to wait for has ended - whether it had ended before the wait was registered or ends later, in any order. A step that ends the flow or returns an error is the last to run, and the error or the value given to the flow is its one outcome.",
 ["schedules","histories"],"All step lists with 0-3 awaited items per step (already ended, ending later in any order, ending with error), synchronous and concurrent completion, mono and flux flows.",
 "The flow package has no tests.",
 ["go/rx/flow/flow.go","go/rx/await/await.go"],[("next/check","go/rx/flow/flow.go")],[("steps/completed","progress","go/rx/flow/flow.go")])
p("C21","MessagePack values round-trip and the sizer predicts the exact length",
 "For every value of every supported type, written through the writer interface in any sequence, the size computed beforehand equals the number of bytes the encoder produces without error, those bytes are the compact MessagePack form, and the decoder reads back an equal value with nothing left over - typed, nillable and dynamically typed alike. A typed read of an integer that does not fit the requested type gives an error rather than a wrong value.",
 ["inputs","programs"],"All supported types at every format boundary (fixint/8/16/32/64, fixstr/str8/16/32, bin, arrays, maps, nil, floats, time) and nested combinations of them.",
 "Tests sample a few values per type and not the boundary lengths, nor dynamic values for every type.",
 ["go/msgpack/encoder.go","go/msgpack/sizer.go","go/msgpack/decoder.go","go/msgpack/data_reader.go","go/msgpack/codec.go","go/msgpack/format.go","go/transform/transform.go"],[("Writer implemented by Sizer and Encoder","go/msgpack/sizer.go, encoder.go"),("Decoder","go/msgpack/decoder.go")])
p("C22","Decoding or skipping arbitrary MessagePack bytes is safe and exact",
 "For every byte string, every read operation, also of whole payloads and slices of them, returns a value or an error without panicking, without reading outside the input and without reserving memory out of proportion to it. Skipping a well-formed value of any MessagePack type, extensions included, consumes exactly that value, so that reading continues at the next one; skipping or reading a truncated value reports an error.",
 ["inputs"],"All byte strings up to a bound over all format bytes, all truncations of well-formed values, lengths at the extremes.",
 "Tests only decode well-formed messages of a fixed shape.",
 ["go/msgpack/decoder.go","go/msgpack/data_reader.go","go/transform/transform.go"],[("bounds check in the data reader","go/msgpack/data_reader.go"),("Skip","go/msgpack/decoder.go")])
p("C23","The operation list a module publishes is exactly what it registered",
 "Registering exported operations numbers them per interaction type from 0 in registration order, each index leading to the handler registered for it; importing an operation returns the same index for the same name and a new next index otherwise. The operation table published from this lists every exported and imported operation exactly once with its type, direction, index and names, and reading the published bytes gives back the same table.",
 ["histories","inputs"],"All registration/import histories over the four interaction types with repeated names, names of any length up to 65535 bytes, any table size.",
 "Neither registration nor the operation table has tests.",
 ["go/invoke/handlers.go","go/operations/operatons.go","go/transport/wasmrs/guest/guest.go","go/transport/wasmrs/customsections/customsections.go"],[("Export*/Import*","go/invoke/handlers.go"),("ToBytes/FromBytes","go/operations/operatons.go"),("OperationList","go/transport/wasmrs/guest/guest.go")])
p("C24","Mesh links imports to exports whatever the load order, and follows reloads",
 "After any sequence of module loads, calling an operation by name, or through a module that imports it, reaches the most recently loaded module that exports it, at that module's own index, with the caller's payload - no matter whether importer or exporter was loaded first. Imports nobody exports answer 'not_found' to the caller and become usable as soon as an exporter is loaded.",
 ["histories","configurations"],"All load orders of modules with overlapping and missing exports/imports, all interaction types, reloading of exporters and of importers.",
 "The mesh has no tests.",
 ["go/transport/wasmrs/mesh/mesh.go","go/transport/wasmrs/host/instance.go"],[("linkOperations/linkOperation","go/transport/wasmrs/mesh/mesh.go")],[("exports","destination per operation","go/transport/wasmrs/mesh/mesh.go"),("unsatisfied","imports waiting for an exporter","go/transport/wasmrs/mesh/mesh.go")])
p("C25","Host and guest exchange every frame exactly once through the shared buffers",
 "Frames sent towards a wasm module, by any number of goroutines and in any burst, arrive in it exactly once each, intact and in sending order per sender, packed into batches that never exceed the module's buffer; a frame that cannot fit the buffer is refused with an error instead of harming others. Frames coming back from the module, one or several per call, are each processed exactly once with exactly their own bytes, and payloads handed to the application keep their content afterwards; after closing, sending reports an error and never crashes.",
 ["schedules","inputs","histories"],"All burst sizes, frame sizes up to and beyond the buffer, groupings of returned frames per call, payloads held arbitrarily long, close at any point.",
 "Only an ignored benchmark drives a real module; nothing checks the batching.",
 ["go/transport/wasmrs/host/instance.go","go/transport/wasmrs/host/host.go","go/transport/wasmrs/guest/guest.go"],[("sendLoop","go/transport/wasmrs/host/instance.go"),("hostSend/recvLoop","go/transport/wasmrs/host/instance.go"),("GuestSend/doSendFrame","go/transport/wasmrs/guest/guest.go")],[("sendCh/recvCh/buffers","frames in flight","go/transport/wasmrs/host/instance.go")])
p("C26","Handles, port envelopes and nillable conversions are faithful",
 "A handle obtained for an object resolves to that object until it is removed and never afterwards, for any history and concurrency of puts, gets and removals. A port envelope whose name has at most 65,535 bytes decodes to the same port, data, next and complete marks that were encoded, each mark independently, and bytes that end before the name does are refused. Converting optional values, numbers (between types that can hold the value) and times to and from text returns exactly the given value or its absence, and passes errors through.",
 ["histories","inputs","schedules"],"All put/get/remove histories, all envelopes (names up to 65535 bytes, all mark combinations), present/absent/error conversions.",
 "None of these has tests.",
 ["go/invoke/instances.go","go/invoke/portio.go","go/msgpack/convert/convert.go"],[("map of live pointers under a lock","go/invoke/instances.go"),("PortIO Encode/Decode","go/invoke/portio.go"),("convert helpers","go/msgpack/convert/convert.go")])
p("C27","UUIDs parse, print and generate as RFC 4122 prescribes",
 "Every UUID prints in canonical form and every accepted text form (canonical, URN, enclosed in one character on each side such as braces, bare hex; either case) parses back to the same UUID, while text of any other length or with any other character is refused with an error. Every generated random UUID has version 4 and the RFC variant and uses fresh random bytes - never bytes already used for another one, also under concurrent generation; time and clock sequence fields read back as stored, and successive timestamps do not repeat a (time, sequence) pair, until the 14-bit sequence has been through all its values, even when the clock stands still or steps back.",
 ["inputs","schedules","histories"],"All 16-byte values, all string lengths and mutated characters at each position, all generation histories with pooled and unpooled randomness and failing random sources, all clock behaviours.",
 "The uuid package has no tests here.",
 ["go/types/uuid/uuid.go","go/types/uuid/marshal.go","go/types/uuid/version4.go","go/types/uuid/time.go","go/types/uuid/util.go"],[("Parse/String/encodeHex","go/types/uuid/uuid.go"),("randomness pool","go/types/uuid/version4.go"),("GetTime","go/types/uuid/time.go")])
p("C28","Generated clients and servers agree with each other for every interface",
 "For every interface definition, the code generated for the calling side and for the serving side use the same operation names, interaction types and message shapes, so that a call made through the generated client reaches the generated server's method with equal arguments and returns its result.",
 ["programs"],"All interface definitions accepted by the generators (Go, TinyGo, Rust targets).",
 "The generators have no tests in the Go suite.",
 ["codegen"],[("apex visitors","codegen")])
p("C29","The Rust engine obeys the same stream protocol as the Go engines",
 "The Rust wasmRS runtime gives the same guarantees as the Go engines for the same frame histories: requests dispatched by index, one outcome per request, ordered streams with demand, harmless late frames, and frames that survive encoding.",
 ["histories","schedules","inputs"],"All frame histories over the four interaction types.",
 "The Rust tests sample single exchanges and are not part of the recorded baseline.",
 ["rust/crates"],[("socket and channel handling","rust/crates/wasmrs")])
p("C30","Finished requests leave nothing behind",
 "When a request has been answered, refused, completed, failed or cancelled in every direction it has, the connection keeps nothing of it: no entry for its stream, no reference to the caller's subscriber, input, handler response or notification, and no goroutine waiting on its behalf. Memory and goroutines of a connection are therefore bounded by the requests that are open, however many it has served; the same holds for everything when the connection is closed.",
 ["histories","schedules"],"All histories of requests of the four interaction types on either side, ended in every way by either side or by closing the connection, alone and mixed with other streams that stay open.",
 NOENG+" Nothing looks at what an engine holds after a request.",
 ["go/handler/handler.go","go/transport/wasmrs/guest/guest.go","go/transport/wasmrs/host/instance.go","go/proxy/flux.go","go/proxy/mono.go","go/proxy/responder.go","go/proxy/lookup.go"],
 [("removeIfDone and the remove callbacks","go/proxy/flux.go, responder.go"),("mono requests are taken out of the table when answered","go/handler/handler.go, guest.go, host/instance.go"),("Lookup.Remove","go/proxy/lookup.go")],
 [("table of streams","streams with an open direction","go/proxy/lookup.go")],["reachability of the user's callbacks","number of goroutines"])
p("C31","The Rust ends write and read the same frames, lists and calls as the Go ends",
 "What the Rust crates write is what the Go ends read and the other way round. Every frame (of all eight types, with any stream id, flags, demand or error code, metadata and data) has the documented layout and is read back with equal fields; metadata names the operation by a four-byte index followed by four zero bytes; a length-prefixed stream of frames splits into those frames; operation lists keep every operation's type, direction, index and names, whatever reserved bytes the other writer added, are found by their names, and are refused when their magic or version is another. Bytes that are no frame or no list are refused and never end the process. A socket starts each call on a stream id no other call of either side uses, with a request frame that carries the caller's metadata and data and, for streams and channels, asks for at least one item; it gives each call exactly the items, completion or error that came for it, in order, sends on a channel the items of its caller in order and no more of them than were asked for, and answers each request of the peer with exactly what the handler produced, in order, ending in completion or an error, on that request's stream. An answer that the peer cancels stops and lets go of its producer; a caller that loses interest makes the socket cancel the stream when more comes. Demand for an answer, and any frame for a call that is over or given up, changes nothing else and never ends the process.",
 ["inputs","histories"],"All byte strings as frames and operation lists; all frames, metadata and operation lists with text names; all histories of calls of the four interaction types from either side in which the peer keeps to the protocol.",
 "The Rust tests decode and encode one fixture per frame type and run one exchange per interaction type in one process with another Rust end; they are not part of the recorded baseline.",
 ["rust/crates/wasmrs","rust/crates/wasmrs-rx","rust/crates/wasmrs-runtime"],[("frame codecs","rust/crates/wasmrs/src/frames"),("operation lists","rust/crates/wasmrs/src/operations.rs"),("socket","rust/crates/wasmrs/src/socket.rs"),("flux and its receiver","rust/crates/wasmrs-rx/src/flux")])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
