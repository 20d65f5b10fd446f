# C01..C19, C26: what happens on the wire, and to the calls behind it.
PARSER = ["lib/src/messages/mbap/MbapParser.cpp", "lib/src/messages/mbap/MbapParser.h", "lib/src/messages/mbap/MbapMessage.cpp"]
CLIENT = ["lib/src/client/channel/ClientChannelTcp.cpp", "lib/src/client/channel/AsioClientTcpConnection.cpp"]
SESSION = ["lib/src/client/session/ClientSessionImpl.cpp", "lib/src/client/session/ScheduledRequest.hpp"]
SERVER = ["lib/src/server/channel/ServerChannelTcp.cpp", "lib/src/server/channel/AsioServer.cpp", "lib/src/server/channel/AsioServerTcpConnection.cpp", "lib/src/server/channel/ServerConnectionListener.cpp"]
RQ = ["lib/src/messages/ReadBitsRequestImpl.cpp", "lib/src/messages/ReadRegistersRequestImpl.cpp", "lib/src/messages/WriteSingleCoilRequestImpl.cpp",
      "lib/src/messages/WriteSingleRegisterRequestImpl.cpp", "lib/src/messages/WriteMultipleCoilsRequestImpl.cpp", "lib/src/messages/WriteMultipleRegistersRequestImpl.cpp"]
RS = [f.replace("Request", "Response") for f in RQ]
SRV_KEYS = r"server-(missing-reply|wrong-reply|extra-reply|session-calls)"

PROPS["C01"] = P(
    title="MBAP framing is independent of TCP segmentation, and resynchronises",
    statement="For every byte stream received and every way TCP cuts it into segments, client and server act on exactly the frames that the length fields delimit, each once and in order, as soon as the last byte of a frame has arrived. Frames with another protocol identifier, with a length field that leaves no room for a PDU, or longer than the protocol's maximum neither crash nor stall the connection nor change how the following frames are understood. A new connection starts with an empty parser: bytes received on an earlier connection never become part of a later frame.",
    over=["inputs", "schedules", "histories"],
    text="All byte streams (well-formed or not), all segmentations down to single bytes, and all sequences of connections.",
    why="The upstream parser tests feed a few hand-made frames whole or cut once; segmentations, hostile length fields and residue across frames or connections are unbounded.",
    files=PARSER + ["lib/src/server/channel/ServerConnectionListener.cpp", "lib/src/client/channel/ClientChannelTcp.cpp"],
    mechanism=[dict(name="state machine over header and data", where="MbapParser::parse"),
               dict(name="parser reset when a client connection ends", where="ClientChannelTcp::on_error")],
    observe=["replies and session calls of the server", "outcomes of client requests"],
    jobs=[J("h_client", "asan", "segments", 2, 8, evals="streams|noise_frames", cost=5),
          J("h_client", "asan", "disconnect", 1, 4, evals="histories", cost=3, keys=r"client-(outcome|wrong-frame|never-completed)"),
          J("h_server", "asan", "segment", 2, 8, evals="frames|streams", cost=4),
          J("h_server", "asan", "lengths", 1, 4, evals="frames|streams|cases", cost=5)],
    rule="Random streams of valid, foreign-protocol, empty, zero-length, oversize and unknown-unit frames, sent in random pieces down to one byte while recv() is made to return short counts; every reply byte and every session call is compared with an independent splitter and server model. Distinct by the bytes of the stream and its cut points.",
    technique="runtime monitoring of the real server and client against an independent framing model, with injected short reads, under ASan/UBSan",
    note="Streams and cuts are random and seeded. A frame whose length field is 0 is taken to be its 7 header bytes, as the code documents by behaviour.", assumptions=[NET, WATCH])

PROPS["C02"] = P(
    title="Every frame sent is whole, well-formed and in order, whatever the socket accepts",
    statement="Everything client and server put on a connection is a sequence of complete MBAP frames with protocol identifier 0, a length field that equals the bytes that follow, and a PDU of at most 253 bytes. Frames are never truncated, interleaved, duplicated, reordered or lost, even if the peer reads slowly or not at all for a while, pipelines many requests, or the operating system accepts only part of a write.",
    over=["inputs", "schedules", "fault_sequences"],
    text="All request and response sizes, all patterns of partial writes and back-pressure, and any number of pipelined requests and connections.",
    why="No upstream test sends through a socket; a partial write needs a full socket buffer.",
    files=SERVER + CLIENT + ["lib/src/messages/mbap/MbapMessage.cpp"],
    mechanism=[dict(name="write queue, one write at a time, continued until complete", where="AsioServerTcpConnection"),
               dict(name="write continued until complete", where="AsioClientTcpConnection::write_handler"),
               dict(name="frame builder", where="MbapMessage::build_message")],
    observe=["raw bytes at scripted peers"],
    jobs=[J("h_client", "asan", "backlog", 2, 8, evals="frames", cost=3),
          J("h_client", "asan", "wire", 1, 6, evals="requests", cost=4, keys=r"client-(wrong-frame|missing-frame|extra-bytes)"),
          J("h_client", "asan", "order", 1, 4, evals="frames", cost=4, keys=r"client-(wrong-frame|frame-twice|extra-bytes|stalled)"),
          J("h_server", "asan", "backpressure", 1, 6, evals="frames|streams", cost=9, keys=SRV_KEYS),
          J("h_server", "asan", "slow_reader", 1, 6, evals="frames|streams", cost=4, keys=SRV_KEYS),
          J("h_server", "asan", "deep_backlog", 1, 4, evals="frames|streams", cost=5, keys=SRV_KEYS),
          J("h_server", "asan", "values", 1, 4, evals="frames|streams", cost=4, keys=SRV_KEYS),
          J("h_server", "asan", "multi", 1, 4, evals="frames|streams", cost=6, keys=SRV_KEYS)],
    rule="Peers pipeline hundreds of requests with small socket buffers and read late, slowly or in bursts, while send() is made to accept only 1..n bytes; each peer re-frames what it receives and compares every frame with the model's; one leaves more than 65536 replies waiting while another is served. Distinct by stream; non-trivial because short writes were injected (counted) or the socket buffer was exceeded.",
    technique="fault injection (short writes, back-pressure) with an online frame checker at the peer, under ASan",
    note="Patterns of partial writes are random; the peers' bytes are checked completely.", assumptions=[NET, WATCH])

PROPS["C03"] = P(
    title="A request reaches the session exactly as the application stated it",
    statement="For every valid request of the eight supported kinds, the bytes sent are the encoding that the Modbus specification defines for that function, address, quantity and values, with the unit and transaction identifiers in the header. The server session addressed by the unit identifier is called exactly once per request with exactly the function, address, quantity and values that were sent, in the order of the requests on the connection.",
    over=["inputs", "histories"],
    text="All eight request kinds, all addresses, all quantities allowed by the specification, all values, units and transaction identifiers.",
    why="The upstream message tests encode and decode one or two examples of each kind; bit packing at every length and values at the limits are not reached.",
    files=RQ + ["lib/src/messages/mbap/MbapMessage.cpp", "lib/src/server/channel/ServerConnectionListener.cpp"],
    mechanism=[dict(name="serialisation and parsing of requests", where="messages/*RequestImpl.cpp"),
               dict(name="dispatch by function code and unit", where="ServerConnectionListener, ServerChannelTcp")],
    observe=["raw bytes of client requests", "calls recorded by server sessions"],
    jobs=[J("h_client", "asan", "wire", 2, 8, evals="requests", cost=4, keys=r"client-(wrong-frame|missing-frame|extra-bytes)"),
          J("h_client", "asan", "limits", 1, 4, evals="requests", cost=3, keys=r"client-(wrong-frame|missing-frame|extra-bytes)"),
          J("h_server", "asan", "values", 2, 8, evals="frames|streams", cost=4),
          J("h_server", "asan", "multi", 1, 4, evals="frames|streams", cost=6),
          J("h_server", "asan", "sweep", 1, 3, evals="swept.*", cost=12),
          J("h_client", "asan", "sweep", 1, 3, evals="requests", cost=8, keys=r"client-(wrong-frame|missing-frame|extra-bytes)"),
          J("h_client", "asan", "tids", 1, 2, evals="requests", cost=12, keys=r"client-(wrong-frame|missing-frame|extra-bytes)"),
          J("h_e2e", "asan", "fidelity", 1, 6, evals="session_calls|requests", cost=2, keys="e2e-session-calls")],
    rule="Random valid requests biased to limits (quantities 1, maximum and just below, addresses at both ends, all-ones and random bits) sent through the real client and by a reference encoder; the bytes and the calls a recording session sees are compared with the reference model. Besides, every run sends every allowed quantity of every kind, all addresses, unit and transaction identifiers and register values. Distinct by the bytes sent.",
    technique="runtime monitoring at both ends of the wire against an independent codec, under ASan/UBSan",
    note="Combinations of the fields are sampled with boundary bias, each field alone is swept; the oracle is a codec written from the specification.", assumptions=[NET, WATCH])

PROPS["C04"] = P(
    title="A response reaches the application exactly as the session stated it",
    statement="Whatever a server session answers to a valid request, the bytes sent are the specification's encoding of that answer, with the request's unit and transaction identifiers; unused bits of the last byte are zero. The client handler receives exactly the values in the response, each with the address it belongs to (counted from the request's starting address), one per requested address and in ascending order; for writes it receives the address and value or quantity in the response.",
    over=["inputs", "histories"],
    text="All answers to all eight request kinds, all quantities and values.",
    why="The upstream message tests cover one or two examples of each response, none of them through a connection.",
    files=RS + ["lib/src/server/channel/ServerConnectionListener.cpp", "lib/src/client/session/ClientSessionImpl.cpp"],
    mechanism=[dict(name="serialisation and parsing of responses", where="messages/*ResponseImpl.cpp")],
    observe=["raw bytes of server replies", "results given to client handlers"],
    jobs=[J("h_client", "asan", "wire", 2, 8, evals="requests", cost=4, keys=r"client-(outcome|never)"),
          J("h_client", "asan", "responses", 1, 4, evals="responses", cost=6, keys=r"client-outcome:value"),
          J("h_server", "asan", "values", 2, 8, evals="frames|streams", cost=4, keys=SRV_KEYS),
          J("h_client", "asan", "sweep", 1, 3, evals="responses", cost=8, keys=r"client-outcome:value"),
          J("h_server", "asan", "sweep", 1, 3, evals="swept.*", cost=12, keys=SRV_KEYS),
          J("h_e2e", "asan", "fidelity", 1, 6, evals="requests", cost=2, keys="e2e-outcome")],
    rule="Random requests answered with random device contents, and every allowed quantity of every kind once in every run; the reply bytes and the values handed to the client's handlers are compared with the reference codec and the device model. Distinct by the bytes sent.",
    technique="runtime monitoring at both ends of the wire against an independent codec, under ASan/UBSan",
    note="Inputs sampled with boundary bias; quantities and register values are swept. A session that answers with other than the requested number of values is outside the property.", assumptions=[NET, WATCH])

PROPS["C05"] = P(
    title="The server refuses or ignores invalid requests and calls no session for them",
    statement="A session is called only for a request whose length, quantity (1..2000 bits or 1..125 registers read, 1..1968 coils or 1..123 registers written), byte count and coil value (0x0000 or 0xFF00) are valid. A request of the right form with an invalid quantity, byte count or coil value is answered with exception 03, and an unsupported function with exception 01; a PDU of the wrong length, an empty PDU and an unknown unit are not answered at all. In every case the connection goes on serving.",
    over=["inputs"],
    text="All PDUs of 0 to 253 bytes for all function codes and units.",
    why="The upstream tests try a handful of malformed requests per kind; the input space is all byte strings.",
    files=RQ + ["lib/src/server/channel/ServerConnectionListener.cpp", "lib/src/messages/ExceptionResponse.cpp"],
    mechanism=[dict(name="parse and is_valid of each request", where="messages/*RequestImpl.cpp"),
               dict(name="exception replies", where="ServerConnectionListener")],
    observe=["raw replies", "calls recorded by server sessions"],
    jobs=[J("h_server", "asan", "validate", 2, 10, evals="frames|streams", cost=4),
          J("h_server", "asan", "exceptions", 1, 4, keys="unsupported-function|server-session-calls|server-missing-reply", evals="exception_replies|frames", cost=2),
          J("h_server", "asan", "sweep", 1, 3, evals="swept.*", cost=12),
          J("h_server", "asan", "lengths", 1, 3, evals="frames|streams|cases", cost=5)],
    rule="Valid requests mutated in length, quantity, byte count, coil value, function code and single bits, plus random PDUs of every length, a sweep over invalid quantities, coil values and lengths, and a wrong byte count for every valid quantity of the multiple writes; reply bytes and session calls are compared with a decision model written from the specification. Distinct by stream.",
    technique="runtime monitoring of the real server against an independent validation model, under ASan/UBSan",
    note="Mutations and the bytes beside the swept field are random; all 256 function codes are covered in each run.", assumptions=[NET, WATCH])

PROPS["C06"] = P(
    title="The client accepts only well-formed responses and reports the rest as errors",
    statement="Whatever bytes come back with the right transaction and unit identifiers, the request's handler gets a value only if the response PDU is exactly a normal response to that request: same function, right length, and for reads a byte count equal to both the data present and what the requested quantity needs. A PDU with the exception flag and one code byte gives the Modbus exception for that code; everything else, an empty PDU included, gives a malformed-response error, at once and without disturbing the requests that follow.",
    over=["inputs"],
    text="All response PDUs of 0 to 253 bytes for every kind of request and quantity.",
    why="The upstream tests try a few malformed responses per kind; the input space is all byte strings, in combination with the request they answer.",
    files=RS + ["lib/src/client/session/ClientSessionImpl.cpp", "lib/src/messages/ExceptionResponse.cpp"],
    mechanism=[dict(name="parse of each response against its request", where="messages/*ResponseImpl.cpp"), dict(name="exception response detection", where="messages/ExceptionResponse.cpp")],
    observe=["outcome given to every request handler"],
    jobs=[J("h_client", "asan", "responses", 2, 8, evals="responses|exception_codes", cost=6),
          J("h_client", "asan", "sweep", 1, 3, evals="responses", cost=8),
          J("h_client", "asan", "segments", 1, 4, evals="streams", cost=5, keys=r"client-outcome")],
    rule="Well-formed responses mutated in length, byte count, function, exception flag and single bits, slightly wrong responses across all quantities, every length of every kind, consistent responses for other quantities, over-long and empty PDUs, and every exception code for every function, each answering a random request of the real client; every outcome is compared with a decision model written from the specification. Distinct by request and response bytes.",
    technique="runtime monitoring of the real client against an independent validation model, under ASan/UBSan",
    note="Mutations are random; exception codes are exhaustive per run.", assumptions=[NET, WATCH])

PROPS["C07"] = P(
    title="Every accepted request completes exactly once",
    statement="Every request given to a running client session results in exactly one call of its handler, with a value or one error, no matter how responses, duplicates, stray frames, timeouts, connection failures and further requests from handlers or other threads interleave. No handler is called twice, and none is forgotten while the channel runs; a request is retried by nobody, so at most one frame per request goes out.",
    over=["schedules", "histories", "fault_sequences"],
    text="All interleavings of requests from any threads and handlers with any behaviour of the peer and of the connection.",
    why="The upstream channel tests walk through single scenarios on a mock executor; races between timeout, response and disconnect need many schedules.",
    files=CLIENT + SESSION,
    mechanism=[dict(name="queue of pending requests and one current request", where="ClientChannelTcp"),
               dict(name="stale completions ignored", where="AsioClientTcpConnection (connection id)")],
    observe=["count of handler calls per request", "frames per request at the peer"],
    jobs=[J("h_client", "asan", "order", 2, 8, evals="requests", cost=4),
          J("h_client", "asan", "chaos", 3, 12, evals="requests", cost=3),
          J("h_client", "asan", "disconnect", 1, 6, evals="histories", cost=3),
          J("h_client", "asan", "timeouts", 1, 4, evals="requests", cost=4, keys=r"client-(handler-twice|never-completed|outcome)"),
          J("h_client", "asan", "correlate", 1, 4, evals="answered|starved", cost=4, keys=r"client-(handler-twice|never-completed)"),
          J("h_client", "asan", "deep_queue", 1, 4, evals="requests", cost=6),
          J("h_client", "tsan", "order", 1, 4, evals="requests", cost=4),
          J("h_e2e", "asan", "fidelity", 1, 4, evals="requests", cost=2, keys="e2e-(handler-twice|never-completed)")],
    rule="Several threads and the handlers themselves submit requests while the scripted peer answers, starves, duplicates, truncates, closes, resets and refuses, and reads, writes, connects and resolution fail by injection; every handler call and every frame is counted per request and every outcome must be one that the script allows; also with thousands of requests queued, answered or lost at once. Distinct by history.",
    technique="conservation monitor (exactly-once per request) over recorded histories under stress and fault injection, with ASan/TSan",
    note="Interleavings are sampled by real threads and random scripts; never-completed is judged after 20 s without progress, in three runs.", assumptions=[NET, WATCH])

PROPS["C08"] = P(
    title="One request outstanding per channel, in the order of submission",
    statement="A client channel never has more than one request in flight: the next frame is sent only after the previous request has completed by response, timeout or failure. Requests from one thread go out, and complete, in the order they were submitted, and all sessions of a channel share this one queue; the queue never stalls while requests are waiting.",
    over=["schedules", "histories"],
    text="All mixes of sessions, submitting threads, handlers that submit further requests, response times and failures.",
    why="The upstream tests check two requests in sequence.",
    files=CLIENT,
    mechanism=[dict(name="check_pending_requests starts the next only without a current request", where="ClientChannelTcp::check_pending_requests")],
    observe=["order and times of frames at the peer relative to completions"],
    jobs=[J("h_client", "asan", "order", 3, 12, evals="frames|requests", cost=4),
          J("h_client", "tsan", "order", 1, 6, evals="frames|requests", cost=4),
          J("h_client", "asan", "deep_queue", 1, 4, evals="requests|frames", cost=6),
          J("h_client", "asan", "backlog", 1, 4, evals="frames", cost=3),
          J("h_client", "asan", "chaos", 1, 4, evals="requests", cost=3, keys=r"client-(never-completed|frame-twice|stalled)")],
    rule="Up to four threads and the handlers submit requests on shared sessions; the peer checks at every frame that the previous request is complete, that each thread's requests come in their order, and listens for early frames before it answers; completions are checked for the same order, also with thousands queued before the first response. Distinct by the order of senders on the wire.",
    technique="online trace checker at the peer (single outstanding, per-thread FIFO, progress) under multi-threaded stress",
    note="Orders are sampled by real threads.", assumptions=[NET, WATCH])

PROPS["C09"] = P(
    title="A response is taken only for the request it answers",
    statement="A request is completed only by a frame that carries its own transaction identifier and unit identifier and arrives while it is outstanding; all other frames are ignored and change nothing. Transaction identifiers of a channel are all different within any 65536 consecutive requests, across all its sessions and across reconnections, so a late response to a request that timed out is never taken for the answer to a later one.",
    over=["inputs", "histories", "schedules"],
    text="All sequences of late, duplicate, foreign and matching responses around any sequence of requests, including identifier wrap-around.",
    why="The upstream tests check one wrong identifier; late responses after timeouts and wrap-around are histories they do not reach.",
    files=["lib/src/client/channel/ClientChannelTcp.cpp", "lib/src/TransactionIdentifier.cpp"],
    mechanism=[dict(name="comparison with the current request", where="ClientChannelTcp::on_mbap_message"), dict(name="increment per request", where="ClientChannelTcp::send_request")],
    observe=["outcomes of requests", "transaction identifiers at the peer"],
    jobs=[J("h_client", "asan", "correlate", 2, 8, evals="stray_frames|answered|starved", cost=4),
          J("h_client", "asan", "segments", 2, 8, evals="noise_frames|streams", cost=5),
          J("h_client", "asan", "tids", 1, 3, evals="requests", cost=12)],
    rule="While requests are outstanding the peer sends late answers to requests that timed out, duplicates, and frames that differ in transaction identifier, unit or protocol in one bit or more or that would fit a request still queued; each outcome must be the scripted one. One channel sends more than 65536 requests over several sessions and connections and every transaction identifier is compared with the last use of the same value. Distinct by stray history and identifier.",
    technique="runtime monitoring with hostile peers and an identifier-reuse monitor",
    note="One full cycle of identifiers per quick run, two in a thorough run.", assumptions=[NET, WATCH])

PROPS["C10"] = P(
    title="A request without an answer times out after its own timeout, and only then",
    statement="A request that gets no matching answer while the connection stays up completes with a timeout error, never before its own timeout (given with the request, or else the session's default) has passed since it was sent, and without waiting for anything else; time spent queued behind other requests does not count. A timeout ends only its own request: it does not break the connection or the following requests, and a response that arrives in time is never reported as a timeout.",
    over=["schedules", "histories"],
    text="All combinations of timeouts, response delays and queues, including timers that expire while a response is being processed.",
    why="The upstream tests use mock time and one request; the race between timer and response needs real schedules.",
    files=["lib/src/client/channel/ClientChannelTcp.cpp", "lib/src/client/session/ClientSessionImpl.cpp"],
    mechanism=[dict(name="timer per request, bound to its transaction identifier", where="ClientChannelTcp::check_pending_requests")],
    observe=["outcome and time of completion of each request", "time its frame reached the peer"],
    jobs=[J("h_client", "asan", "timeouts", 2, 8, evals="requests", cost=4),
          J("h_client", "asan", "durations", 2, 6, evals="requests", cost=2, keys=r"client-(outcome|never-completed|timeout)"),
          J("h_client", "asan", "correlate", 1, 4, evals="starved", cost=4, keys=r"client-(outcome|never-completed|timeout)"),
          J("h_client", "asan", "backlog", 1, 3, evals="frames", cost=3, keys=r"client-outcome|client-never")],
    rule="Queues of requests with random timeouts (given or default) are starved, answered at once, answered late, or answered within a millisecond of the timeout, also while handlers block beyond the next timer; outcomes must match the script, and timeouts are measured from the earliest moment the request could be sent; timeouts around the limits of narrower integers, up to centuries, must not pass early. Distinct by script.",
    technique="runtime monitoring of outcomes and monotonic times against scripted peers",
    note="Times are real; lateness is only judged statistically (the best of many must be near its nominal time) and after 8 s, since the machine may be loaded.", assumptions=[NET, WATCH])

PROPS["C11"] = P(
    title="A failed connection fails its requests promptly; the next request reconnects",
    statement="If resolving, binding to the adapter, connecting, writing or reading fails, or the peer closes or resets the connection, every request that is outstanding or queued at that moment completes promptly with a connection error. The channel stays usable: the next request starts a new connection from the configured adapter to the configured endpoint, as often as needed, trying every address its host name stands for, and nothing of the failed connection (data, errors, half-written frames) affects the new one. No connection is made before the first request, and an idle connection is reused.",
    over=["fault_sequences", "histories", "crash_points"],
    text="All sequences of failures at any step of any connection and at any byte of any frame, with any number of queued requests.",
    why="No upstream test uses a socket; the failure points are many and their combinations unbounded.",
    files=["lib/src/client/channel/AsioClientTcpConnection.cpp", "lib/src/client/channel/ClientChannelTcp.cpp"],
    mechanism=[dict(name="connection states", where="AsioClientTcpConnection"), dict(name="error propagation to requests", where="ClientChannelTcp::on_error")],
    observe=["outcomes and times of requests", "connections and bytes at the peer"],
    jobs=[J("h_client", "asan", "disconnect", 5, 16, evals="histories", cost=7),
          J("h_client", "asan", "reconnect", 2, 8, evals="requests|histories", cost=3),
          J("h_client", "asan", "deep_queue", 1, 3, evals="requests", cost=6, keys=r"client-(outcome:connection|never-completed|not-connected)"),
          J("h_client", "asan", "chaos", 2, 8, evals="histories|requests", cost=3)],
    rule="Random sequences of refused, unreachable, unresolvable and unbindable connections, closes, resets and half-closes between and inside frames, injected read and write errors, and host names with several addresses of which all but one refuse, with any number of requests queued and handlers that submit again; outcomes, number and source address of connections, and every frame on the following connections are compared with the script; one channel goes through more than a thousand connections, with runs of hundreds of the same failure. Distinct by script.",
    technique="fault injection with scripted peers and outcome monitors, under ASan",
    note="Failure points are random; each of the 15 failure classes occurs in every run (counted).", assumptions=[NET, WATCH])

PROPS["C12"] = P(
    title="An invalid request never reaches the wire and fails at once",
    statement="A request whose quantity or number of values is outside the limits of the Modbus specification (1..2000 bits, 1..125 registers read, 1..1968 coils, 1..123 registers written) completes with a malformed-request error without any byte of it being sent and without a connection being made for it. It does not disturb the requests around it and uses no place in their order on the wire.",
    over=["inputs", "histories"],
    text="All quantities 0..65535 and all lengths of value lists, for all request kinds, between any other requests.",
    why="The upstream tests check validity for a few quantities per kind and not through a channel.",
    files=RQ + ["lib/src/client/channel/ClientChannelTcp.cpp"],
    mechanism=[dict(name="is_valid of each request", where="messages/*RequestImpl.cpp"), dict(name="refusal before queueing", where="ClientChannelTcp::send_request")],
    observe=["outcomes of requests", "raw bytes at the peer"],
    jobs=[J("h_client", "asan", "limits", 1, 4, evals="requests", cost=3),
          J("h_client", "asan", "wire", 2, 8, evals="requests|invalid_requests", cost=4)],
    rule="All quantities around every limit and random ones up to 131072, and valid requests mixed with invalid ones on fresh, idle and busy channels; invalid ones must fail at once, and the peer's bytes must be exactly the valid requests' frames, with no connection before the first. Distinct by request.",
    technique="runtime monitoring of outcomes and of all bytes on the wire",
    note="Thorough runs cover all quantities up to 2001.", assumptions=[NET, WATCH])

PROPS["C13"] = P(
    title="Requests are routed by unit identifier to the session added last for it",
    statement="A server channel gives each request to the session that was last added for exactly the request's unit identifier, whichever connection it came on and however sessions were added before or after start or while connections were open; a replaced session gets no further requests. Requests for units without a session are ignored and all other sessions are unaffected. Operations a session does not implement are answered with the illegal-function exception.",
    over=["histories", "inputs", "schedules"],
    text="All histories of adding sessions, starting, connecting and requesting, for all 256 units.",
    why="The upstream tests use a single session.",
    files=["lib/src/server/channel/ServerChannelTcp.cpp", "lib/src/server/channel/ServerConnectionListener.cpp", "lib/include/modbus/server/IServerSession.h"],
    mechanism=[dict(name="session map shared by the connections", where="ServerChannelTcp"), dict(name="default answers", where="IServerSession::on_request")],
    observe=["replies per unit", "calls recorded by each session"],
    jobs=[J("h_server", "asan", "routing", 2, 8, evals="histories|frames|steps", cost=3),
          J("h_e2e", "asan", "large", 1, 4, evals="requests", cost=4, keys="e2e-session-calls|e2e-outcome"),
          J("h_e2e", "asan", "fidelity", 1, 4, evals="session_calls", cost=2, keys="e2e-session-calls")],
    rule="Random histories of adding and replacing sessions (recording ones and ones without overrides), starting, opening and closing connections and sending requests to known and unknown units; every reply and each session's calls are compared with a map model. Distinct by history.",
    technique="model-based runtime monitoring of server routing, under ASan",
    note="Histories are random; requests in flight while a session is being replaced may go to either.", assumptions=[NET, WATCH])

PROPS["C14"] = P(
    title="Exception codes map one-to-one between wire, exception objects and names",
    statement="Each of the nine exception codes of the Modbus specification (1, 2, 3, 4, 5, 6, 8, 10, 11) corresponds to its own exception type in both directions, and every other code is reported as unknown; exception objects keep their type and message through copies and results. A server session's Modbus exception is answered with function code plus 0x80 and exactly that code, any other failure of a session with no answer, and the client reports the code it received as the corresponding type.",
    over=["inputs"],
    text="All 256 codes for all eight functions in both directions.",
    why="The upstream tests cover a few codes in one direction.",
    files=["lib/src/messages/ExceptionType.cpp", "lib/include/modbus/messages/ExceptionType.h", "lib/src/messages/ExceptionResponse.cpp", "lib/include/modbus/exceptions/ModbusException.h", "lib/src/server/channel/ServerConnectionListener.cpp"],
    mechanism=[dict(name="code tables", where="ExceptionType.h, ExceptionType.cpp"), dict(name="exception frames", where="ExceptionResponse.cpp")],
    observe=["exception type, name and message for every code", "raw exception replies", "exceptions given to client handlers"],
    jobs=[J("h_client", "asan", "responses", 1, 4, evals="exception_codes", cost=6, keys=r"client-outcome:modbus-exception|client-outcome:[^:]*:modbus-exception"),
          J("h_core", "asan", "exctype", 1, 2, evals="codes|messages", cost=1),
          J("h_server", "asan", "exceptions", 1, 4, evals="exception_replies|frames", cost=2)],
    rule="All 256 codes through the code table, the exception objects and Expected; every known code from a session for every function over the wire; every code in client responses. Distinct by code and function.",
    technique="exhaustive monitoring of code mappings at API and wire, under ASan/UBSan",
    note="Exhaustive over codes and functions.", assumptions=[NET, WATCH])

PROPS["C15"] = P(
    title="Connections are limited and isolated, and the server keeps accepting",
    statement="A started server accepts every connection; when one more than the configured maximum is open it closes the oldest and keeps the newest, and a connection whose peer has closed it no longer counts. What one peer sends, however malformed, how it disconnects, or that it does not read, never disturbs the replies to other peers. Failures of accepting (aborted connections, exhausted descriptors) never stop the server from accepting later connections.",
    over=["histories", "fault_sequences", "schedules"],
    text="All histories of connects, disconnects, resets, half-closes, garbage and accept failures, for all connection limits.",
    why="No upstream test opens a connection.",
    files=["lib/src/server/channel/AsioServer.cpp", "lib/src/server/channel/AsioServerTcpConnection.cpp", "lib/src/server/channel/ServerChannelTcp.cpp"],
    mechanism=[dict(name="connection list with maximum", where="AsioServer, ServerChannelTcp"), dict(name="accept loop", where="AsioServer")],
    observe=["which connections are open and answered at the peers"],
    jobs=[J("h_server", "asan", "limit", 1, 6, evals="histories|steps", cost=3),
          J("h_server", "asan", "accept_fault", 1, 6, evals="histories|steps", cost=3),
          J("h_server", "asan", "accept_long", 1, 6, evals="histories|connections.*", cost=6),
          J("h_server", "asan", "dirty", 1, 6, evals="histories|steps", cost=3),
          J("h_server", "asan", "multi", 1, 4, evals="frames|streams", cost=6)],
    rule="Random histories of connects, clean and dirty disconnects and injected accept errors with limits 1..8; after each step the model says which connections must be open and each is probed with a request; long series have hundreds of failing accepts in a row, thousands of connections and limits of hundreds. Distinct by history.",
    technique="model-based runtime monitoring with injected accept faults, under ASan",
    note="Histories are random. A limit of 0 is left unspecified.", assumptions=[NET, WATCH])

PROPS["C16"] = P(
    title="A scheduled request polls at once and then once per period until stopped",
    statement="A scheduled request sends its request as soon as it is scheduled or started and again no earlier than its period after each completion, whatever the outcome was, for as long as it runs; every poll's outcome reaches the handler exactly once. Starting it while it runs changes nothing, and a restart begins one new sequence which replaces the old one, so its polls never multiply; once stopped, it sends nothing after the poll in progress. A new period counts after the next poll, and stopping one scheduled request affects no other.",
    over=["schedules", "histories"],
    text="All histories of start, stop, set-frequency and shutdown from any thread, with all outcomes of polls.",
    why="The upstream tests walk through a few sequences in mock time.",
    files=["lib/src/client/session/ScheduledRequest.hpp", "lib/src/client/session/ScheduledRequest.h", "lib/src/client/session/ClientSessionImpl.cpp"],
    mechanism=[dict(name="timer restarted by each completion", where="ScheduledRequest.hpp")],
    observe=["times and number of frames at the peer", "handler calls"],
    jobs=[J("h_client", "asan", "polling", 2, 10, evals="polls|histories", cost=3),
          J("h_client", "asan", "durations", 1, 6, evals="polls", cost=2, keys=r"client-(poll|never-completed|missing-frame)"),
          J("h_client", "tsan", "polling", 1, 4, evals="polls|histories", cost=3)],
    rule="Scripted histories on up to ten channels at once: plain polling with normal, exceptional and malformed answers, starved polls, failing connections, stop/start storms during and between polls, changes of the period, periods up to centuries, two polls of which one stops, session shutdown; frames and completions are timed at the peer and in the handler. Distinct by history.",
    technique="runtime monitoring of poll times, counts and outcomes against scripted peers",
    note="Histories are random; times are real.", assumptions=[NET, WATCH])

PROPS["C17"] = P(
    title="The public interface is free of data races, and channel callbacks never overlap",
    statement="Managers, channels, sessions, scheduled requests, timers and loggers may be used from any number of application threads while the library's own threads run, in any of the permitted ways, without a data race or deadlock. The callbacks of one client channel never run at the same time as each other, and neither do the session callbacks of one server channel, with any number of library threads; callbacks may themselves use the interface.",
    over=["schedules", "programs"],
    text="All programs using the public interface from several threads, and all schedules of them.",
    why="The upstream tests run everything on one thread with a mock executor.",
    files=CLIENT + SESSION + SERVER + ["lib/src/ModbusManagerImpl.cpp"],
    mechanism=[dict(name="strand per channel", where="ModbusManagerImpl"), dict(name="state changed only on the strand", where="all channel and session members")],
    observe=["ThreadSanitizer reports", "overlap monitors in callbacks"],
    jobs=[J("h_client", "tsan", "order", 1, 4, evals="requests", cost=4, keys=r"client-callback-overlap"),
          J("h_client", "tsan", "chaos", 1, 4, evals="requests", cost=4, keys=r"client-callback-overlap"),
          J("h_client", "tsan", "disconnect", 1, 4, evals="histories", cost=4, keys=r"client-callback-overlap"),
          J("h_client", "tsan", "polling", 1, 4, evals="polls", cost=4, keys=r"client-callback-overlap"),
          J("h_client", "tsan", "timers", 1, 4, evals="timers", cost=3, keys=r"client-callback-overlap"),
          J("h_client", "asan", "order", 1, 2, evals="requests", cost=4, keys=r"client-callback-overlap"),
          J("h_server", "tsan", "multi", 1, 4, evals="frames|streams", cost=7, keys="server-callback-overlap"),
          J("h_server", "tsan", "routing", 1, 4, evals="histories|frames", cost=4, keys="server-callback-overlap"),
          J("h_server", "tsan", "limit", 1, 4, evals="histories|steps", cost=4, keys="server-callback-overlap"),
          J("h_e2e", "tsan", "stress", 2, 8, evals="operations", cost=3, keys="callback-overlap"),
          J("h_e2e", "tsan", "burst", 3, 16, evals="operations", cost=4, keys="callback-overlap"),
          J("h_e2e", "tsan", "large", 1, 4, evals="callbacks", cost=3, keys="callback-overlap"),
          J("h_e2e", "tsan", "fidelity", 1, 4, evals="requests", cost=3, keys="callback-overlap"),
          J("h_e2e", "tsan", "lifecycle_api", 1, 4, evals="managers_destroyed", cost=3, keys="callback-overlap"),
          J("h_e2e", "tsan", "client_end", 1, 4, evals="channels_ended", cost=2, keys="callback-overlap"),
          J("h_e2e", "tsan", "server_end", 3, 8, evals="channels_ended", cost=6, keys="callback-overlap"),
          J("h_e2e", "tsan", "database", 1, 2, evals="requests", cost=2, keys="callback-overlap")],
    rule="Workloads that use every public operation from several threads with random delays injected before library handlers; bursts in which several threads run every pair of operations on the same objects at the same instant, with nothing that orders them; distinct by history.",
    technique="ThreadSanitizer and callback-overlap monitors under stress with injected delays",
    note="TSan finds races between accesses that were executed; schedules are sampled.", assumptions=[NET], workers=5)

PROPS["C18"] = P(
    title="No memory error, undefined behaviour or leak, whatever peers and applications do",
    statement="No input from a peer, no sequence of permitted calls by the application and no failure of the network makes the library read or write memory it does not own, run into undefined behaviour, terminate the process, or use an object after its destruction. Once managers are destroyed and the application, which used its handles only while the managers lived, has released them, all memory and all file descriptors the library acquired are released.",
    over=["inputs", "histories", "fault_sequences", "schedules"],
    text="All inputs, histories and faults.",
    why="The upstream tests are built without sanitizers and never exercise sockets.",
    files=PARSER + CLIENT + SESSION + SERVER + ["lib/src/ModbusManagerImpl.cpp"],
    mechanism=[dict(name="shared ownership of channels, sessions and connections by pending operations", where="shared_from_this in all asynchronous handlers"),
               dict(name="fixed buffers with bounded copies", where="MbapParser, AsioClientTcpConnection, AsioServerTcpConnection")],
    observe=["AddressSanitizer, LeakSanitizer and UBSan reports", "count of open descriptors"],
    jobs=[J("h_client", "asan", "chaos", 3, 8, evals="requests", cost=6, keys=r"^$"),
          J("h_client", "asan", "segments", 1, 4, evals="streams", cost=5, keys=r"^$"),
          J("h_client", "asan", "responses", 1, 4, evals="responses", cost=6, keys=r"^$"),
          J("h_client", "asan", "disconnect", 1, 4, evals="histories", cost=3, keys=r"^$"),
          J("h_client", "asan", "polling", 1, 3, evals="polls", cost=3, keys=r"^$"),
          J("h_server", "asan", "validate", 1, 4, evals="frames|streams", cost=4, keys="^$"),
          J("h_server", "asan", "segment", 1, 4, evals="frames|streams", cost=4, keys="^$"),
          J("h_server", "asan", "dirty", 1, 4, evals="histories|steps", cost=3, keys="^$"),
          J("h_core", "asan", "memdb", 1, 2, evals="memdb_.*", cost=6, keys="^$"),
          J("h_core", "asan", "singledb", 1, 2, evals=".*_ops", cost=6, keys="^$"),
          J("h_expected", "asan", "expected", 1, 2, evals="expected_ops", cost=6, keys="expected-(error-)?lifetime"),
          J("h_e2e", "asan", "lifecycle", 2, 8, evals="managers_destroyed", cost=3, keys="end-descriptors"),
          J("h_e2e", "asan", "stress", 1, 6, evals="operations", cost=3, keys="^$"),
          J("h_e2e", "asan", "burst", 1, 6, evals="operations", cost=3, keys="^$"),
          J("h_e2e", "asan", "client_end", 1, 4, evals="channels_ended", cost=2, keys="^$"),
          J("h_e2e", "asan", "large", 1, 4, evals="callbacks", cost=4, keys="^end-descriptors$"),
          J("h_client", "asan", "deep_queue", 1, 3, evals="requests", cost=6, keys="^$"),
          J("h_server", "asan", "deep_backlog", 1, 3, evals="frames", cost=5, keys="^$"),
          J("h_e2e", "asan", "server_end", 1, 4, evals="channels_ended", cost=2, keys="^$"),
          J("h_client", "tsan", "chaos", 1, 6, evals="requests", cost=4, keys=r"^$")],
    rule="The hostile and fault-injecting workloads of the other properties, with sanitizers as the oracle, plus descriptor counts; distinct by case.",
    technique="AddressSanitizer, LeakSanitizer, UBSan and descriptor monitoring under hostile workloads",
    note="Sanitizers see executed paths only.", assumptions=[NET])

PROPS["C19"] = P(
    title="Shutdown and destruction always finish, and nothing happens afterwards",
    statement="Destroying a manager always returns, at whatever moment and however many requests, polls, connections and half-finished operations exist, once the callbacks in progress have returned and session timers have ended; by then the connections of all its channels and the listening ports of all its started servers are closed, every server session that then serves a channel has been told by it to shut down, exactly once however many units it serves, and afterwards no callback runs. After a channel's shutdown its connections and its port are closed, no further frame goes out and no further handler, poll or session call happens on it, while the other channels of the manager go on undisturbed; the port can be used again. Calling shutdown again, or using a channel that has been shut down or one of its sessions while the manager lives, does nothing.",
    over=["schedules", "crash_points", "histories"],
    text="All moments of shutdown or destruction relative to all activities, from any thread.",
    why="The upstream tests shut down idle mock channels.",
    files=["lib/src/ModbusManagerImpl.cpp"] + CLIENT + SESSION + SERVER,
    mechanism=[dict(name="shutdown posted to each channel's strand, then threads joined", where="ModbusManagerImpl"),
               dict(name="shutdown flags checked by every handler", where="all channels and connections")],
    observe=["return of the destructor", "frames, callbacks, connections and open ports afterwards", "open descriptors", "LeakSanitizer"],
    jobs=[J("h_e2e", "asan", "lifecycle", 2, 8, evals="managers_destroyed", cost=3),
          J("h_e2e", "asan", "large", 1, 6, evals="callbacks|managers_destroyed", cost=4, keys="^end-"),
          J("h_e2e", "asan", "lifecycle_api", 1, 6, evals="managers_destroyed", cost=3),
          J("h_e2e", "asan", "client_end", 2, 8, evals="channels_ended", cost=2),
          J("h_e2e", "asan", "server_end", 2, 8, evals="channels_ended", cost=2),
          J("h_e2e", "tsan", "lifecycle", 1, 6, evals="managers_destroyed", cost=3, keys="^end-"),
          J("h_e2e", "tsan", "client_end", 1, 6, evals="channels_ended", cost=2, keys="^end-"),
          J("h_e2e", "tsan", "server_end", 1, 6, evals="channels_ended", cost=2, keys="^end-")],
    rule="Managers with random sets of client channels (connecting, connected, refused, resolving, starved, polling), servers (idle, loaded, with half requests) and peers are destroyed at random moments while application threads use them; single channels are shut down once or often, from one or several threads, during random activity next to a channel that must go on. One manager has 768 server sessions, 60 client channels, and thousands of requests and replies queued when it ends. Callbacks, frames, connections, ports, session shutdowns and descriptors are counted afterwards. Distinct by history.",
    technique="end-of-life monitors (callbacks, frames, connections, ports, descriptors, watchdog on the destructor) under ASan/LSan and TSan with injected delays",
    note="Moments are random. Requests outstanding when their channel is shut down get no handler call, which the property does not forbid. A server that was never started keeps its port until its handle is released. Calls other than releasing handles after the manager's destruction are not covered.", assumptions=[NET, WATCH])

PROPS["C26"] = P(
    title="Session timers fire exactly once, not before their time, unless cancelled",
    statement="A timer started through a client session runs its action exactly once, never before its duration has passed or its expiration time has come, and reports that expiration time. A timer cancelled clearly before it expires never runs its action; cancelling it again or after it has run, and discarding the timer object, are harmless, and discarding does not cancel it.",
    over=["schedules", "histories"],
    text="All durations and expiration times, past ones included, and all moments of cancellation.",
    why="The upstream tests do not use session timers in real time.",
    files=["lib/src/TimerWrapper.cpp", "lib/src/TimerWrapper.h", "lib/src/client/session/ClientSessionImpl.cpp"],
    mechanism=[dict(name="forwarding to the executor's timer", where="TimerWrapper, ClientSessionImpl::start")],
    observe=["number and time of action calls", "reported expiration"],
    jobs=[J("h_client", "asan", "timers", 2, 10, evals="timers", cost=3),
          J("h_client", "asan", "durations", 1, 6, evals="timers", cost=2, keys=r"client-timer"),
          J("h_client", "tsan", "timers", 1, 4, evals="timers", cost=3)],
    rule="Timers with durations and expiration times from the past to 60 ms, an hour and centuries, cancelled at once, late, twice or never, discarded, and chained, from one to four library threads; runs and their times are counted. Distinct by timer.",
    technique="runtime monitoring of session timers in real time, with ASan/TSan",
    note="Times are real; a timer cancelled within its last moments may run or not.", assumptions=[NET, WATCH])
