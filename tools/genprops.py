#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that entries stay uniform)."""
import json, os
R=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    R.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
CS=["src/client_send.rs","src/client.rs"]
U="The repository's runnable tests cover none of this code; the integration tests sample a dozen fixed conversations. "
p("C01","Client puts every command on the wire byte-exact, in order and contiguous",
  "The bytes a client emits are exactly the encodings of the enqueued commands, in the order they were enqueued, each one contiguous: nothing is lost, duplicated, reordered or interleaved with another command. Only bytes of a command whose literal was refused may be cut short, and whenever the client reports that it can only wait for input, everything that may be sent has been sent.",
  ["histories","inputs"],"all interleavings of enqueuing, stepping and server input up to a depth, over commands with 0-2 synchronizing or non-synchronizing literals, AUTHENTICATE and IDLE",
  U+"Ordering bugs need particular interleavings of enqueue, partial sends and responses.",CS,[("send queue and current message","src/client_send.rs ClientSendState::next")],["State::next output","client::Event"])
p("C02","Client sends a synchronizing literal only after its own go-ahead",
  "After announcing a synchronizing literal the client sends nothing further until the server's next continuation request arrives, and each continuation request releases exactly one such literal. Non-synchronizing literals are sent immediately, and once a literal is released its payload and the rest of the command follow without needing anything else.",
  ["histories"],"all histories of continuation requests arriving before, during and after the announcement, with several literals per command and several commands",
  U+"They only send a continuation request at the expected moment.",CS,[("literal limbo","src/client_send.rs CommandActivity")],["Io::Output"])
p("C03","Only a tagged BAD for the waiting command aborts its literal",
  "While a command waits for permission to send a literal, a tagged BAD status carrying that command's tag ends exactly that command: it is reported as rejected together with the command and the status, no byte of its literal or remainder is ever sent, and the next queued command proceeds. Any other status (OK, NO, another tag, untagged, BYE) is delivered to the user as an ordinary status and leaves the command waiting.",
  ["histories","inputs"],"all status kinds x tags x positions in the sending of commands with several literals",
  U+"One rejection script is sampled.",CS,[("maybe_terminate","src/client_send.rs")],["client::Event::CommandRejected"])
p("C04","Client AUTHENTICATE exchange follows the server turn by turn",
  "During AUTHENTICATE each continuation request is reported to the user, authentication data is accepted from the user exactly when the server has asked for it and is sent exactly once per request, and otherwise is handed back unchanged. A tagged status with the command's tag ends the exchange and is reported with that command; no later command is sent before the exchange ended.",
  ["histories","inputs"],"all interleavings of continuation requests, statuses, user data, and enqueued commands up to a depth",
  U+"One PLAIN exchange is sampled.",CS,[("AuthenticateActivity","src/client_send.rs")],["client::Event"])
p("C05","Client IDLE exchange: accepted, ended by DONE once, or rejected",
  "After IDLE was sent, the next continuation request is reported as acceptance; only then can the user end it, DONE is sent exactly once, and commands enqueued meanwhile are sent only after DONE or after the server ended IDLE with a tagged status. A request to end IDLE at any other time is refused and sends nothing.",
  ["histories"],"all interleavings of continuation requests, statuses, DONE requests and enqueued commands up to a depth",
  U+"One accept and one reject script are sampled.",CS,[("IdleActivity","src/client_send.rs")],["client::Event"])
p("C06","Every enqueued command is resolved exactly once, in order, by its handle",
  "Every enqueued command gets exactly one final event (sent, rejected, authentication status, IDLE rejected or IDLE done) carrying the handle returned when it was enqueued and the very same command. Final events come in enqueue order, 'sent' never comes before all bytes of the command were emitted, and with a responsive server none is left out.",
  ["histories"],"all operation histories up to a depth, completed by a cooperative server",
  U,CS+["src/handle.rs"],[("events carry handle","src/client_send.rs FinishSendingResult")],["client::Event"])
p("C07","Client surfaces every server message exactly once and in order",
  "Every well-formed greeting, status, data or continuation request received is delivered to the user exactly once, in the order received and unchanged. The only message that is consumed silently is a continuation request that releases a waiting literal.",
  ["histories","inputs"],"all sequences of server messages interleaved with all sending activities up to a depth",
  U,["src/client.rs","src/receive.rs"],[("progress_receive","src/client.rs")],["client::Event"])
p("C08","Greeting comes first: nothing is sent or reported before it",
  "A client sends no byte and reports no other event before a well-formed greeting was received, however many commands were enqueued, and reports the greeting exactly once. Input that follows the greeting in the same delivery is processed as ordinary responses.",
  ["histories","inputs"],"all histories starting before the greeting, malformed greetings included",
  U,["src/client.rs","src/client_receive.rs"],[("ClientReceiveState::Greeting","src/client.rs progress_send")],["client::Event::GreetingReceived"])
RC=["src/receive.rs","src/server.rs","src/client.rs"]
p("F01","What is received does not depend on how the bytes were segmented",
  "The sequence of events, errors and replies produced for a received byte stream depends only on the bytes, not on how they were split into deliveries or on how often the connection was polled in between. A complete message is reported as soon as its last byte arrived, without waiting for more input.",
  ["inputs","schedules"],"all cuts of each corpus stream into up to four deliveries plus byte-wise delivery, for client and server in every receiving mode, with strict and relaxed line endings and size limits",
  U+"They deliver whole lines.",RC,[("seen_bytes bookkeeping","src/receive.rs progress_line")],["State::enqueue_input"])
p("F02","Bare LF line endings are refused in strict and accepted in relaxed mode",
  "In strict mode a line of a message that ends in a bare LF is reported as a line-ending error with the offending message discarded; in relaxed mode LF and CRLF are both line endings with the same result. This holds for the first and for every later line of a message, also right after a literal and also when CR and LF arrive in different deliveries.",
  ["inputs","schedules"],"all short byte strings over an alphabet of CR, LF and text, and all line-ending variants of a message corpus, under all two-cut segmentations",
  U,RC,[("find_crlf","src/receive.rs")],["Error::ExpectedCrlfGotLf"])
p("F03","Malformed input is discarded exactly, and the connection resynchronizes",
  "When a received message is malformed, exactly the bytes of that message (up to and including its line end) are reported as discarded, and processing continues with the very next byte. All received bytes are accounted for once: as part of a message, as discarded, or as still pending.",
  ["inputs","histories"],"all sequences of well-formed and malformed messages of a corpus up to a length, all short byte strings, in every receiving mode",
  U,RC,[("discard_message/finish_message","src/receive.rs")],["discarded_bytes"])
p("F04","Literal payloads are opaque: any bytes, any length, reproduced exactly",
  "The payload of an announced literal is taken verbatim by its byte count, whatever it contains (CR, LF, NUL, text that looks like commands, tags or further announcements), and never affects how the rest of the stream is interpreted. It reaches the user unchanged, for client and server alike, also for empty literals and several literals in one message.",
  ["inputs","schedules"],"all payloads up to a length over a hostile alphabet, literal counts 0-3, all two-cut segmentations",
  U,RC,[("progress_literal","src/receive.rs")],["CommandReceived","DataReceived"])
SV=["src/server.rs","src/server_send.rs"]
p("S01","Server sends greeting first, then every response in order, reported once",
  "The bytes a server emits are the encoding of the greeting followed by the encodings of the responses in the order they were enqueued, without loss, duplication or interleaving. The greeting and each response enqueued by the user is reported as sent exactly once, in order, with the handle returned for it, and only after its bytes were emitted; replies created by the server itself are not reported.",
  ["histories"],"all interleavings of enqueuing, stepping and client input up to a depth",
  U,SV,[("ServerSendState","src/server_send.rs")],["server::Event::ResponseSent"])
p("S02","Exactly one go-ahead per accepted synchronizing literal",
  "For every synchronizing literal within the limits the server sends exactly one continuation request with the configured text, without being asked and without needing further input; for a non-synchronizing literal it sends none. The go-ahead is sent before the server waits for the payload and before the command is reported.",
  ["histories","inputs"],"all commands with up to three literals of both modes, in all segmentations, mixed with enqueued responses",
  U,SV,[("start_literal + literal_accept_ccr","src/server.rs progress_receive")],["Io::Output"])
p("S03","Oversized literals are refused: BAD with the command's tag, never parsed",
  "A literal larger than the configured maximum is never accepted and its command is never reported; one of exactly the maximum is accepted. For a synchronizing literal the server answers with one tagged BAD with that command's tag and the configured text and reports the announcement as discarded; for a non-synchronizing literal the bytes of the payload that the client sends anyway are never interpreted as commands.",
  ["inputs","histories"],"literal sizes around the limit, both modes, first and later literals of a command, hostile payloads, all two-cut segmentations",
  U,SV,[("max_literal_size","src/server.rs progress_receive")],["Error::LiteralTooLong"])
p("S04","Command size limit is exact and bounds what a client can make us buffer",
  "A command of at most the configured maximum size (literals included) is processed normally, and one that is larger is reported as too long as soon as that many bytes have been received, discarding exactly that many bytes. The decision does not depend on segmentation and applies to authentication data and IDLE termination lines as well.",
  ["inputs","schedules"],"sizes limit-3..limit+3 for lines, literal payloads and lines after literals, all two-cut segmentations, all receiving modes",
  U,["src/receive.rs","src/server.rs"],[("max_readable_bytes","src/receive.rs")],["Error::CommandTooLong"])
p("S05","Server AUTHENTICATE exchange and refusal of out-of-state calls",
  "After an AUTHENTICATE command the server interprets client lines as authentication data until the user finishes the exchange, and as commands from then on, including bytes that were already received. Continuing or finishing authentication is possible exactly during that exchange; at any other time the call is refused, hands its argument back unchanged and has no effect.",
  ["histories","inputs"],"all interleavings of client lines, user calls and stepping up to a depth",
  U,SV+["src/server_receive.rs"],[("ServerReceiveState::change_state","src/server_receive.rs")],["authenticate_continue","authenticate_finish"])
p("S06","Server IDLE exchange and refusal of out-of-state calls",
  "After an IDLE command the server interprets nothing further from the client until the user accepts or rejects it; after acceptance it expects DONE, reports it once and returns to commands, and after rejection it returns to commands at once, without losing bytes received meanwhile. Accepting or rejecting is possible exactly once per IDLE command; at any other time the call is refused, hands its argument back unchanged and has no effect.",
  ["histories","inputs"],"all interleavings of client lines, user calls and stepping up to a depth",
  U,SV+["src/server_receive.rs"],[("IdleAccept/IdleDone states","src/server_receive.rs")],["idle_accept","idle_reject"])
p("S07","Server surfaces every client message exactly once, in order, unchanged",
  "Every well-formed command, authentication line and DONE that a client sends is delivered to the server's user exactly once, in the order received, equal to what was sent, and as soon as its last byte was received and the current mode allows it to be interpreted. Nothing that the user enqueues, no mode change and no refused or malformed message before or after it makes a message disappear, appear twice, change or wait.",
  ["histories","inputs"],"all sequences of client messages of any kind, size and number, interleaved with responses, replies and deliveries up to a depth",
  U+"Losing or delaying a message needs a particular combination of pipelining, literals and modes.",SV+["src/server_receive.rs","src/receive.rs"],[("progress_receive","src/server.rs"),("message-dependent codec","src/server_receive.rs")],["server::Event"])
p("X01","Client and server connected to each other: lossless, ordered, no deadlock",
  "When a client and a server are connected by any reliable byte pipes, every command the client's user enqueues is received by the server's user, in order and equal to what was enqueued, and every response travels back likewise, provided both users do their part. The pair never reaches a state where both only wait although something is still to be transferred.",
  ["schedules","histories"],"all schedules of the two endpoints and all delivery sizes from a set, over scripts mixing literal-bearing commands, AUTHENTICATE, IDLE, oversized literals and unsolicited data",
  U+"They run one schedule on a real socket.",["src/client.rs","src/server.rs","src/client_send.rs","src/server_send.rs","src/receive.rs"],[("sans-IO state machines","src/lib.rs State")],["events of both sides"])
p("L01","No input and no call order makes an endpoint panic or spin",
  "Whatever bytes a peer sends and in whatever order the user calls the public functions, client and server never panic, never enter an unusable state and never produce an unbounded sequence of results without new input. Whenever something can still be processed or sent it is, rather than waiting for input.",
  ["inputs","histories"],"all short byte strings over a protocol alphabet in all receiving modes, and all operation histories up to a depth",
  U,["src/client.rs","src/server.rs","src/receive.rs"],[("unreachable!/unwrap/assert sites","src/*.rs")],[])
ST=["src/stream.rs"]
p("T01","Stream transfers exactly the bytes, whatever sizes reads and writes take",
  "Over a plain TCP connection the bytes put on the wire are exactly the output of the protocol state in order, and the bytes received are handed to it exactly once and in order, no matter how the operating system splits reads and writes or in which order they become ready.",
  ["schedules","fault_sequences"],"all choices of partial read and write sizes and readiness orders up to a deviation bound",
  "The tests run over loopback, where writes are never partial.",ST,[("read/write buffers","src/stream.rs next")],["socket bytes"])
p("T02","Cancelling a pending stream operation loses and duplicates nothing",
  "Dropping a pending wait for the next event (as happens when it is used in a select) at any suspension point and calling it again behaves as if it had not been interrupted: no byte is lost, repeated or reordered in either direction, and no event is lost.",
  ["schedules"],"cancellation at every suspension point of the operation, combined with partial reads and writes, plain and TLS",
  "Cancellation at a given await point is not reachable from the tests.",ST,[("buffers owned by Stream","src/stream.rs")],["Stream::next"])
p("T03","Peers that both send a lot never deadlock",
  "A stream that still has bytes to write keeps reading what the peer sends, so two endpoints that both transmit more than the connection can buffer always make progress, over plain TCP and over TLS.",
  ["schedules"],"all interleavings of two real endpoints over pipes of tiny capacity up to a preemption bound",
  "Loopback buffers are larger than anything the tests send.",ST,[("select! over read and write","src/stream.rs next")],["progress of both sides"])
p("T04","Closure and I/O errors are reported, after everything received was delivered",
  "When the peer closes the connection or an I/O error occurs, the stream reports closed or that error instead of waiting forever or ending normally, and everything received completely before that has been delivered as events first. A write that accepts no bytes counts as closed.",
  ["fault_sequences","schedules"],"end of file, errors and zero-length writes injected at every read and write position",
  "No fault is injected by the tests.",ST,[("byte_count == 0","src/stream.rs read/write")],["stream::Error"])
p("T05","Flush returns only after all pending output has been handed to the socket",
  "When flushing a stream succeeds, every byte the protocol state had produced before is on the socket, encrypted in full if TLS is used, whatever the sizes of the partial writes; if that is impossible, flushing reports an error.",
  ["schedules","fault_sequences"],"all partial write sizes and write faults, pending output from cancelled operations",
  "The tests never flush with pending output.",ST,[("flush","src/stream.rs")],["Stream::flush"])
p("T06","TLS streams carry messages of any size and any record layout intact",
  "Over TLS the peer receives exactly the bytes the protocol state produced and vice versa, for messages of any size (from one byte to many times the TLS record and buffer limits), for any split of TLS records into reads, and for data that arrived together with the end of the handshake.",
  ["inputs","schedules"],"plaintext sizes around all buffer and record boundaries, record coalescing and splitting, early data, partial writes",
  "The tests use short messages over plain TCP only.",ST,[("encrypt/decrypt","src/stream.rs")],["plaintext at the peer"])
p("T07","TLS closure is reported like any other closure",
  "When the TLS peer announces the end of its data or just closes the connection, everything received before is delivered and then the stream reports closed or an error; it never spins, hangs or invents data.",
  ["fault_sequences","schedules"],"close notification alone, coalesced with data, split over reads, followed by end of file, and truncation at every byte",
  "No test closes a TLS connection.",ST,[("decrypt loop","src/stream.rs")],["Stream::next"])
p("H01","Handles are unique across all connections and threads",
  "No two enqueued messages of the same kind ever get equal handles: not within one connection, not across connections of the process, and not when connections are created concurrently on several threads. A handle equals only itself.",
  ["schedules","histories"],"all interleavings of concurrent connection creation, and long runs of handles on many connections",
  "The unit test checks the first hundred handles of the first hundred generators on one thread.",["src/handle.rs"],[("generator id + counter","src/handle.rs")],["CommandHandle","ResponseHandle"])
p("H02","Generated tags are unique across all generators and threads",
  "No two tags produced by any tag generators of the process are ever equal, also when generators are created and used concurrently on several threads, and every generated tag is a valid tag. In release builds every tag additionally ends in a fresh random alphanumeric token of eight characters.",
  ["schedules","histories"],"all interleavings of concurrent generator creation and use, and all pairs of many generators and long runs",
  "The test samples one schedule with five tags per generator; it cannot be built here at all.",["tag-generator/src/lib.rs"],[("global counter + local counter","tag-generator/src/lib.rs")],["TagGenerator::generate"])
PX=["proxy/src/proxy.rs"]
p("P01","Proxy forwards every client command to the server unchanged and in order",
  "Every well-formed command, authentication line, IDLE and DONE of a client is sent to the server exactly once, in order and with the same tag and arguments; the proxy adds nothing and reorders nothing. Literals are handled on both sides, so the client gets its own go-ahead from the proxy.",
  ["histories","schedules"],"all interleavings of client and server messages up to a depth, over a command corpus with literals, AUTHENTICATE and IDLE",
  "There are no tests of the proxy's conversation.",PX,[("handle_client_event","proxy/src/proxy.rs")],["bytes at the server"])
p("P02","Proxy forwards every server message to the client unchanged and in order",
  "The greeting and every response of the server reach the client exactly once, in order and unchanged except for removed capabilities; continuation requests that only release a literal the proxy is sending are not forwarded. Statuses that end AUTHENTICATE or IDLE return the client side to normal command processing.",
  ["histories","schedules"],"all interleavings of client and server messages up to a depth",
  "There are no tests of the proxy's conversation.",PX,[("handle_server_event","proxy/src/proxy.rs")],["bytes at the client"])
p("P03","Clients never see a capability the proxy does not support",
  "Wherever the server announces capabilities (greeting, capability response, any status or continuation request, at any point of the session, AUTHENTICATE and IDLE included), the client only sees those on the proxy's allow-list, in the original order, and IMAP4rev1 if none is left. All supported capabilities are kept and everything else in the message is unchanged.",
  ["inputs","histories"],"every capability alone and in pairs x every message kind that can carry capabilities x every session state",
  "There are no tests of the filter.",["proxy/src/util.rs","proxy/src/proxy.rs"],[("filter_capabilities*","proxy/src/util.rs")],["bytes at the client"])
p("P04","A command whose literal the server refuses is answered to the client",
  "If the server refuses a literal of a forwarded command, the client gets exactly one tagged BAD for that command's tag with the proxy's own text and no code (only a refusal that carries an ALERT code keeps that code and the server's text), and the session continues with the next command. Other commands are unaffected.",
  ["histories","inputs"],"all response codes x literal positions x pipelined commands x schedules",
  "There are no tests of the proxy's conversation.",PX,[("CommandRejected mapping","proxy/src/proxy.rs handle_server_event")],["bytes at the client"])
p("P05","No client or server input makes the proxy panic or hang a session",
  "Whatever bytes in whatever order a client or server sends, the proxy's session task never panics: malformed messages are dropped and the session continues, a message that makes no sense in the current state ends at most this session, and when one side closes after the server's greeting arrived, the session ends and the other side is closed (before the greeting, and for a malformed greeting, the session ends as soon as the server acts).",
  ["histories","inputs","fault_sequences"],"all interleavings of protocol-violating and valid messages from both sides up to a depth, with closes and errors at every point",
  "There are no tests of the proxy's conversation.",PX,[("ControlFlow","proxy/src/proxy.rs")],["session task result"])
p("P06","The configured encryption is always enforced on both sides",
  "On a TLS-bound service no byte of IMAP is exchanged with a client outside TLS, and with a TLS server connection only after the server's certificate was verified against the trusted roots and the configured host name. A failed handshake, wrong name, untrusted certificate or unusable identity ends that connection without falling back to plain text.",
  ["configurations","fault_sequences"],"all combinations of bind and connect encryption x peer behaviour (plain text, wrong name, untrusted or valid certificate, early close) x identity file contents",
  "No test starts a TLS proxy.",PX+["proxy/src/util.rs"],[("accept_client/connect_to_server","proxy/src/proxy.rs")],["raw bytes at both peers"])
p("P07","Configuration is read faithfully, with safe defaults, and bad input refused",
  "Every service in a configuration file is loaded in order with exactly the given name, encryption, host, port and identity; a missing port means 143 for insecure and 993 for TLS, for binding and connecting alike. Missing or unknown encryption, a TLS binding without identity, out-of-range ports, missing fields and unreadable files are refused with an error instead of being guessed.",
  ["configurations","inputs"],"the full product of presence, type and boundary variants of every field for one and two services",
  "The unit test checks one file in which every port is given.",["proxy/src/config.rs"],[("serde model","proxy/src/config.rs")],["Config::load"])
p("P08","One client cannot block or break the service for others",
  "Whatever a client does (connecting and staying silent, stalling or failing a TLS handshake, violating the protocol, disconnecting at any point), the service keeps accepting and serving other clients. The same holds when the server cannot be reached or fails for one session.",
  ["schedules","fault_sequences"],"misbehaviours x positions x schedules of one bad and one good client, for both bind modes",
  "There are no tests of the service loop.",["proxy/src/main.rs"]+PX,[("handle_service loop","proxy/src/main.rs")],["second client is served"])
p("P09","Data received before one side closes still reaches the other side",
  "When the server closes the connection, everything it sent completely before is still delivered to the client before the client connection is closed, and everything a client sent completely before closing is still delivered to the server. Only what needs a further answer of the server (a literal that was not released, a command behind an unfinished IDLE or AUTHENTICATE) is excepted, and a peer that stops reading cannot delay the end of the session for ever.",
  ["schedules","fault_sequences"],"closure of either side after every prefix of a conversation, with slow peers, partial writes and all schedules up to a bound",
  "There are no tests of the proxy's conversation.",PX,[("start_conversation loop","proxy/src/proxy.rs")],["bytes at the surviving side"])
p("P10","Addresses and service descriptions show exactly what is configured",
  "The address used for binding and connecting is exactly host, colon, port of that endpoint, and the printed form names the right scheme and whether TLS or insecure is in use, followed by the same host and port. Writing a configuration out and reading it again gives an equal configuration.",
  ["configurations"],"the full product of encryption, host forms and boundary ports for both endpoints",
  "The unit test never looks at addresses or printed forms.",["proxy/src/config.rs"],[("addr_port/Display","proxy/src/config.rs")],["addr_port","Display","Serialize"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in R: f.write(json.dumps(r)+"\n")
print(len(R))
