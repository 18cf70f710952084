#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

FH="internal/protocol/frame_handler.go"; PC="internal/protocol/packet_codec.go"; MP="internal/protocol/msg_processor.go"
PL="internal/protocol/pipeline.go"; KA="internal/protocol/keepalive.go"; TS="internal/server/tcp_server.go"
DC="internal/storage/device_cache.go"; GC="internal/storage/geo_cache.go"; SC="internal/storage/session_cache.go"
SG="internal/storage/segment_cache.go"; API="internal/api/api.go"; RB="pkg/container/ring_buffer.go"
SE="internal/protocol/model/session.go"; HD="internal/protocol/model/header.go"; DV="internal/protocol/model/device.go"
DP="internal/protocol/model/device_params.go"; SAFE="pkg/routines/safe.go"; HEX="internal/codec/hex/hex.go"

p("C01","Framing does not depend on how TCP cuts the byte stream",
 "For any byte stream a terminal sends, cut into TCP segments at any places and delivered with any delays, the server handles exactly the complete valid frames it contains, each once and in order, whatever bytes their contents need escaped, whatever their length and protocol version (2011, 2013, 2019). Bytes outside frames, stray or missing delimiters and truncated or corrupted frames cost at most the damaged frame and the frame next to it: everything after that is handled normally, in bounded time.",
 ["inputs","schedules","fault_sequences"],"all byte streams of valid frames, noise, damaged frames and lost or added delimiters x all segmentations, coalescings and delivery delays",
 "Tests hand one ready-made frame to the parser; the stream cut at arbitrary byte positions, noise between frames, and recovery after a lost delimiter are unbounded and need a connection that lives on.",
 [FH,PC,HD],[("delimiter state machine","%s Recv"%FH),("unescape and checksum","%s Decode"%PC)],["bytes on the terminal's TCP connection","GET /device/:phone/geo"])

p("C02","Exactly one matching reply per request, in order, on its own connection",
 "Every well-formed request of a registered terminal (register, authenticate, heartbeat, location report, deregister) is answered exactly once, on the connection it came in on and in request order, within bounded time, by the reply type the protocol prescribes, echoing the request's serial number, message id, phone number and protocol version, however many terminals and platform commands are active. Messages that take no reply (general response, parameter answer, media list) are never answered.",
 ["schedules","inputs","histories"],"all interleavings of terminals, pipelined requests, platform commands and keep-alive timers x all serials, phones, versions",
 "Tests encode single replies in isolation; mixing up replies between connections, losing or duplicating one needs concurrent pipelined traffic.",
 [PL,MP,TS,"internal/protocol/model/msg_8001.go","internal/protocol/model/msg_8100.go"],[("one pipeline per connection","%s serve"%TS),("reply generated from the request header","internal/protocol/model/msg_8001.go GenOutgoing")],["bytes on each terminal's TCP connection"])

p("C03","The byte stream to a terminal is always whole, valid frames",
 "Whatever replies and platform commands the server sends to a terminal at the same time, and however slowly the terminal reads, the bytes it receives are a concatenation of complete frames, never interleaved, truncated or repeated, each correctly delimited, escaped, checksummed and with the declared body length in the header layout of the terminal's protocol version. Only closing the connection may cut the last frame short.",
 ["schedules","inputs","fault_sequences"],"all interleavings of reply and command writers, receive-window stalls, contents needing escapes",
 "Tests never have two writers on one connection or a peer that reads slowly.",
 [FH,PC,HD,TS,API],[("one write call per frame","%s Send"%FH),("escape and checksum","%s Encode"%PC),("header layout","%s Encode"%HD)],["bytes on the terminal's TCP connection"])

p("C04","Corrupt and unsupported messages have no effect",
 "A frame whose checksum does not match, or whose message type the platform does not support, is never answered and changes nothing: not the terminal's registration, status, last-heard time or location, nor anybody else's. The connection it came in on stays usable: valid requests that follow on it are handled in bounded time.",
 ["inputs","schedules","histories"],"all single- and multi-bit corruptions of all frames, all unsupported ids, at any point of a session",
 "Tests check one corrupted packet against one decode function; that no state anywhere changed and the connection lives on is not observed.",
 [PC,MP,TS],[("checksum verification before decoding","%s verify"%PC),("table lookup before processing","%s Process"%MP),("errors other than close keep the loop going","%s serve"%TS)],["GET /device","GET /device/:phone/geo","bytes on the TCP connection"])

p("C05","No peer, timer or schedule takes the service down or starves others",
 "Whatever any terminal sends (including malformed, truncated and hostile frames), however and whenever connections break, stall or fail to be accepted, whatever requests reach the HTTP API and however timers interleave with them, the server process keeps running and keeps answering every other well-behaved terminal and HTTP request in bounded time.",
 ["schedules","inputs","fault_sequences"],"all peers' byte streams, resets, stalls, accept failures, API requests and timer interleavings",
 "A crash from an unrecovered panic or a concurrent map access needs a specific race or input; tests are single-threaded.",
 [SAFE,TS,KA,API,SC,DC],[("panic recovery per goroutine","%s GoSafe"%SAFE),("locks around shared maps","internal/storage/*.go"),("one goroutine per connection","%s Start"%TS)],["process exit","TCP and HTTP answers of unrelated peers"])

p("C06","Registration is exclusive and atomic",
 "At any moment a phone number is registered by at most one terminal and a plate by at most one terminal: of any set of competing registrations for the same phone or plate exactly one succeeds, and every other one gets the already-registered result for what is taken, no authentication code that works, and changes nothing of the winner's registration. A phone and plate that nobody holds can always be registered.",
 ["schedules","histories"],"all interleavings of competing registrations, deregistrations, failed authentications and expiries",
 "The check-and-store spans several steps; only two registrations inside that window break it and tests register one at a time.",
 [MP,DC],[("existence check and store","%s processMsg0100"%MP),("two indexes kept together","%s"%DC)],["registration replies","GET /device"],[("device index by phone and by plate","who is registered",DC)])

p("C07","A terminal comes online only with the code issued to it",
 "A registered terminal is shown online (or asleep) only after it authenticated with exactly the code issued in its successful registration reply, and such an authentication always succeeds and makes it online with the identity it presented. Any other code is answered with failure and drops the registration, so the terminal is no longer listed and must register again; the code of one registration never works for another phone, plate or device id.",
 ["inputs","histories","schedules"],"all codes (empty, prefixes, extensions, other terminals'), versions and orders of register/authenticate/report",
 "Tests cover one matching code; near-miss codes, other terminals' codes and concurrent sessions are not reached.",
 [MP,"internal/protocol/model/msg_0102.go",DV],[("code comparison","%s processMsg0102"%MP),("code derivation","%s genAuthCode"%MP)],["authentication reply","GET /device status, imei, softwareVersion"])

p("C08","Unregistered terminals are refused and disconnected",
 "A heartbeat, location report, authentication or deregistration for a phone number that is not currently registered (never registered, deregistered, expired, dropped, or lost in a server restart) gets no success reply, leaves no trace in the device list or locations, and its connection is closed by the server in bounded time. Registering afterwards on a new connection works.",
 ["histories","schedules","crash_points"],"all message orders, server restarts and removals racing with in-flight messages",
 "Needs sequences across removals, restarts and connections; tests call handlers with a pre-filled cache.",
 [MP,TS,DC],[("lookup error returned to the connection loop","%s process*"%MP),("close on unknown device","%s serve"%TS)],["TCP close","GET /device"])

p("C09","A silent terminal expires completely and in bounded time",
 "A registered terminal from which nothing is heard any more, whether its connection is open, closed, broken or stalled, and whether or not it had authenticated, is shown offline within two keep-alive periods and is removed within three (plus scheduling slack): it disappears from the list and location queries, its connection is closed by the server, and its phone and plate can be registered again at once. This holds for every registration, including a later one of the same phone.",
 ["histories","schedules","fault_sequences"],"all silence onsets relative to timer ticks, statuses, connection fates and re-registrations",
 "Minutes of timer behaviour racing with traffic; tests call the check function once with a hand-made cache.",
 [KA,DV,DC,GC,MP],[("per-terminal periodic check","%s checkDeviceKeepalive"%KA),("expiry predicates","%s ShouleTurnOffline/ShouldClear"%DV)],["GET /device","GET /device/:phone/geo","TCP close","registration reply"])

p("C10","A terminal that keeps talking is never expired",
 "An authenticated terminal that is heard (heartbeat or location report, or authentication) at least once every keep-alive period is never shown offline, never removed and never disconnected by the server, for as long as it goes on, whatever other terminals do, when its messages fall relative to timer checks, and whatever earlier registrations of the same phone left behind.",
 ["schedules","histories"],"all message timings within the keep-alive period, any number of periods, other terminals' expiries and re-registrations",
 "Needs long timed histories with messages landing next to timer checks.",
 [KA,MP,DV],[("last-heard time refresh","%s processMsg0002/0200/0102"%MP),("expiry predicates","%s"%DV)],["GET /device status","TCP connection stays open"])

p("C11","Deregistration is complete",
 "Once a deregistration is acknowledged, the terminal is no longer listed, its location is not retrievable, neither now nor after its phone registers again, and its phone and plate can be registered at once, by anyone; nothing of the old registration (timers, in-flight messages) later changes, expires or disconnects a new one. Other terminals are unaffected.",
 ["histories","schedules"],"all orders and races of deregistration, re-registration, timers and in-flight messages",
 "Leftover timers and half-removed indexes show only later, in a second registration.",
 [MP,KA,DC,GC],[("cancel timer and delete cache entry","%s processMsg0003"%MP)],["GET /device","GET /device/:phone/geo","registration reply"])

p("C12","The location shown is the last one acknowledged",
 "The location of a registered terminal is always the content of the most recent of its reports that was acknowledged (or of one still in flight): every coordinate, speed, direction, altitude, status flag and time exactly as reported, after any number of reports, and never another terminal's, an older one, a mixture or nothing.",
 ["inputs","histories","schedules"],"all report values and counts (past every internal buffer size), readers concurrent with writers, several terminals",
 "Wrap-around after many reports and concurrent readers are not sampled by tests.",
 [GC,RB,DV,MP],[("per-terminal history ring","%s"%RB),("field decoding","%s DeviceGeo.Decode"%DV)],["GET /device/:phone/geo"],[("ring buffer","latest location",RB)])

p("C13","Platform commands reach the right terminal exactly once and intact",
 "An accepted parameter query or parameter setting for a registered, connected terminal produces exactly one command frame, on that terminal's current connection and no other, in its protocol version, carrying exactly the requested parameters with a matching count; commands on one connection carry distinct serial numbers (none is used again before all 65536 have been). For an unknown or disconnected terminal, or an unreadable request body, the caller gets a client error and no frame is sent to anyone.",
 ["inputs","schedules","histories"],"all parameter sets, concurrent commands to several terminals, disconnects racing with commands",
 "Routing under concurrency and races with disconnects cannot be sampled by a unit test; there is no API test.",
 [API,TS,SE,DP,HD],[("session lookup and send","%s"%API),("serial allocation","%s GetNextSerialNum"%SE),("parameter encoding","%s Encode"%DP)],["bytes on all TCP connections","HTTP status"])

p("C14","Connection teardown releases exactly its own session",
 "Whenever and however a connection ends (clean close, reset, half a frame, server-side close), the server closes its side, commands to a terminal bound to it are refused from then on, and nothing of any other connection is affected, including a new connection from the same remote address and port that arrives before the old one is cleaned up. Once no terminal is bound to it any more, the server holds on to nothing of it, however many connections come and go. The terminal's registration itself survives the loss of its connection until it expires.",
 ["fault_sequences","schedules","crash_points"],"all disconnect points and kinds, address reuse racing with cleanup",
 "Needs address reuse while the old connection is being cleaned up, and resets at arbitrary bytes.",
 [TS,SC],[("deferred removal","%s remove"%TS),("session index by remote address","%s"%SC)],["TCP close","HTTP status of commands","commands arriving"],[("session index","live connections",SC)])

p("C15","Authenticating on a new connection moves the terminal there",
 "A registered terminal that authenticates successfully on a new connection is from then on served there: commands go to the new connection and only there, its session shown in the device list is the new one, and the later end of the old connection does not disturb it. It stays registered throughout; it need not register again after losing a connection.",
 ["histories","schedules","fault_sequences"],"all reconnect timings relative to the old connection's end, timers and commands",
 "Needs two connections of one terminal overlapping in time.",
 [MP,TS,API,DV],[("rebinding on authentication","%s processMsg0102"%MP)],["bytes on both connections","GET /device sessionId"])

p("C16","Fragmented messages take effect once, complete and in order",
 "A message that a registered terminal sends in fragments over one connection (numbered and with consecutive serial numbers, as the protocol prescribes) takes effect exactly once, when its last missing fragment arrives, with exactly the content the unfragmented message would have, regardless of fragment sizes, of fragments arriving out of order or repeated while it is being assembled, and of interleaving with other messages or with other terminals' fragments. Every fragment is acknowledged; an incomplete message never takes effect and never prevents a later one from being assembled.",
 ["inputs","schedules","histories"],"all splits, orders, duplicates, losses and interleavings of fragment streams of several terminals",
 "No test reassembles anything through the pipeline; orders, duplicates and interleavings are unbounded.",
 [SG,PC,MP,"internal/protocol/model/segment.go"],[("segment cache","%s CacheSegment"%SG),("reassembly in decoding","%s Decode"%PC)],["acknowledgements","GET /device/:phone/geo","GET /device"])

p("C17","The device list shows exactly the registered terminals",
 "Every device-list answer corresponds to the set of registrations at some instant during the request: each registered terminal once, none that is not, each with the phone, plate, device id and protocol version it registered, the identity it last authenticated with and the time it was last heard. Listing is always answered, however many terminals register and leave meanwhile.",
 ["schedules","histories","inputs"],"all interleavings of listings with registrations, authentications, removals; all names and encodings",
 "Concurrent iteration and update is invisible to sequential tests.",
 [DC,API,MP,"internal/protocol/model/msg_0100.go","internal/codec/gbk/gbk.go"],[("list from the phone index","%s ListDevice"%DC)],["GET /device"])

p("C18","The terminal simulator completes its protocol against the platform",
 "Simulated terminals started against a running platform register with an identity as configured, authenticate with the code they were issued and stay online by heartbeats and location reports with the status flags, place and time of their configuration and clock, answer every parameter query, parameter setting and media query of the platform exactly once with the request's serial number, their current parameters and media within the queried channel and times, and a terminal whose registration is refused gives up without disturbing the one that holds the registration. They retry an unreachable platform a bounded number of times before giving up.",
 ["schedules","fault_sequences","configurations"],"all interleavings of several simulated terminals with platform commands, delays and a platform that is late or unreachable",
 "Tests only generate messages; the client loop against a platform is never run.",
 ["internal/client/tcp_client.go","test/client/main.go",MP,DP],[("client message loop","internal/client/tcp_client.go Start"),("client handlers","%s processMsg81xx"%MP)],["GET /device","bytes on the TCP connection"])

p("C19","Nothing is left running for terminals that are gone",
 "Once a terminal's registration has ended (deregistration, failed authentication, expiry) and its connections are closed, the platform stops working for it: the goroutines serving its connections end, its keepalive timers stop and nothing polls, retries or spins on its behalf, in bounded time and in whatever order its connections, registration and timers end. After any history in which all terminals have left, however often they came and went, the platform is back to the goroutines, timers and idle activity it had before and holds on to none of their connections.",
 ["histories","schedules","fault_sequences"],"all orders of disconnects, resets, deregistrations, expiries, re-registrations and timer runs, any number of times",
 "Tests never end a session; a leaked goroutine or timer is invisible in any single exchange and only shows in the activity left after a whole history.",
 [TS,MP,"internal/storage/session_cache.go","internal/protocol/keepalive.go"],[("connection loop ends on close","%s serve"%TS),("timer cancelled when the device is gone","internal/protocol/keepalive.go")],["goroutines and timers of the process","CPU activity when idle"])

p("C20","The platform serves completely or ends with a failure status",
 "A platform process that cannot read the configuration file it was given, or cannot open its terminal port or its HTTP port (in use, no descriptors, not permitted), ends by itself with a failure status in bounded time, whatever becomes of the other port and whoever connects meanwhile, so that it can be started again; one that can open both serves terminals and HTTP requests on the configured ports (those of the built-in configuration when it is given none), reachable from other hosts, within bounded time, whatever becomes of its log (directory that cannot be created, full or failing disk). However often it was killed or failed to start before, a platform that has started serves like a fresh one: every terminal can register and is served.",
 ["fault_sequences","crash_points","schedules"],"all sequences of kills, failed and successful starts, ports becoming free and configurations being corrected at any moment, all ports and log settings, terminals and HTTP clients connecting at any moment",
 "Tests never start the process; a half-started platform needs one port to fail while the other is in use.",
 ["main.go",API,TS,"internal/config/config.go","pkg/logger/logger.go"],[("listening before serving","main.go"),("HTTP failure ends the process","%s Run"%API)],["exit status","TCP connections and HTTP answers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
