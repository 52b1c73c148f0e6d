import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
CL="src/client.rs"; RD="src/client/read.rs"; WR="src/client/write.rs"; CN="src/client/conn.rs"; UT="src/client/util.rs"; IRC="src/irc.rs"; TG="src/irc/tags.rs"; SI="src/irc/tags/simd.rs"; SC="src/irc/tags/scalar.rs"
NOT="The repository's tests only parse fixed strings; nothing in it ever opens a connection, so no test reaches the client at all."
p("C01","Every received line is delivered exactly once, in order",
 "While a connection is up, each complete line the server sends is returned by exactly one receive call, in the order sent, with nothing lost, duplicated, merged or split. This holds however the bytes are segmented, delayed or spread over TLS records, and wherever the application abandons a pending receive (e.g. in a select or timeout) and later receives again, sends, or pauses.",
 ["schedules","inputs","histories"],"All server line sequences, all TCP/TLS segmentations and delays, all points at which a pending receive is dropped, all interleavings of receives with sends.",
 NOT,[RD,CL],[("buffered line reader kept in the client, partial line survives a dropped receive",RD),("recv returns one parsed line","src/client/read.rs Client::recv")],["results of receive calls","plaintext written by the simulated server"])
p("C02","A delivered message says exactly what the server sent",
 "For every line a server following Twitch's format sends, the message the application receives exposes that line's exact raw text, tags (all of them, in order, and by lookup under their name), prefix, command, channel, parameters and trailing text. The answer depends only on the line: not on its length or number of tags, on how it was segmented, where it sits in memory, nor on which build of the parser (vector width or scalar) is in use.",
 ["inputs","configurations","schedules"],"All well-formed lines (any tag count, key/value length, unicode), all placements of the line in memory and in network segments, every parser build.",
 "Tests parse a few dozen fixed strings from static memory with one build; alignment, length and build dependence are never varied.",
 [IRC,TG,SI,SC,"src/irc/prefix.rs","src/irc/command.rs","src/irc/channel.rs","src/irc/params.rs","src/irc/wide/x86_64/avx2.rs","src/irc/wide/x86_64/sse2.rs"],
 [("SIMD/scalar tag parser",SI),("span based accessors",IRC)],["accessors of the received message","server's structured line model"])
p("C03","Hostile or garbled input never crashes or derails the client",
 "Whatever bytes the server sends - garbage, truncated or corrupted messages, invalid UTF-8, oversized tags, absurd numbers - receiving and interpreting them never panics or aborts the application; each bad line yields a message or an error for that line alone. Valid lines before and after it are still delivered unchanged, and the failure is not mistaken for a disconnect.",
 ["inputs","fault_sequences"],"All byte streams within a connection, mixed arbitrarily with valid lines.",
 "Tests only parse well-formed samples; the input space of byte streams is unbounded.",
 [RD,IRC,TG,SI,SC,"src/msg.rs","src/msg/privmsg.rs","src/msg/room_state.rs","src/msg/user_notice.rs","src/msg/clear_chat.rs","src/msg/whisper.rs"],
 [("per-line parse with a per-line error",RD),("typed conversion returning an error","src/msg.rs")],["result of each receive and typed conversion","panics/aborts of the process"])
p("C04","A lost connection is reported, after all complete lines",
 "When the connection ends - orderly close, half-close without TLS shutdown, reset or a transport error - every complete line that had arrived is delivered first, then receiving reports an error promptly, and that error identifies itself as a disconnect. Receiving never hangs, never spins forever on success, and never returns a made-up message after the connection is gone.",
 ["fault_sequences","crash_points","schedules"],"All ways a connection can end, at every byte position of the stream, in every state of the client.",
 NOT,[RD,CL,CN],[("stream end mapped to an error",RD),("disconnect classification","src/client/read.rs RecvError::is_disconnect")],["results of receive calls after the fault","virtual time of the report"])
p("C05","A send that reports success reaches the server, whole and in order",
 "When a send operation reports success and the connection stays up, the server receives exactly the bytes of that command, contiguous and in the order of the calls, without the application having to make any further call. Transport backpressure, partial writes and slow or stalled servers may delay it but never truncate, duplicate, interleave or strand it; a send on a dead connection ends with an error or is lost only to that dead connection, and never hangs.",
 ["schedules","fault_sequences","histories"],"All sequences of sends of all sizes against all patterns of partial writes, backpressure windows and stalls.",
 NOT,[WR],[("write_all on the TLS stream","src/client/write.rs Client::send_raw")],["plaintext decrypted by the simulated server","results of send calls"])
p("C06","Commands are framed as asked, free of residue",
 "Each command the application issues (message with optional reply and nonce tags, ping, pong for a given ping, join of one or many channels, raw line) produces exactly one correctly formed line on the wire carrying the given channel, text, tags or nonce, and unterminated raw input is refused with nothing sent (arguments other than raw lines contain no line breaks). The bytes depend only on that call's arguments: never on earlier commands, failed or timed-out handshakes, or reconnects.",
 ["inputs","histories","fault_sequences"],"All command arguments and all preceding histories of commands, failures and reconnects.",
 NOT,[WR,CL,"src/client/macros.rs","src/msg/ping.rs"],[("commands formatted in a shared scratch buffer","src/client/macros.rs with_scratch")],["plaintext lines decrypted by the simulated server"],
 [dict(name="scratch",meaning="shared buffer in which commands and the handshake are formatted",where="src/client.rs Client.scratch")])
p("C07","The handshake is exact and success means the server accepted it",
 "On every connection the client first sends exactly one capability request (commands, tags, membership), one password with the configured token carrying the oauth prefix once, and one nickname, and nothing else before the server answers. Connecting or reconnecting reports success only after the server acknowledged the capabilities and welcomed the login on that same connection; a refusal is reported as an authentication error for bad credentials, as an error if the capabilities are denied, or with the unexpected message for anything else.",
 ["inputs","histories","fault_sequences"],"All credentials, all server answers (right, wrong, missing, reordered, duplicated, split), on the first and every later connection.",
 NOT,[CL],[("handshake","src/client.rs Client::handshake")],["server's view of each connection's first lines","result of connect/reconnect"])
p("C08","Connecting and reconnecting never hang",
 "Against any stall - name lookup, TCP connect, TLS negotiation, or the server's handshake replies stopping at any point - connect finishes within its configured timeout per phase with a timeout error, and each reconnect attempt likewise ends within those limits. Slow but steady progress inside the limits is not cut off early.",
 ["fault_sequences","schedules","configurations"],"All stall points, trickle rates and configured timeouts.",
 NOT,[CL,CN,UT],[("timeouts around open and handshake","src/client.rs Client::connect, reconnect")],["virtual duration of connect/reconnect","returned error"])
p("C09","Reconnect obeys the backoff schedule and attempt limit",
 "A reconnect waits the initial delay before its first attempt, and after each failed attempt waits the previous delay times the multiplier, capped at the maximum, before the next. It makes at most the configured number of attempts (unlimited if none is set, none if zero), starts afresh on every reconnect call, and makes no attempt after it has succeeded or given up.",
 ["configurations","fault_sequences","histories"],"All backoff configurations and all sequences of attempt outcomes and durations, over repeated reconnects.",
 NOT,[CL],[("reconnect loop","src/client.rs Client::reconnect")],["virtual times of connection attempts"])
p("C10","Transient failures are retried, permanent ones end the reconnect",
 "During a reconnect every transient failure of an attempt - lookup, refused or reset connection, TLS transport failure, timeout, connection lost during the handshake - leads to the next attempt while attempts remain; when the last one fails, reconnect reports failure with the cause of that last attempt. Rejected credentials and unexpected server answers end it at once with that cause, without further attempts.",
 ["fault_sequences","histories"],"All sequences of per-attempt faults of all kinds.",
 NOT,[CL],[("retry classification","src/client.rs ConnectError::should_retry")],["number of connection attempts","returned cause"])
p("C11","A reconnect leaves nothing of the old connection behind",
 "After a successful reconnect, receives return only lines sent on the new connection, starting with the first one after the welcome, and sends go only to the new connection; data still buffered or arriving on an old connection never surfaces and the old sockets are closed. The same holds for connections of failed attempts inside one reconnect.",
 ["histories","schedules","fault_sequences"],"All states of the old connection (buffered lines, half-received line, unsent data, dead or alive) at the time of reconnect, over repeated reconnects.",
 NOT,[CL],[("reader and writer replaced together","src/client.rs Client::reconnect")],["origin of each delivered line","which connection receives each sent byte","open sockets"])
p("C12","Abandoned operations leave the client usable",
 "The application may drop any pending connect, reconnect, receive or send at any await point. Afterwards a reconnect attempt behaves exactly like one on a fresh client: same handshake, same delivery and sending guarantees, no leftover bytes, panics, hangs or leaked sockets; and if the connection is still up, receiving continues without loss.",
 ["schedules","crash_points","histories"],"All operations, all suspension points at which they are dropped, all follow-up operations.",
 NOT,[CL,RD,WR],[("state kept in the client across dropped futures",CL)],["history after each cancelled operation","server's view of later connections"])
p("C13","Credentials reach only the authenticated server",
 "The token is only ever sent inside a TLS session whose certificate chain is trusted, currently valid and issued for Twitch's chat host, to the host and port of Twitch chat; any other peer gets no application byte and the attempt fails. The token never appears in cleartext on the network, in log output at any level, or in debug and error output.",
 ["inputs","fault_sequences","configurations"],"All peers (plaintext, untrusted, wrong name, expired, clock-skewed, garbage), all histories of attempts, all log levels.",
 NOT,[CN,CL,WR],[("rustls client with native roots",CN),("manual Debug for credentials","src/client.rs Credentials")],["raw bytes on the simulated network","captured log records","Debug/Display output"])
p("C14","Anonymous logins are well-formed and vary",
 "A client built without credentials logs in as justinfan followed by exactly five digits with a placeholder password, keeps that identity for all its reconnects, and reports itself as anonymous. Different clients get different numbers rather than one fixed identity.",
 ["inputs","histories"],"All random draws and all reconnect histories.",
 NOT,[CL],[("random anonymous login","src/client.rs Credentials::anon")],["nickname seen by the server on each connection"])
p("C15","A bot written as documented recovers once faults stop",
 "An application written like the README loop, reconnecting on a disconnect or a server-requested reconnect and rejoining its channels, is again joined, answering pings and receiving chat within a bounded time after network faults cease. No sequence of earlier faults leaves it stuck, spinning, connected twice, or silently disconnected.",
 ["fault_sequences","schedules","histories"],"All sequences of outages, resets, stalls, server restarts and reconnect requests, followed by a quiet period.",
 NOT,[CL,RD,WR],[("connect / recv / reconnect / join cycle",CL)],["server-side join state and pong replies after the heal","virtual time to recovery"])
p("C16","Typed messages report the event the server announced",
 "When the server announces an event in Twitch's format (chat message, subscription, raid, ban, room settings, notice, whisper and so on), the typed message the application obtains has the matching kind and the same field values: ids, names, badges, emotes, durations, counts, timestamps, flags and text, with escapes decoded and absent fields absent. This holds for every combination of present, empty and missing optional fields and for values over their whole range.",
 ["inputs","histories"],"All events Twitch can announce with all combinations of optional fields, interleaved in any order on one connection.",
 "Snapshot tests cover a handful of captured messages per type, each with one combination of fields and values.",
 ["src/msg.rs","src/msg/privmsg.rs","src/msg/user_notice.rs","src/msg/clear_chat.rs","src/msg/clear_msg.rs","src/msg/room_state.rs","src/msg/user_state.rs","src/msg/global_user_state.rs","src/msg/whisper.rs","src/msg/notice.rs","src/msg/join.rs","src/msg/part.rs","src/msg/ping.rs","src/msg/pong.rs"],
 [("typed conversion per command","src/msg.rs Message::from_irc"),("unescape","src/irc.rs unescape")],["getters of the typed message against the simulated server's event"])
p("C17","Kept and stored messages stay what they were",
 "A message the application keeps - the received message itself, an owned copy, a typed owned copy, or a serialized form read back - still reports the same content after any amount of further receiving, sending and reconnecting, and after the client is gone.",
 ["histories","inputs"],"All messages and all later activity of the client and allocator.",
 "Tests compare a message to a copy made immediately, never across later activity that reuses buffers.",
 [IRC,"src/msg.rs","src/msg/macros.rs"],[("owned conversion","src/irc.rs into_owned, src/msg/*.rs into_owned"),("serde support","src/msg/*.rs")],["accessors of kept messages at the end of the history"])
p("C18","The client type can be moved between and shared across threads",
 "Clients, messages and errors can be handed to other threads and tasks of any runtime.",
 ["programs"],"All programs that use the client from spawned tasks.",
 "Checked at compile time for some types only.",[CL,IRC],[("static assertions","src/client.rs static_assert_send")],["compilation"])
p("C19","Repeated chat messages pass the server's duplicate filter",
 "Twitch drops a chat message that repeats the previous one. When the application appends the same-message bypass to every message it says, each one reaches the server different from the one before it, with nothing visible added, however many are said and through slow servers, received messages and reconnects in between; so the server drops none.",
 ["histories","schedules"],"All sequences of said messages, repeated or not, over all delays, stalls and reconnects.","No test exercises the bypass, nor does any test send a message.",[WR],[("SameMessageBypass::get",WR),("privmsg and send","src/client/write.rs")],["chat lines received by the simulated server and its filter for repetitions"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
