# Writes /verif/MANIFEST.json.
import json
notes={
"C01":"segmentation, delay, TLS records and abandoned receives; every received line compared with what the simulated server wrote",
"C02":"generated and extreme lines under segmentation and adversarial buffer placement, three parser builds, against an independent reading of the format",
"C03":"hostile byte streams mixed with valid lines, three parser builds; panics, aborts and mistaken disconnects are violations",
"C04":"every way to lose the connection at arbitrary byte and time offsets; complete lines first, then a disconnect within a bound",
"C05":"backpressure, short writes, stalled and dying servers, abandoned sends; the bytes the server decrypts must be the concatenation of the successful calls",
"C06":"all commands with generated arguments, after abandoned and failed handshakes and reconnects; exact bytes",
"C07":"handshake bytes on every connection, and every refusal and half-answer of the server; success only after acknowledgement and welcome",
"C08":"stalls at every phase of connecting; end within the limits, no early cut-off for slow but steady progress",
"C09":"virtual times of all attempts against the backoff model over drawn configurations and failure sequences",
"C10":"drawn sequences of transient and permanent failures; who is retried, how it ends and with which cause",
"C11":"reconnects with data pending on old connections; foreign lines, foreign bytes and leaked sockets are violations",
"C12":"operations abandoned at drawn polls and times, followed by the full set of session checks",
"C13":"forged, expired, misnamed, untrusted and plaintext peers, clock jumps; token searched on every wire, in logs and debug output",
"C14":"anonymous clients over many connects and reconnects on simulated entropy",
"C15":"a bot like the README's through drawn outages; it must be joined, answering and receiving in the quiet period",
"C16":"events generated with all combinations of fields by the simulated server, three parser builds, against an independent decoding",
"C17":"messages, owned, typed and serialized copies kept over the whole history with reused and poisoned buffers, compared at the end",
"C19":"repeated messages with the bypass through stalls and reconnects; a duplicate filter at the simulated server drops none",
}
c=[]
for k,v in notes.items():
    c.append(dict(property=k,quick_cmd=f"./check.sh {k} quick",thorough_cmd=f"./check.sh {k} thorough",technique="deterministic simulation with fault injection (seeded search, unmodified crate on a simulated libc)",level="exploration",
      level_note=v+". Sampling: what no drawn seed reaches is not covered. Trusted: the simulated kernel and server, the reference models in sim/src."))
m=dict(version=1,setup_cmd="./build.sh main sse2 scalar",checks=c,
 not_applicable=[dict(property="C18",reason="Whether types are Send and Sync is decided by the compiler for all executions at once; there is no execution, schedule or fault on which it could differ, so simulation has nothing to decide.")],
 notes="No hooks in /repo: the seam is libc, see DESIGN.md. replay: sim/target/release/tmisim replay FILE")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
