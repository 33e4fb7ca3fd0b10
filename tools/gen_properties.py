"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S = "src/siotls/"
prop("C01", "Delivered bytes are an in-order prefix of those written, whatever the wire does",
 "After the handshake, the bytes an application reads from a connection are at every moment a prefix, in order and without gap, duplication or alteration, of the bytes the peer's application wrote on that very connection. This holds whatever an attacker does to the bytes in flight: flipping, dropping, truncating, duplicating, reordering, replaying, reflecting, injecting or splicing records, including records of another connection. Records that do not authenticate, or come out of order, are never delivered in any form.",
 ["schedules", "fault_sequences", "inputs", "histories"],
 "every pair of write schedules, every segmentation of the byte stream and every sequence of record- and byte-level tampering, in both directions and for both roles",
 "The tests exchange one ping and one pong over an untouched memory pipe; no test tampers with a record after the handshake or sends more than one record.",
 [S+"connection.py", S+"crypto/ciphers.py", S+"states/connected.py"],
 [("AEAD with implicit sequence number nonces", S+"crypto/ciphers.py"), ("record reassembly", S+"connection.py"), ("application data sink", S+"states/connected.py")],
 ["TLSConnection.data_to_read()", "TLSConnection.receive_data()"],
 [("read/write sequence", "next record number of each direction, reset at each key change", S+"crypto/ciphers.py")])

prop("C02", "Compatible peers complete the handshake and agree on everything negotiated",
 "On an untampered network, a client and a server whose configurations share at least one cipher suite, one key exchange group, one usable signature scheme and a certificate type (and one application protocol when both have some) always complete the handshake, with a retry when the client did not guess the group; when one of these is not shared both end failed and neither is ever connected. When the handshake completes both ends report the same cipher suite, key exchange group, signature scheme, application protocol, maximum fragment length and server certificate type, each being the choice the server prefers among those the client offered. This holds for any standard-conforming peer implementation, including one that offers unknown values, uses a session id, asks for a retry, or sends several shares.",
 ["configurations", "inputs", "schedules"],
 "every pair of configurations (lists, orders, key types, raw public keys, fragment limits, names), every value of the random keys, every chunking of the flights",
 "The OpenSSL tests run one configuration axis at a time against the server role only; the client role has no passing end-to-end test, and no test covers retry as a client, raw public keys or fragment limits.",
 [S+"states/client/start.py", S+"states/client/wait_server_hello.py", S+"states/client/wait_encrypted_extensions.py", S+"states/server/wait_client_hello.py", S+"transcript.py", S+"crypto/key_exchanges.py", S+"crypto/signatures.py", S+"configuration.py"],
 [("server side negotiation", S+"states/server/wait_client_hello.py"), ("client side checks of the server's choice", S+"states/client/"), ("retry transcript", S+"transcript.py")],
 ["TLSConnection.nconfig", "TLSConnection.is_connected()"],
 [("nconfig", "the parameters the connection settled on", S+"configuration.py")])

prop("C03", "Delivery is complete and does not depend on how the byte stream is cut",
 "Over a reliable network, everything written before the sending side is closed reaches the peer's application in full, for every total size and every sequence of writes, within a bounded number of deliveries once the last byte is handed over. The outcome is the same however the byte stream is cut into chunks, however the peer splits handshake messages over records or packs several in one, and however much legal padding it adds. No complete record is left unprocessed while it sits in the input.",
 ["schedules", "inputs", "histories"],
 "every write schedule, every chunking of both byte streams, every legal record layout of the peer",
 "Tests always hand over whole flights and tiny payloads; chunk boundaries inside records, multi-record writes and multi-message records are never sampled.",
 [S+"connection.py", S+"contents/application_data.py"],
 [("record and handshake reassembly", S+"connection.py"), ("fragmentation and padding", S+"connection.py")],
 ["TLSConnection.data_to_read()", "TLSConnection.data_to_send()"],
 [("input buffers", "bytes received but not yet a whole record / handshake message", S+"connection.py")])

prop("C04", "An authenticating client only connects to a peer that proves a trusted identity",
 "A client that has a trust store or trusted public keys becomes connected only if the peer presented a certificate chaining to the trust store, valid at the current time, for the requested host name or address, within the depth limit, not revoked by the configured revocation list or by the certificate status obtained for it, or a trusted raw public key, and signed this very handshake with the matching private key under a scheme the client offered. In every other case the connection fails before any application byte is accepted or sent. A valid status can only come from the actual issuer of the certificate it covers.",
 ["inputs", "configurations", "fault_sequences"],
 "every kind of certificate, key, chain, host name, clock reading, revocation state and signature a malicious server can present",
 "Tests hold a single valid certificate and never present a bad one; the client role has no passing end-to-end test at all.",
 [S+"states/client/wait_certificate.py", S+"states/client/wait_certificate_verify.py", S+"states/client/wait_finished.py", S+"crypto/signatures.py", S+"crypto/ocsp.py", S+"configuration.py"],
 [("chain, host name, revocation, status and raw key checks", S+"states/client/wait_certificate.py"), ("proof of possession", S+"states/client/wait_certificate_verify.py"), ("server Finished check", S+"states/client/wait_finished.py")],
 ["TLSConnection.is_connected()", "TLSConnection.nconfig"])

prop("C05", "Any alteration of the handshake in flight prevents it from completing",
 "If anything in the handshake messages is altered, dropped, duplicated, reordered, replaced or inserted on the network, the two ends never both become connected, and an end that becomes connected has, of every handshake message up to that moment, the same view as its peer. In particular an attacker cannot make two honest peers settle on a cipher suite, group, signature scheme, protocol or limit other than the one they would have chosen without him. Both sides check the other's final confirmation of the whole exchange before they count as connected.",
 ["fault_sequences", "inputs", "schedules"],
 "every position and kind of tampering with the flights, both directions, with and without a retry",
 "No test alters a handshake in flight, nor presents a wrong confirmation; the properties rest on hashes over the whole exchange.",
 [S+"transcript.py", S+"states/client/wait_finished.py", S+"states/server/wait_finished.py", S+"crypto/ciphers.py"],
 [("transcript hash", S+"transcript.py"), ("Finished verification", S+"crypto/ciphers.py")],
 ["TLSConnection.is_connected()", "TLSConnection.nconfig"])

prop("C06", "No application data moves before the handshake is complete",
 "Until a connection has verified the peer's final handshake message, it refuses to send application data and delivers none, whatever the peer or an attacker sends (alerts and closures included) and whatever close calls the local application makes. A connection closed or failed before that point never becomes connected afterwards and never puts application bytes on the wire. Application data is never accepted or sent unencrypted.",
 ["histories", "fault_sequences", "schedules"],
 "every interleaving of deliveries, injected plaintext or encrypted records, local send and close calls, at every step of the handshake",
 "Tests only use connections in the intended order; no test sends, closes or receives at the wrong step.",
 [S+"connection.py", S+"states/__init__.py", S+"states/closed.py", S+"states/server/wait_finished.py"],
 [("per-state send permission", S+"states/"), ("closure handling", S+"connection.py")],
 ["TLSConnection.send_data()", "TLSConnection.data_to_read()", "TLSConnection.is_connected()"])

prop("C07", "A failed connection stays failed, silent and signalled by one alert",
 "Once a connection reports a fatal error, or receives a fatal alert, it is failed for good: it is not connected, it delivers no further byte, refuses to send, and silently ignores everything that arrives or is called afterwards. A failure detected locally puts exactly one fatal alert on the wire as its last record, protected by the keys in force when there are any, unless the connection had already sent its closing notice, after which it sends nothing more; a failure signalled by the peer's fatal alert puts none.",
 ["histories", "fault_sequences"],
 "every kind of failure at every step, followed by every sequence of deliveries and calls",
 "Tests stop at the first exception; nothing looks at the connection or the wire afterwards.",
 [S+"connection.py", S+"states/failed.py", S+"states/__init__.py"],
 [("failure transition", S+"connection.py"), ("failed state", S+"states/failed.py")],
 ["TLSConnection.receive_data()", "TLSConnection.data_to_send()", "TLSConnection.is_connected()"])

prop("C08", "Closing one direction is clean, final, and leaves the other direction working",
 "When one side closes its sending end after the handshake, everything it wrote before arrives, the peer then knows the stream has ended and ignores anything that follows on it, and the closing side can send nothing more. The other direction keeps working in full until it is closed too. Closing is idempotent: at most one closing notice is ever sent, and none after a failure.",
 ["histories", "schedules"],
 "every interleaving of writes, deliveries and closes by the two sides, repeated closes, and bytes after a closing notice",
 "No test closes a connection through the state machine, let alone half-closes it with data in flight.",
 [S+"connection.py", S+"states/closed.py", S+"states/__init__.py", S+"wrapper.py"],
 [("closure calls", S+"connection.py"), ("half-closed state", S+"states/closed.py")],
 ["TLSConnection.is_connected()", "TLSConnection.data_to_send()", "TLSConnection.data_to_read()"])

prop("C09", "The bytes on the wire are conforming records that never leak or reuse",
 "Every byte a connection emits parses as well-formed records: after the hello exchange everything but the compatibility marker is encrypted under the keys the standard prescribes for that moment, with record numbers counting up from zero at each key change and never reused, so that a standard observer holding the session secrets can decrypt all of it. Application bytes never appear in clear on the wire, and two connections never share keys or randoms. Decrypted, the stream is exactly the handshake flight the standard prescribes, then the application bytes in order, then at most one closing or fatal notice.",
 ["histories", "schedules", "configurations"],
 "every configuration, retry or not, every write schedule and close or failure point",
 "Tests see the wire only through OpenSSL for one exchange; key changes, record numbering and content types are not observed.",
 [S+"connection.py", S+"crypto/ciphers.py", S+"crypto/hkdf.py", S+"transcript.py"],
 [("record layer", S+"connection.py"), ("key schedule", S+"crypto/ciphers.py")],
 ["TLSConnection.data_to_send()", "the session secrets log"])

prop("C10", "Fragment limits are negotiated, obeyed and enforced",
 "A client configured with a maximum fragment length asks for it, and once a server accepts it no record either side sends carries more plaintext than the limit, nor more ciphertext than the limit plus the permitted expansion. Without it the same holds with the standard limit. A record that exceeds the limit in force is refused with a fatal failure and none of it is delivered.",
 ["configurations", "inputs", "schedules"],
 "every limit, every handshake and payload size, every oversized record of a misbehaving peer, before and after encryption starts",
 "Tests only check how the extension value is stored; record sizes are never looked at.",
 [S+"connection.py", S+"states/client/start.py", S+"states/client/wait_encrypted_extensions.py", S+"states/server/wait_client_hello.py", S+"contents/handshakes/extensions/max_fragment_length.py"],
 [("limit on received records", S+"connection.py"), ("fragmentation of sent content", S+"connection.py")],
 ["TLSConnection.data_to_send()", "TLSConnection.nconfig", "TLSConnection.receive_data()"])

prop("C11", "The blocking socket wrapper neither loses nor invents bytes under socket faults",
 "Through the blocking wrapper, whatever the socket does (short writes, short reads, timeouts, resets, end of file at any byte), the bytes read are a prefix of those the peer wrote, and with no fault other than short reads and writes they are all of them; a read, a handshake or a close never blocks forever once the peer's end is closed and never spins. Every encrypted byte produced reaches the socket exactly once and in order, up to the first send that fails. Leaving the with block, because of an error or not, closes the sending end and lets the error through. The handshake helper never reports a secured connection unless the handshake completed, and socket errors reach the caller as errors.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of the two peers' threads, every short read/write size and every fault at every socket call",
 "Tests drive the wrapper once through a real loopback socket that never does a short write or fails.",
 [S+"wrapper.py", S+"connection.py"],
 [("blocking loops around the state machine", S+"wrapper.py")],
 ["WrappedSocket.read()", "WrappedSocket.write()", "WrappedSocket.close()", "the with statement"])

prop("C12", "A certificate status is believed only if genuine, matching, good and current",
 "A status response is accepted only when it is successful, says good, names the very certificate and issuer asked about, is signed by that issuer, and the current time lies between its validity bounds, an open end being never expired. Anything else, including responses that are truncated, altered, revoked, unknown, for another certificate, signed by another key, from the future or expired, is rejected: a server does not staple it, and a client that was handed or fetched it, or that uses a status service and cannot get an acceptable status for a certificate naming a responder, does not connect. A response accepted and kept is never used past its validity, whatever jumps the clock makes forward.",
 ["inputs", "fault_sequences", "histories"],
 "every status response a responder, a cache or a server can produce, at every clock reading, both as a client and as a stapling server",
 "No test touches certificate status at all.",
 [S+"crypto/ocsp.py", S+"states/client/wait_certificate.py", S+"states/server/wait_client_hello.py"],
 [("status validation", S+"crypto/ocsp.py")],
 ["TLSConnection.is_connected()", "the certificate message the server sends"])

prop("C13", "The status fetcher and cache stay bounded, fresh and safe under concurrency",
 "Whatever responders answer and however caller threads interleave, the cache holds at most its fixed number of entries, never returns an entry past its expiry nor one stored for another request, never evicts an entry that is fresher than one it keeps because of stale bookkeeping, and no call fails because of another thread. A fetch never reads more than the fixed bound of body bytes, never returns a partial body as if complete, waits a bounded time for each piece of the answer, and sends one well-formed request for exactly the asked data to the asked location, following no redirection. Cached entries are served without contacting the responder.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence and interleaving of request, store and remove calls, every clock movement, every HTTP answer and network fault",
 "No test touches the fetcher or its cache; thread interleavings cannot be sampled by ordinary tests.",
 [S+"ocsp_over_http.py"],
 [("bounded cache", S+"ocsp_over_http.py"), ("bounded fetch", S+"ocsp_over_http.py")],
 ["ocsp_over_http.request()", "ocsp_over_http.cache()", "ocsp_over_http.uncache()"],
 [("cache and eviction heap", "stored responses and the order in which they expire", S+"ocsp_over_http.py")])

prop("C14", "A server keeps serving when its certificate status responder misbehaves",
 "A server asked to staple its certificate status completes the handshake with a client that accepts its certificate even when the responder is unreachable, slow, refuses, resets, answers an HTTP error, an oversized or malformed body, or a status that is not acceptable, and also when the certificate names no responder. In those cases it simply staples nothing. When the responder answers properly the genuine answer is stapled.",
 ["fault_sequences", "configurations"],
 "every responder failure at every step of the exchange, every certificate with or without responder location",
 "No test configures a responder.",
 [S+"states/server/wait_client_hello.py", S+"crypto/ocsp.py", S+"ocsp_over_http.py"],
 [("stapling", S+"states/server/wait_client_hello.py"), ("responder location lookup", S+"crypto/ocsp.py")],
 ["TLSConnection.is_connected()", "the certificate message the server sends"])

prop("C15", "Connections sharing a configuration or services never affect one another",
 "Any number of connections may share one configuration object and one status service and be driven in any interleaving, including by different threads; each one behaves, byte for byte on the wire and in what it reports, as if it were alone. Nothing that happens on one connection (retry, negotiation, failure, closing) changes the shared configuration or another connection.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the steps of several connections over shared configurations, with failures and retries among them",
 "Tests run one connection at a time.",
 [S+"connection.py", S+"configuration.py", S+"states/", S+"crypto/"],
 [("per-connection state objects", S+"states/__init__.py"), ("frozen configuration", S+"configuration.py")],
 ["TLSConnection", "TLSConfiguration"])

prop("C16", "Session secrets are logged only on request, completely and correctly",
 "When key logging is requested, a connection logs, in the standard key log format and labelled with its client random, each traffic secret once, no later than it starts using it, so that a log observer can decrypt both directions; when it is not requested, nothing is logged. Neither ordinary log output nor errors ever contain traffic secrets, private keys or application bytes. Both ends log identical secrets for one connection and different secrets for different connections.",
 ["histories", "configurations", "schedules"],
 "every configuration, handshake outcome and interleaving of several connections with and without logging",
 "One test reads a key log of a curl run, and it does not pass; absence of leaks cannot be sampled.",
 [S+"crypto/ciphers.py", S+"connection.py", S+"__init__.py"],
 [("key log calls", S+"crypto/ciphers.py")],
 ["the siotls.keylog logger", "the siotls logger tree"])

prop("C17", "Hostile input cannot derail the handshake order, loop it or exhaust it",
 "Every handshake message is accepted only at the point the standard allows: skipped, repeated, reordered, unexpected or malformed messages, parameters that were not offered or are not allowed there, second retries and message remains across a key change make the connection fail. Whatever bytes arrive, at whatever point, every call returns, the connection either continues or is failed, and a peer gets at most one retry. The memory a connection holds stays bounded by a fixed amount plus the one handshake message being received, and the bytes it emits are bounded whatever it receives.",
 ["inputs", "fault_sequences", "histories"],
 "every message sequence and every byte string a malicious peer of either role can send, before and after keys are in place",
 "Tests feed two or three wrong messages to the first server state only.",
 [S+"states/", S+"transcript.py", S+"contents/", S+"connection.py", S+"serial.py"],
 [("per-state message filter", S+"states/"), ("transcript order safety net", S+"transcript.py"), ("bounded parsing", S+"serial.py")],
 ["TLSConnection.receive_data()", "TLSConnection.is_connected()"])

prop("C18", "Keys are never used past their usage limit",
 "No key ever protects more records than the usage limit of its algorithm: a connection that reaches the limit refuses to send rather than reuse a record number or exceed the limit, and one that receives that many records fails rather than wrap around. Up to that point (the margin reserved for changing keys, which the library does not implement, aside) nothing is lost and the record numbers continue without gap. A write that would cross the limit is refused as a whole: none of it reaches the peer.",
 ["histories", "schedules"],
 "every write schedule that crosses the limit or the rekey threshold, in both roles and directions",
 "The limits are millions of records away; tests send two.",
 [S+"crypto/ciphers.py", S+"connection.py"],
 [("bounded record counters and rekey threshold", S+"crypto/ciphers.py")],
 ["TLSConnection.send_data()", "TLSConnection.receive_data()"])

prop("C19", "The example server survives every client and serves the next one",
 "Whatever a client does to it (garbage, tampering, stalling, resetting, closing at any byte, unsupported parameters, bad requests), the example server closes that client's connection within a bounded time after the client goes silent or away, and goes on to answer the next well-behaved client correctly. It never answers in clear nor before the handshake is complete. It releases every client socket it accepted, also when it is interrupted.",
 ["fault_sequences", "schedules", "histories"],
 "every sequence of good and misbehaving clients, every fault at every socket operation",
 "The example server has no test at all.",
 [S+"examples/simple_server.py", S+"wrapper.py", S+"connection.py"],
 [("per-client error containment", S+"examples/simple_server.py")],
 ["siotls.examples.simple_server.serve()"])

prop("C20", "Every message codec round-trips and rejects what it could not have written",
 "For every handshake message, extension, alert and record content the library knows, parsing what it serialised gives back an equal value, and parsing any other byte string either raises a protocol error or gives a value that serialises to the same bytes.",
 ["inputs"],
 "all values and all byte strings",
 "Tests round-trip a few fixed values per type.",
 [S+"contents/", S+"serial.py"],
 [("serialisers and parsers", S+"contents/")],
 ["the message classes' parse and serialise"])

prop("C21", "Key derivation and group constants equal the standards' definitions",
 "For every input, the key derivation functions compute the values the standard defines, and every finite field and curve constant equals the published one.",
 ["inputs"],
 "all secrets, labels, contexts and lengths",
 "One test checks group constants for coprimality only.",
 [S+"crypto/hkdf.py", S+"crypto/key_exchanges.py", S+"crypto/ffdhe.py"],
 [("HKDF", S+"crypto/hkdf.py"), ("finite field groups", S+"crypto/key_exchanges.py")],
 ["the derivation functions"])

prop("C22", "Refused calls, looking and reused buffers leave no trace on a connection",
 "Whatever an application does wrong with a connection or merely looks at leaves it as it was: writing when writing is not allowed, giving something that is no bytes or an empty input, initiating a second time, asking for a key change, closing again what is closed or failed, draining output and data often or seldom, reading its status and its report, making other connections with the same configuration, and reusing or changing the buffers given to it or obtained from it. What must be refused is refused with an error, and everything the connection emits, delivers and reports afterwards is byte for byte what it would have been without.",
 ["histories", "schedules", "fault_sequences"],
 "every interleaving of refused calls and looks with the life of a connection, at every step, on an honest or a hostile network, for both roles",
 "Tests make each call once, in the intended order and with the intended arguments; none makes a wrong call and then goes on.",
 [S+"connection.py", S+"states/__init__.py", S+"states/connected.py", S+"states/failed.py", S+"states/closed.py"],
 [("permission checks before any effect", S+"connection.py"), ("buffers swapped when drained", S+"connection.py"), ("per-state permissions", S+"states/")],
 ["TLSConnection.send_data()", "TLSConnection.receive_data()", "TLSConnection.initiate_connection()", "TLSConnection.rekey()", "TLSConnection.data_to_send()", "TLSConnection.data_to_read()"])

prop("C23", "The command-line client trusts only who it should, tells the truth and ends",
 "The client command sends its request only through a completed handshake and, unless told not to check, only to a server that proves an identity issued by the authorities of the operating system's own bundle for the host asked for, with an acceptable status when its certificates name a responder; when it finds no such bundle it connects to nobody. It exits with success only if a handshake was completed and prints nothing that is not from the answer; with a good server it succeeds and prints the answer, and every failure is reported as one. It ends within a bounded time after the server or a responder goes silent, closes its socket, and writes the session secrets to the key log file when asked for one and nowhere else.",
 ["fault_sequences", "configurations", "schedules"],
 "every system release and bundle, every server identity, clock, certificate status and behaviour at every byte, every verbosity",
 "The command, the example client and the trust store have no passing test.",
 [S+"__main__.py", S+"trust_store.py", S+"examples/simple_client.py", S+"wrapper.py", S+"ocsp_over_http.py"],
 [("choice of the system's bundle", S+"trust_store.py"), ("exit status", S+"__main__.py"), ("timeout of the example client", S+"examples/simple_client.py"), ("handshake helper", S+"wrapper.py")],
 ["siotls.__main__.main()", "standard output", "the server's side of the network"])

prop("C24", "A failure of memory, a system call or an interruption inside a call is safe",
 "When something outside of the library fails in the middle of any call on a connection (an allocation, randomness, a system or cryptography call), or the call is interrupted by an exception, the connection never does anything it must not: it is never connected without its peer's verified final message, never believes a proof that is wrong, puts no application byte in clear on the wire, and uses no record number twice. A call that processes received bytes and raises leaves the connection failed for good, silent and refusing to send. What the applications read stays an in-order prefix of what they wrote, nothing that was accepted is lost unless an end reports a failure, taking received or produced bytes can be tried again without loss, and later connections with the same configuration work.",
 ["fault_sequences", "histories"],
 "every call, every point inside of it at which the library calls something else, every kind of failure, once or (memory, randomness, cryptography) for as long as the call lasts",
 "Tests never make an allocation or a cryptography call fail, and there are hundreds of points per handshake where one can.",
 [S+"connection.py", S+"crypto/ciphers.py", S+"transcript.py", S+"states/"],
 [("any exception fails the connection", S+"connection.py receive_data, _fail"), ("record numbers", S+"crypto/ciphers.py"), ("output appended at once", S+"connection.py _send_content")],
 ["TLSConnection public methods", "bytes of data_to_send()", "bytes of data_to_read()"])

prop("C25", "A server told to authenticate clients serves none without a proven identity",
 "A server whose configuration has a trust store and/or trusted public keys is never connected to, delivers nothing from and accepts nothing to send to a client that did not prove, in that handshake, the possession of a key it trusts: not one that ignores the request, shows an empty certificate, a stranger's, or a trusted one without a valid signature over this handshake; whatever certificate types it offers or omits, after a retry as before it, and on every connection made from the configuration. (Client authentication is not implemented: such a server refuses everyone, which this allows; what is claimed is that it fails closed.)",
 ["histories", "configurations", "inputs"],
 "every server configuration with authentication, every client flight that proves nothing, with and without a retry, every cut, closure and order of calls",
 "Tests have no server that authenticates its clients; a hole shows only with the client that is not asked (no type offered, after a retry, keys only) or that answers wrongly.",
 [S+"states/server/", S+"configuration.py"],
 [("the request and the state after it", S+"states/server/wait_client_hello.py process"), ("types", S+"states/server/wait_client_hello.py _negociate_client_certificate_type")],
 ["TLSConnection public methods", "TLSConfiguration trust_store, trusted_public_keys"])

prop("C26", "Connections that are over leave nothing behind in the process",
 "However a connection ends (closed, failed, refused, or abandoned by its application in the middle of anything), once the application lets go of it everything it used is given back: a process that makes any number of connections one after the other, with the same configurations and services and whatever their peers send, holds besides its live connections no more than a small fixed amount. In particular no secret, random, message, name or unknown value of a past connection accumulates.",
 ["histories", "inputs"],
 "every kind of life of a connection, repeated any number of times with other randomness and other unknown values",
 "Tests make one connection at a time and never look at what stays; growth shows only over many lives of the same kind, often only of those that end early.",
 [S+"connection.py", S+"states/", S+"crypto/", S+"contents/"],
 [("classes made for unknown values", S+"contents/handshakes/extensions/__init__.py parse; contents/alerts.py parse"), ("shared objects", S+"configuration.py cached properties")],
 ["TLSConnection public methods", "memory held by the process after a connection is dropped"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
