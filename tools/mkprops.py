#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
CORE="nora_ssh_core/src/"; SSH="nora_ssh/src/"
prop("C01", "Every SSH message survives serialisation followed by parsing",
 "For every message value (transport, key exchange, service, user authentication and channel messages) whose strings are shorter than 2^32 bytes and whose encoding fits the buffer, parsing the bytes produced by serialising it succeeds and yields the same message kind with the same field values. Unsigned big integers of a key-exchange signature come back as the same number in minimal form.",
 ["inputs"], "all message values and all buffer sizes", "The tests serialise one hand-written value per message, re-serialise the parsed result and compare bytes: two compensating mistakes, other lengths, empty or high-bit fields and all transport/kex messages are never sampled.",
 [CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/userauth.rs", CORE+"message/service.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs"],
 [("Message::serialize / Message::parse and the per-message pairs behind them", CORE+"message/")], observe=["Message::serialize", "Message::parse"])
prop("C02", "Serialised messages are byte-exact SSH wire format and never overrun",
 "Serialising a message writes exactly the RFC 4250-4254/5656 encoding of it (message number, field order, big-endian lengths, booleans as 0 or 1) at the start of the buffer, returns the buffer split exactly at the encoding's length and leaves every byte behind that point unchanged. It reports failure, without panicking, exactly when the buffer is smaller than the encoding.",
 ["inputs"], "all message values, all buffer sizes and contents", "Tests compare the code with itself (serialise/parse/serialise), so a wrong message number, swapped fields or a wrong length that both sides share is invisible; buffers are always 2048 zero bytes.",
 [CORE+"data.rs", CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/userauth.rs", CORE+"message/service.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs"],
 [("make_string2, make_uint32, make_bool, make_raw", CORE+"data.rs"), ("serialize methods", CORE+"message/")], observe=["Message::serialize"])
prop("C03", "No received byte string can make the parsers panic",
 "For every byte string, of any length and content, parsing it as a message, as a length-prefixed string, as a name list or as a channel session request returns a value or an error; it never panics, overflows or reads outside the input.",
 ["inputs"], "all byte strings", "No test feeds malformed input to a parser at all, except three malformed name lists.",
 [CORE+"data.rs", CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/channel/session.rs", CORE+"message/userauth.rs", CORE+"message/service.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs"],
 [("parse methods and parse_string/parse_uint32/parse_bool/split", CORE+"data.rs, "+CORE+"message/")], observe=["Message::parse", "SessionRequest::parse", "data::parse_string", "NameList::try_from"])
prop("C04", "A message is accepted only if its bytes are exactly one well-formed encoding",
 "Parsing succeeds exactly on the byte strings that are the complete encoding of some message: truncated input, trailing bytes, unknown message numbers, wrong lengths, invalid UTF-8 or invalid name lists are rejected. The parsed fields are the ones the bytes encode, so serialising the result reproduces the input, up to booleans encoded by another nonzero byte and non-minimal integers.",
 ["inputs"], "all byte strings", "Tests only parse bytes that the serialiser just produced; nothing checks that anything else is rejected or that accepted fields are the right slices.",
 [CORE+"data.rs", CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/userauth.rs", CORE+"message/service.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs"],
 [("parse methods' length and emptiness checks", CORE+"message/")], observe=["Message::parse"])
prop("C05", "Session requests round-trip and match RFC 4254 type names and payloads",
 "Serialising any session request (pty, x11, env, shell, exec, subsystem, window change, flow control, signal, exit status, exit signal) yields the RFC 4254 type name and exactly the RFC payload bytes, failing iff the buffer is too small; parsing that name and payload gives back the same request. Parsing accepts nothing else: unknown names, truncated or trailing payload bytes and invalid UTF-8 are rejected, and signal names map one-to-one to signals.",
 ["inputs"], "all session requests, type names, payloads and buffer sizes", "Tests take one value per request and compare the code with itself; no rejected input, no signal but two.",
 [CORE+"message/channel/session.rs"], [("SessionRequest::parse / serialize, Signal conversions", CORE+"message/channel/session.rs")], observe=["SessionRequest::parse", "SessionRequest::serialize"])
prop("C06", "Name lists accept exactly valid lists and iterate exactly their names",
 "A byte string is accepted as a name list exactly when it is ASCII and contains no empty name (the empty list is allowed). Iterating an accepted list yields exactly its comma-separated names, in order, each once, and then ends; converting it back gives the original bytes.",
 ["inputs"], "all byte strings", "Tests use five fixed lists.", [CORE+"data.rs"], [("NameList::try_from, NameListIter::next", CORE+"data.rs")], observe=["NameList::try_from", "NameList::iter"])
prop("C07", "Big integers are written as minimal positive mpints",
 "Every big-endian unsigned integer that is hashed or sent (shared secret, signature halves) is encoded as an RFC 4251 mpint: 4-byte length, no redundant leading zero byte, one zero byte exactly when the top bit of the first significant byte is set, empty for zero, value preserved. The encoder fails only if the buffer is too small and writes nothing beyond the encoding.",
 ["inputs"], "all byte strings as integers, all buffer sizes", "No test covers the encoder; a wrong case shows up only for 1 in 256 or rarer secrets.",
 [CORE+"data.rs", CORE+"key_exchange.rs", CORE+"message/key_exchange/ecdh.rs"], [("make_pos_mpint", CORE+"data.rs")], observe=["KeyMaterial::new (derived keys)", "KeyExchangeDigest result", "SignatureBlob bytes"])
prop("C08", "Outgoing packets are correctly framed and carry the payload unchanged",
 "For every block size, both alignment conventions, every payload that fits and every random source, wrapping produces a packet whose length field, padding length and total size are consistent, whose padded part is a multiple of the block size, with 4 to 255 bytes of padding taken from the random source, and whose payload is exactly what the payload writer wrote.",
 ["inputs", "configurations"], "all payload lengths, block sizes, conventions", "No test calls the packet code.",
 [CORE+"packet.rs"], [("Packet::wrap and the Packet accessors", CORE+"packet.rs")], observe=["Packet::wrap", "Packet::payload", "Packet::as_raw"])
prop("C09", "Incoming packet framing is validated before any field is used",
 "Interpreting received bytes as a packet succeeds exactly when the length is aligned for the cipher and the padding is smaller than the packet; then the payload is exactly the bytes between padding-length byte and padding, in bounds. Reading a cleartext packet from any byte stream into any buffer that has room for the length and padding-length fields consumes exactly the length field and the announced bytes, rejects lengths that are too small or do not fit the buffer, and never panics.",
 ["inputs", "histories"], "all byte streams and buffer sizes", "No test calls the packet code.",
 [CORE+"packet.rs", SSH+"packet.rs"], [("Packet::wrap_raw and accessors", CORE+"packet.rs"), ("parse", SSH+"packet.rs")], observe=["Packet::wrap_raw", "nora_ssh::packet::parse"])
prop("C10", "Encrypted packets: authenticate before use, exact round trip, no state change on failure",
 "What one side encrypts, the other side (same keys, same sequence number) decrypts to the same length field and bytes. Decryption succeeds exactly when the authentication tag over the ciphertext is the one for the current sequence number; when it is not, it reports an error and neither the data nor the cipher state changes. Ciphertext follows chacha20-poly1305@openssh.com: length and payload use separate keys, the tag covers the encrypted length and payload.",
 ["inputs", "histories"], "all keys, sequence numbers, packets and modifications", "No test touches the cipher.",
 [CORE+"cipher/chacha20poly1305.rs"], [("ChaCha20Poly1305::{encrypt, decrypt_length, decrypt_data, authenticate, compute_tag, apply_data}", CORE+"cipher/chacha20poly1305.rs")],
 state=[("counter", "packet sequence number = nonce", CORE+"cipher/chacha20poly1305.rs")], observe=["Cipher::encrypt", "Cipher::decrypt_length", "Cipher::decrypt_data"])
prop("C11", "A (key, sequence number) pair is never used for two packets",
 "Each successfully encrypted or decrypted packet advances that direction's sequence number by exactly one, nothing else changes it, and the nonce is the 64-bit big-endian sequence number; the two directions and the length and data parts use distinct derived keys (first and second 32-byte half of the derived key for that direction). After key exchange both directions start at the number of packets already exchanged in clear.",
 ["histories", "inputs"], "all packet histories", "No test sends two packets.",
 [CORE+"cipher/chacha20poly1305.rs", SSH+"host.rs"], [("counter updates, nonce(), from_key_material", CORE+"cipher/chacha20poly1305.rs"), ("initial counters", SSH+"host.rs")], observe=["ciphertexts of successive packets"])
prop("C12", "Keys are derived as RFC 4253 section 7.2 prescribes, for any output length",
 "For every shared secret, exchange hash, direction and number of output blocks, IV, encryption key and integrity key equal HASH(K||H||X||session_id) extended by HASH(K||H||K1||...||Kn), with K as an mpint and X = A..F for the right purpose and direction.",
 ["inputs", "configurations"], "all secrets, hashes, directions and output lengths", "No test derives a key.",
 [CORE+"key_exchange.rs"], [("KeyMaterial::{new, digest_k1, digest_kn, gen} and the three generators", CORE+"key_exchange.rs")], observe=["KeyMaterial::initial_iv/encryption_key/integrity_key"])
prop("C13", "The exchange hash covers exactly the RFC 8731 fields in order",
 "For every pair of identification strings, key-exchange payloads, host key, ephemeral keys and shared secret, the exchange hash is the hash of string(client id), string(server id), string(client kexinit), string(server kexinit), string(host key blob), string(client key), string(server key), mpint(secret), in that order and with nothing added or dropped.",
 ["inputs"], "all field values", "No test computes an exchange hash.",
 [CORE+"message/key_exchange/ecdh.rs"], [("KeyExchangeDigest typestate chain, helpers f and g", CORE+"message/key_exchange/ecdh.rs")], observe=["KeyExchangeDigest::update ... result"])
prop("C14", "Key exchange binds host key, both sides' messages and session keys together",
 "A completed key exchange means: the client offered the supported key exchange, host key and cipher algorithms; the reply carries the server's real host key and ephemeral key and a signature over the exchange hash of exactly the identification strings and payloads sent and received; the session identifier is that hash; and the session keys come from the shared secret and that hash, one direction each. If the client's messages are missing, malformed or of another kind, or its key yields the all-zero shared secret, the exchange fails with an error.",
 ["inputs", "histories"], "all client behaviours during the handshake", "No test performs a handshake.",
 [SSH+"host.rs"], [("Host::handle_new_client", SSH+"host.rs")], observe=["bytes exchanged by Server/Host with a client", "HostClient::session_identifier"])
prop("C15", "Identification strings are exchanged exactly, whatever else the peer sends first",
 "The server sends its identification string followed by CR LF. When reading the peer's, lines not starting with \"SSH-\" are skipped, the first line starting with \"SSH-2.0-\" is returned byte for byte without its CR LF and nothing after that line is consumed; another protocol version or a line longer than 255 bytes is an error, and no input makes it panic.",
 ["inputs", "histories"], "all byte streams", "No test reads an identification string.",
 [SSH+"identifier.rs", CORE+"identifier.rs"], [("parse (byte state machine), send", SSH+"identifier.rs"), ("Identifier::new", CORE+"identifier.rs")], observe=["nora_ssh::identifier::parse/send via Host::handle_new_client"])
prop("C16", "The encrypted transport delivers exactly the authenticated payloads in order",
 "Sending writes exactly one encrypted packet whose decryption is the given payload. Receiving returns a payload only if the packet authenticated at the current sequence number and is well framed, consumes exactly that packet's bytes, and for every other byte stream, packet length or buffer size reports an error instead of panicking or delivering data.",
 ["inputs", "histories"], "all payloads, byte streams and buffer sizes", "No test uses the encrypted transport.",
 [SSH+"host.rs"], [("Out::send, In::recv", SSH+"host.rs")], observe=["bytes written/read on the connection"])
prop("C17", "Nobody gets a session without the application accepting their credentials",
 "A connection becomes an authenticated client, and a success message is sent, only after the application's authenticate callback returned success for it, and every refusal is answered with a failure message. The callback receives exactly the user, service and credentials of the request; public-key credentials reach it only if the algorithm names inside key blob and signature match the request, together with the exact data the client must have signed, which includes this session's identifier.",
 ["inputs", "histories"], "all sequences of authentication messages", "No test runs authentication.",
 [SSH+"server.rs"], [("Server::authenticate_new_client", SSH+"server.rs")], observe=["ServerHandlers callbacks", "messages sent to the client"])
prop("C18", "The public-key signature payload is exactly RFC 4252 section 7",
 "For every session identifier, user, service, algorithm and key blob, the data to be signed is string(session id), byte 50, string(user), string(service), string(\"publickey\"), TRUE, string(algorithm), string(blob), and the function fails only if the buffer is too small.",
 ["inputs"], "all field values and buffer sizes", "No test formats signature data.",
 [CORE+"message/userauth.rs"], [("format_sign_data", CORE+"message/userauth.rs")], observe=["format_sign_data"])
prop("C19", "Open channels keep distinct identifiers and independent state",
 "Opening a channel returns an identifier no open channel has and leaves all other channels unchanged; looking up an identifier gives exactly the channel opened under it, until that channel is removed; removing returns and removes just that one; unknown identifiers give nothing and never panic.",
 ["histories"], "all sequences of open, lookup and close", "No test touches the channel table.",
 [SSH+"arena.rs"], [("Arena::{insert, remove, get_mut}", SSH+"arena.rs")], state=[("Arena.0", "slot i holds the channel with identifier i, if open", SSH+"arena.rs")], observe=["Arena methods"])
prop("C20", "Channel messages act on the addressed channel only, and exactly once",
 "A channel-open is confirmed to the opener with a fresh local identifier and its window values; shell and exec requests start exactly the requested command; replies are sent exactly when wanted and to the peer's identifier of that channel; channel data reaches exactly that channel's process input, completely and in order; EOF closes only that input; close forgets only that channel.",
 ["inputs", "histories"], "all sequences of channel messages", "No test runs a session.",
 [SSH+"server.rs"], [("Client::receive", SSH+"server.rs")], state=[("Client.channels", "open channels", SSH+"server.rs")], observe=["ServerHandlers::spawn calls", "process stdin contents", "messages sent to the client"])
prop("C21", "Process output and exit status reach the client completely, in order, on the right channel",
 "Every chunk a process writes to standard output or error is sent as channel data to the peer's identifier of the channel that started it, unchanged and in order; end of standard output is followed by EOF and close on that channel, and the exit status is reported on that channel.",
 ["inputs", "histories"], "all process outputs and exit codes", "No test runs a process.",
 [SSH+"server.rs"], [("Client::start, send_channel, send", SSH+"server.rs")], observe=["messages sent to the client"])
prop("C22", "No peer can crash the server",
 "Whatever bytes or messages a peer sends, before or after authentication, the server answers, ignores them or drops that connection; it never panics, so other clients are unaffected.",
 ["inputs", "histories"], "all peer behaviours", "No test runs the server.",
 [SSH+"host.rs", SSH+"server.rs", SSH+"packet.rs", SSH+"identifier.rs"], [("error returns in handle_new_client, authenticate_new_client, Client::receive", SSH+"host.rs, "+SSH+"server.rs")], observe=["server process"])
prop("C23", "The write lock admits one holder and wakes waiters",
 "At any time at most one task holds the lock protecting a connection's write half, a task that finds it taken is registered to be woken, and releasing the lock wakes a registered waiter, so no waiter that is still waiting is forgotten.",
 ["schedules"], "all interleavings of lock, poll and release", "No test takes the lock.",
 [SSH+"sync.rs"], [("LocalMutexGuardFuture::poll, LocalMutexGuard::drop", SSH+"sync.rs")], observe=["LocalMutex"])
prop("C24", "scp in receive mode stores exactly the bytes sent, only where it was told to",
 "When scp receives a file it creates the named target with exactly the announced number of bytes, as sent, acknowledges each step once, and reports malformed headers, short input or a missing terminator as errors. In directory mode files are created only directly inside the target directory, whatever names the sender uses.",
 ["inputs", "histories"], "all header lines and contents", "nora_scp has no tests.",
 ["nora_scp/src/main.rs"], [("receive, read_header, transfer_file", "nora_scp/src/main.rs")], observe=["files created", "stdout"])
prop("C25", "scp in send mode announces the true size and sends exactly the file",
 "For each requested file scp sends one header with the file's name and true size and then exactly the file's bytes followed by the terminating zero byte.",
 ["inputs"], "all files", "nora_scp has no tests.",
 ["nora_scp/src/main.rs"], [("send", "nora_scp/src/main.rs")], observe=["stdout"])
prop("C26", "The example server logs in only holders of the offered key",
 "The example server accepts a login only if an ed25519 signature over exactly the session-bound authentication data verifies under the offered key; every other method, algorithm, malformed key or signature is refused without panicking.",
 ["inputs"], "all credentials", "nora_sshd has no tests.",
 ["nora_sshd/src/main.rs"], [("Handlers::authenticate", "nora_sshd/src/main.rs")], observe=["ServerHandlers::authenticate result"])
prop("C27", "Concurrent process output never loses or tears an incoming packet",
 "For every interleaving of incoming packets with process output and exits, each incoming packet is processed exactly once and the receive stream stays in step with its sequence numbers.",
 ["schedules"], "all interleavings of network input and process output", "No test runs the server; the property is about cancelling a half-finished read.",
 [SSH+"server.rs"], [("select! loop in Client::start", SSH+"server.rs")], observe=["commands executed, data delivered"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
