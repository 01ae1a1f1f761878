#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b) for a, b in state], observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- mail store
prop("A01", "Local mailbox converges to the server's mailbox",
 "When a mailbox is synchronized, then whatever the server did meanwhile (new mail, flag changes, expunges, by whatever client) and wherever earlier connections broke off, the local copy ends with exactly the server's messages: each present message once, with its content and current flags, and no expunged message. A message which is locally complete is not downloaded again, and no message is lost or left out.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of server-side changes, connection losses at any response, reconnects and local clients, within bounds",
 "The end-to-end tests walk a few fixed histories against one server, with no connection lost in the middle of a sync.",
 ["libimaildir/up.c", "libimaildir/imaildir.c", "libimaildir/log.c"],
 [("upstream synchronization", "libimaildir/up.c"), ("message store", "libimaildir/imaildir.c")],
 [("HIGHESTMODSEQ range and cached messages", "what the next connection asks the server for")], ["local mailbox view after sync"])
prop("A02", "A crash at any moment leaves a mailbox that reopens and recovers",
 "If the process dies at any point while mail is downloaded, flags change, messages are expunged or the mailbox is reset, then the mailbox directory opens again, every change that was already shown to a client as done is still there, no message appears twice or half-written, and the next synchronization converges.",
 ["crash_points", "histories"], "every file operation of every bounded history is a crash point",
 "No test kills the process between two file operations; the tests only stop the program cleanly.",
 ["libimaildir/imaildir.c", "libimaildir/log_file.c", "libimaildir/log.c"],
 [("metadata log", "libimaildir/log_file.c"), ("file placement by tmp and rename", "libimaildir/imaildir.c")],
 [(".cache, .invalid, cur/, tmp/", "everything a restart sees")], ["mailbox view after reopening"])
prop("A03", "Message UIDs shown to mail clients are stable and never reused",
 "As long as the UIDVALIDITY shown to mail clients is unchanged, a UID denotes one message for ever: no later message gets a UID that was used before or that is not larger than all earlier ones, not across restarts, crashes, expunges and log compactions, and no message changes its UID. If the server resets its UIDVALIDITY, clients see a new one.",
 ["histories", "crash_points"], "bounded histories of downloads, expunges, restarts, crashes and UIDVALIDITY resets",
 "Tests never compare UIDs across restarts or crashes.",
 ["libimaildir/imaildir.c", "libimaildir/log_file.c"],
 [("UID assignment", "libimaildir/imaildir.c"), ("UIDVALIDITY of the local view", "libimaildir/imaildir.c")], [], ["UID and UIDVALIDITY shown to clients"])
prop("A04", "Client changes reach exactly the chosen messages",
 "A client's STORE, EXPUNGE and COPY act upstream on exactly the messages the client chose, also when other clients or the server add, expunge or renumber messages concurrently, when the connection breaks in between or the server resets its UIDVALIDITY: no other message is ever flagged, deleted or copied. Each of these commands gets exactly one completion, which reports success only if the server accepted the change, and a COPY is sent at most once.",
 ["schedules", "histories", "fault_sequences"], "bounded interleavings of client commands with upstream events, failures and disconnects",
 "The tests issue one command at a time against an otherwise idle mailbox.",
 ["libimaildir/dn.c", "libimaildir/up.c", "libimaildir/imaildir.c"],
 [("downstream command handling", "libimaildir/dn.c"), ("request relay", "libimaildir/imaildir.c"), ("upstream commands", "libimaildir/up.c")], [], ["commands sent to the server", "responses to the client"])
prop("A05", "Every mail client sees one consistent sequence-numbered view",
 "For every connected client, applying the untagged EXISTS, EXPUNGE and FETCH responses in the order they are sent yields at every moment the numbering the proxy uses for that client, and after an idle sync the mailbox content and flags. Sequence numbers never shift during a command where the protocol forbids it, UIDs are listed in ascending order, and a command by sequence number acts on the messages the client sees under those numbers.",
 ["schedules", "histories"], "bounded interleavings of several clients' commands and upstream changes",
 "The tests look at single responses, never at the composition of all responses a client gets.",
 ["libimaildir/dn.c", "libimaildir/imaildir.c", "libimaildir/msg.c"],
 [("view of one client", "libimaildir/dn.c"), ("update distribution", "libimaildir/imaildir.c")], [], ["responses to the client"])
prop("A06", "Opening a mailbox read-only never changes it",
 "A client that opened a mailbox read-only cannot change it: its STORE, EXPUNGE and closing of the mailbox alter nothing locally or upstream, and closing a writable mailbox expunges exactly the messages that client sees as deleted. Leaving without closing expunges nothing.",
 ["histories", "configurations"], "bounded histories with read-only and writable clients",
 "One fixed test opens a mailbox read-only.",
 ["libimaildir/dn.c"], [("read-only checks and CLOSE", "libimaildir/dn.c")], [], ["commands sent to the server", "mailbox view"])
prop("A07", "The metadata log keeps its meaning through compaction, reopening and torn writes",
 "Whatever sequence of updates was written to a mailbox's metadata log, reopening it yields exactly the latest state of every message, whether or not the log was compacted in between; a torn last record costs at most that one record, and a crash during compaction loses nothing.",
 ["histories", "crash_points", "inputs"], "all bounded update sequences, every crash point and truncation length",
 "The test checks a handful of sequences, and one compaction without deletions.",
 ["libimaildir/log_file.c", "libimaildir/log.c"], [("log reading, writing and compaction", "libimaildir/log_file.c")], [(".cache", "the log")], ["messages read back"])
prop("A08", "The local mailbox tree follows the server's tree and only ever that",
 "Deleting, renaming and pruning local mailboxes removes or moves exactly the named mailbox and what the server no longer has: never a mailbox that still exists on the server, never a child of a deleted mailbox, never anything outside the account's directory, whatever the mailbox is called. Mailboxes that are in use are never deleted under their users, and names that would escape the tree or collide with the store's own files are rejected.",
 ["inputs", "histories", "schedules"], "all bounded directory trees, server lists, operation sequences and names over a small alphabet",
 "The test uses one directory tree.",
 ["libimaildir/dirmgr.c", "libimaildir/name.c"], [("tree maintenance", "libimaildir/dirmgr.c")], [], ["directory tree"])
prop("A09", "SEARCH answers exactly the messages that match",
 "The result of a SEARCH is exactly the set of messages for which the given search key holds by the IMAP rules, for every combination of AND, OR, NOT, flags, dates, sizes, header and text keys, and message sets, by sequence number or UID. Message sets mean what the protocol says, including * and reversed and overlapping ranges.",
 ["inputs"], "all search key trees up to a depth over small mailboxes; all message sets up to a length",
 "The tests hold some tens of examples.",
 ["libimaildir/search.c", "libimaildir/dn.c", "libimap/expression.c"], [("search evaluation", "libimaildir/search.c"), ("message sets", "libimap/expression.c")], [], ["SEARCH response"])
# ---------------------------------------------------------------- crypto
prop("B01", "Encryption round-trips and rejects every altered message",
 "A message encrypted to a set of keys decrypts to exactly the original bytes with each of these keys and with no other key, however the data is cut into pieces on the way in and out. A message whose text is truncated or altered, or which was encrypted only to other keys, is never reported as successfully decrypted (the list of the other recipients is not part of what the format protects).",
 ["inputs", "schedules"], "all chunkings of bounded messages; every truncation length and every single-character alteration of whole messages",
 "The tests decrypt a few messages in one go.",
 ["libcrypto/crypto.c", "encrypt_msg.c", "decrypt_msg.c"], [("streaming encrypter and decrypter", "libcrypto/crypto.c")], [], ["decrypted bytes", "error returned"])
prop("B02", "Every downloaded message ends up decrypted, passed through or explained",
 "Whatever a downloaded message contains, it becomes exactly one of: the decrypted original, when it was encrypted to this device; nothing, when it was encrypted for other devices only; or a well-formed explanatory message which carries the undecodable or unencrypted original. A message is never silently dropped for being broken, and the proxy never stores plaintext that failed authentication as if it were genuine.",
 ["inputs"], "all truncations, single-byte alterations and key sets of bounded messages",
 "The end-to-end tests send two broken messages.",
 ["libcitm/keydir.c"], [("message processing", "libcitm/keydir.c")], [], ["stored message"])
prop("B03", "Every key that was not created by this device's user is announced once",
 "Each time a public key that is not yet known appears on the account, a warning message naming it is placed in the user's mailbox before the key is remembered as known, at any crash point; keys already known, and the keys found at the very first start, cause no warning. A key which disappears and later comes back is treated as the same known key or announced, but never silently trusted if it was not known before.",
 ["histories", "crash_points"], "bounded sequences of key lists and crashes",
 "The test covers adding fingerprints to a file, not the alert order or crashes.",
 ["libcitm/keydir.c", "libcitm/fpr_watcher.c"], [("key alerts", "libcitm/keydir.c"), ("known fingerprints", "libcitm/fpr_watcher.c")], [("fingerprint directory", "known keys")], ["messages in the mailbox", "known fingerprints after restart"])
prop("B04", "Uploaded messages are encrypted for exactly the keys of the account",
 "While a user has a session, the proxy follows the keys of the account: a key that another device adds is stored and a key that is removed is removed, whenever the server tells, and when the device's own key is removed the user's sessions end. Every message that a client uploads leaves the proxy encrypted only; this device and every other device whose key the account had when the upload began can decrypt it to exactly what the client sent, removed keys and other users cannot; and in the selected mailbox it is there at once as it was sent.",
 ["schedules", "fault_sequences"], "all bounded orders of key changes, uploads, completions, failures and cancellations",
 "The tests cover parts: encryption of fixed texts, and the first key exchange with fixed orders.",
 ["libcitm/user.c", "libcitm/preuser.c", "libcitm/xkey.c", "libcitm/keydir.c", "libcitm/sc.c"], [("key connection", "libcitm/user.c")], [("keys", "keys of this and the other devices")], ["APPEND to the server", "keys on disk"])
# ---------------------------------------------------------------- streams
prop("C01", "Stream layers deliver every byte exactly once, in order, and every callback once",
 "Through every stream wrapper (concatenation, length limit, chunked coding, borrowed connection, pass-through, in-memory) the reader gets exactly the bytes of the source, in order, followed by one end-of-file or error, for every way the source splits, delays or fails its reads. Each read and write submitted is answered at most once, the final callback is called exactly once and last, also after cancellation at any moment, and nothing is delivered after it.",
 ["schedules", "inputs", "fault_sequences"], "all bounded interleavings of reads, completions, cancellations and errors, all splits of short inputs",
 "The tests run one or two schedules per wrapper.",
 ["libduv/concat.c", "libduv/passthru.c", "libduv/dstr_rstream.c", "libduv/dstr_stream.c", "libduv/reader.c", "libhttp/limit.c", "libhttp/chunked.c", "libhttp/borrow.c"],
 [("stream contract", "libduv/stream.h"), ("wrappers", "libduv, libhttp")], [], ["callbacks and bytes"])
prop("C02", "TLS connections deliver authentic data or an error, never a silent cut",
 "Over a TLS stream each side reads exactly the bytes the other wrote, in order, however the transport fragments or delays the records; end-of-file is reported only after the peer's orderly close, and a connection cut at any byte or an altered record yields an error. A client accepts a server only if its certificate is valid for the requested name and issued by a trusted authority.",
 ["schedules", "fault_sequences", "configurations"], "bounded schedules of reads, writes, shutdown and cancel; cuts at every byte; certificate variants",
 "The tests run few schedules and no cut connection.",
 ["libduvtls/tls.c"], [("TLS stream", "libduvtls/tls.c")], [], ["bytes, errors and callbacks of the stream"])
prop("C03", "HTTP requests get exactly their own complete response, however events interleave",
 "An HTTP response is parsed to the same status, headers and body for every way its bytes are cut into reads, for length-delimited, chunked and close-delimited bodies; a truncated or malformed response is an error, never a shorter success. After a body has been read, the connection continues exactly behind it. Every request is written completely and once, to its own host and port, and ends exactly once: with its own response, or with an error when its connection failed, it was canceled or the client was closed; a request which is over, canceled or awaited late never disturbs another one; a connection the server announced to close is not used again, and an idle one is closed after a while.",
 ["inputs", "schedules"], "all cuts of a corpus of responses in two and three parts; every truncation; single-byte alterations; all event orders of two requests within a deviation bound",
 "The tests feed some examples whole.",
 ["libhttp/duv_http.c", "libhttp/chunked.c", "libhttp/limit.c", "libweb/http.c"], [("response reader", "libhttp/duv_http.c, libweb")], [], ["status, headers, body, error"])
# ---------------------------------------------------------------- IMAP
prop("D01", "IMAP text written is read back to the same meaning, however it is cut",
 "Every command and response that the program can write is parsed back by its own reader to the same meaning, and written out in pieces of any size it is the same text, with literals announced correctly. The reader gives the same results for every way of cutting the input into reads.",
 ["inputs", "schedules"], "all values of bounded size over an alphabet of awkward characters, all output buffer sizes, all cuts of a corpus",
 "The tests compare single examples in one direction.",
 ["libimap/write.c", "libimap/read.c", "libimap/imap.in", "libimap/scan.c"], [("writer", "libimap/write.c"), ("reader", "libimap/read.c, libimap/imap.in")], [], ["bytes written", "parsed structures"])
prop("D02", "IMAP input can never crash, corrupt or stall the reader",
 "For every byte sequence the IMAP readers either produce well-formed commands and responses or report a syntax error, stay in bounds and go on with the next line; a syntax error in one command line never swallows or alters the commands that follow it.",
 ["inputs"], "all token sequences up to a length, single-byte alterations and truncations of a corpus",
 "The tests have some examples of bad input.",
 ["libimap/read.c", "libimap/imap.in", "libimap/scan.c"], [("reader", "libimap")], [], ["parsed commands"])
prop("D03", "Mail headers and bodies are taken apart without losing or inventing bytes",
 "For every message the parsed header fields and body cover the original bytes exactly, in order and without overlap, folded lines and odd line ends included; the parts handed out for FETCH are byte-exact sections of the message, for any part, partial range and header list. The structure and the envelope reported describe the message's own parts and fields; a part which does not exist is refused and no bytes are invented for it; no message, however malformed or deeply nested, crashes or ends the session which fetches it.",
 ["inputs"], "all messages up to a length over tokens of headers, folding, odd line ends and boundaries; all trees of nested parts up to a size, with every part, suffix, partial range and header list asked for",
 "The tests have some examples.",
 ["libimap/imf.c", "libimap/imf.in", "libimap/write.c", "libimaildir/dn.c"], [("message parser", "libimap/imf.in"), ("sections and structures", "libimaildir/dn.c: send_fetch_resp")], [], ["FETCH responses"])
# ---------------------------------------------------------------- proxy
prop("E01", "Proxied mail sessions are independent and end completely in every order",
 "For every order in which clients connect, log in, run commands, log out or lose their connection, and in which the server connects, answers, fails or closes, each client gets the answers to its own commands, in order and once; its commands go to the server under its own login and over its own connection, and nobody is let in without the server's consent. A client is disconnected when its side of the server fails, and no client is disconnected while nothing of it failed: a failure of one session disturbs neither another user's session nor another session of the same user. Logging in while earlier sessions of the same user end works. Every connection that was opened is closed exactly once, and a shutdown at any time completes, with everything closed.",
 ["schedules", "fault_sequences"], "all bounded orders of completions, failures and cancellations",
 "The tests run a few fixed orders of single stages; nothing tests the stages together.",
 ["libcitm/citm.c", "libcitm/io_pair.c", "libcitm/anon.c", "libcitm/preuser.c", "libcitm/user.c", "libcitm/sc.c", "libcitm/imap_server.c", "libcitm/imap_client.c"], [("session stages", "libcitm")], [], ["streams opened and closed", "responses"])
prop("E02", "The certificate and its key always match, through renewals and crashes",
 "Whenever the certificate manager starts from a certificate on disk, the private key next to it belongs to that certificate, at any crash point of any renewal. The manager always starts again, and hands out the working certificate with its whole chain until it expires. A renewal interrupted at any step is resumed or redone after a restart; failures are retried later, not endlessly at once, and once the servers answer there is a fresh certificate again and the challenge record is removed. The status never says ready while no certificate is handed out.",
 ["crash_points", "fault_sequences", "schedules"], "every crash point and every result of each step of a renewal, within bounds",
 "The tests run a fixed script of steps without crashes.",
 ["libcitm/acme_manager.c"], [("certificate manager", "libcitm/acme_manager.c")], [("cert.pem, key.pem, certnew.pem, keynew.pem, order.json", "renewal state on disk")], ["files on disk", "certificates handed out"])
prop("E03", "The status service tells every listener the latest state",
 "Each status client gets the state at some time since it connected first and then only later states, in order and never an older one after a newer one (states in between may be skipped), and ends up with the latest one, whatever the order of connects, reads, writes, disconnects and state changes. Every check command is passed on, every bad command is answered once, a client with too long a command is told and disconnected, and no other client is disconnected. A slow or vanished client never blocks or disturbs others, a second server on the same socket is refused without disturbing the first, and shutdown completes.",
 ["schedules", "fault_sequences"], "all bounded orders of events of two clients",
 "The tests run a few fixed orders.",
 ["libcitm/status_server.c", "libcitm/status_client.c"], [("status server", "libcitm/status_server.c")], [], ["messages received"])
# ---------------------------------------------------------------- server
prop("F01", "DNS challenge records are served as soon as they were acknowledged",
 "Once the record distributor has been told that a receiver stored a record, that receiver answers with that record until it is changed or deleted; a receiver answers a confident no for an existing record at most within 15 seconds of its creation. This holds for any loss, delay, duplication and reordering of packets and restarts of either side, deleted records do not come back, and when the network recovers all receivers converge.",
 ["schedules", "fault_sequences", "histories"], "bounded histories of stores, deletes and restarts with bounded packet faults",
 "The tests feed fixed packet sequences to one side at a time.",
 ["server/libkvpsync/send.c", "server/libkvpsync/recv.c", "server/libkvpsync/pkts.c"], [("sender", "server/libkvpsync/send.c"), ("receiver", "server/libkvpsync/recv.c")], [("stored updates per key", "what a receiver answers from")], ["answers of the receiver", "acknowledgement callbacks"])
prop("F02", "Challenge subscribers are told ready exactly once and only when it is true",
 "A subscriber waiting for a challenge is answered exactly once: ready only when every reachable receiver has acknowledged the challenge that is currently in the database (and at least one has), or timed out after its deadline, or closed when its challenge changed or vanished. The set of records being distributed follows the database content as of the last complete scan or notification. No client and no peer which is out of reach or not configured keeps the others from being served, and after a failure of the database the program closes every client and ends.",
 ["schedules", "histories", "fault_sequences"], "bounded sequences of database changes, subscriptions, receiver state changes and acknowledgements",
 "The tests run fixed sequences.",
 ["server/kvpsend/kvpsend.c", "server/kvpsend/main.c"], [("readiness tracking", "server/kvpsend/kvpsend.c"), ("event handling", "server/kvpsend/main.c")], [], ["subscriber responses", "records sent"])
prop("F03", "Every DNS packet gets a well-formed, correct answer or none",
 "For every packet the DNS server either stays silent or sends one well-formed response to that query with the right code and records for the name asked, case-insensitively, within the size the client can take. It never reads outside the packet, never answers a response, and treats a packet that is malformed anywhere it should look as malformed.",
 ["inputs"], "all packets built from an alphabet of pieces, with truncations and single-byte alterations",
 "The tests have some examples.",
 ["server/dns/parse.c", "server/dns/dns.c", "server/dns/write.c"], [("packet parser", "server/dns/parse.c"), ("responses", "server/dns/dns.c")], [], ["response bytes"])
prop("F04", "DNS rate limiting never blocks quiet clients and bounds busy ones",
 "A source of requests is refused only after it used up its allowance of eight within the current second (seven when the table is fresh); whoever stays below the limit is always served, and nobody gets more than the allowance per second, whatever other sources do. Sources which share a table slot (addresses of one IPv6 /64, or equal hashes) count as one source, and seconds which are a multiple of 32 apart with no request between count as one second.",
 ["histories", "inputs"], "all bounded sequences of requests of several sources, colliding or not, and clock steps",
 "The test runs one sequence.",
 ["server/dns/rrl.c"], [("rate limiter", "server/dns/rrl.c")], [], ["accept or refuse decisions"])
# ---------------------------------------------------------------- base
prop("G01", "Containers behave like the simple containers they stand for",
 "Hash map, ordered tree, priority queue and linked list return after every sequence of operations, iteration and removal during iteration included, exactly what a plain list of entries would: no entry lost, duplicated or left behind, ordering kept, and no memory misused.",
 ["histories", "inputs"], "all operation sequences up to a depth over few keys, colliding ones included",
 "The tests run fixed sequences and some random ones.",
 ["libdstr/hashmap.c", "libdstr/jsw_atree.c", "libdstr/heap.c", "libdstr/link.c"], [("containers", "libdstr")], [], ["return values and iteration order"])
prop("G02", "JSON text is parsed, checked and written faithfully",
 "Every well-formed JSON text parses to its value, every other text is rejected, for any way of cutting the input; what the JSON writer emits parses back to the same value, and reading a document against an expected shape succeeds exactly when it has that shape.",
 ["inputs"], "all texts up to a length over an alphabet; all cuts; all bounded values",
 "The tests have some examples.",
 ["libdstr/json.c", "libdstr/jspec.c", "libdstr/jdump.c"], [("parser", "libdstr/json.c"), ("shape matching", "libdstr/jspec.c"), ("writer", "libdstr/jdump.c")], [], ["parsed values", "error"])
prop("G03", "A request nonce of the account API is never used twice",
 "The number sent with each signed account request is strictly larger than every number sent before, also if the program crashes at any moment or requests fail in between, so that the server never has to reject an honest request nor can accept a replayed one. Each request is signed with its token, says what it was asked to say, and is answered exactly once, a failure reported as such; a stored token is never lost to a crash or a full disk.",
 ["crash_points", "histories"], "every crash point of bounded request sequences",
 "No test crashes between requests.",
 ["api_client.c"], [("token file and nonce", "api_client.c")], [("token file", "last nonce used")], ["request sent", "token file"])
prop("G04", "Text building never overflows, truncates silently or loses data",
 "Formatting, appending, encoding and number conversion either produce the complete correct result or report an error; fixed-size buffers are never overrun and growable ones lose nothing; base64, hex, URL and Unicode conversions round-trip and reject invalid input.",
 ["inputs"], "all inputs up to a length over an alphabet, all buffer sizes",
 "The tests have some examples.",
 ["libdstr/common.c", "libdstr/fmt.c", "libdstr/cvt.c", "libdstr/b64.c", "libdstr/unicode.c", "libweb/url.c"], [("strings", "libdstr")], [], ["resulting bytes or error"])

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
if __name__ == "__main__":
    main()
