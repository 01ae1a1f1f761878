# What each check runs.  opts go to the harness (-o k=v), bound is the deviation
# bound, time a cap in seconds for thorough runs (a capped run reports
# complete=false and exhaustive=false).
BUILDS = {
    "plain": ["-DCMAKE_BUILD_TYPE=mc", "-DDISABLE_ASAN=TRUE"],
    "asan": ["-DCMAKE_BUILD_TYPE=debug"],
}

def R(harness, bound=0, build="plain", time=None, jobs=8, **opts):
    return dict(harness=harness, bound=bound, build=build, time=time, jobs=jobs, opts=opts)

CHECKS = {}

CHECKS["C03"] = dict(
    title="HTTP client",
    technique="exhaustive enumeration of response cuts, truncations and altered bytes and of request sequences on the real HTTP client over model connections; stateless exploration with a deviation bound of the order of events of two or three requests",
    level="model_checking", level_note="exhaustive over the stated corpus and bounds",
    bound_text="14 responses x every pair of cut points x 3 read sizes x what follows; every truncation; every byte replaced, dropped or inserted (256 values) x 4 arrivals against a strict reference reader; every pair of requests of 3 methods x 4 URLs x 8 responses x long headers x queued/sequential/idle; all orders of events within 2 deviations (thorough 3) with a connection failure, cancellation, early answer, idle timeout or close",
    quick=[R("c03_http", mode="cuts"), R("c03_http", mode="trunc"), R("c03_http", mode="alter"), R("c03_http", mode="reuse"), R("c03_http", 2, mode="sched", resps=8), R("c03_http", 2, mode="sched", lazy=1), R("c03_http", 2, mode="sched", rsize=2)],
    thorough=[R("c03_http", 3, mode="sched", time=600), R("c03_http", 2, mode="sched", lazy=1, resps=8), R("c03_http", 2, mode="sched", lazy=1, reqs=3, resps=2, time=300), R("c03_http", 3, mode="sched", lazy=1, resps=3, time=900), R("c03_http", mode="reuse", reqs=3, big=0, urls=3, time=600), R("c03_http", 1, build="asan", mode="sched"), R("c03_http", build="asan", mode="trunc")],
    assumptions=["bytes which a server sends after the end of a response may be noticed or ignored", "an interim (1xx) response is treated as the final one", "a response delimited by the end of the connection cannot be told from a truncated one"],
)
CHECKS["F01"] = dict(
    title="kvpsync",
    technique="stateless exploration of the real sender and receiver under a controlled network, clock and restarts, deviation-bounded",
    level="model_checking",
    level_note="every schedule of steps/operations/restarts and every placement of up to N network faults within the stated bounds; the real send.c/recv.c/pkts.c run, no model in between",
    bound_text="operation alphabet 8 (3 stores, 2 deletes, sender restart, receiver restart, 6 s pause), 2 keys; quick: 7 free steps, 2 operations, <=2 faults and 8 steps, 3 operations, <=1 fault (cold and warm start); every fault = lost / delayed / duplicated update or ack",
    quick=[R("f01_kvpsync", 2, steps=7, ops=2, warm=w) for w in (0, 1)] +
          [R("f01_kvpsync", 1, steps=8, ops=3, warm=w) for w in (0, 1)] + [R("f03_server", depth=3)],
    thorough=[R("f01_kvpsync", 2, steps=9, ops=2, warm=w) for w in (0, 1)] +
             [R("f01_kvpsync", 2, steps=9, ops=3, warm=w, time=1500) for w in (0, 1)] +
             [R("f01_kvpsync", 1, steps=11, ops=4, warm=w, time=900) for w in (0, 1)] +
             [R("f01_kvpsync", 3, steps=8, ops=2, warm=w, time=900) for w in (0, 1)],
    assumptions=["a packet lives at most 255 s in the network", "10 ms round trip time"],
)

CHECKS["F02"] = dict(
    title="challenge subscribers",
    technique="stateless exploration of histories of database changes, subscriptions, peers going away, coming back or restarting, failures and clock steps on the whole real kvpsend (main.c, kvpsend.c, kvpsync senders) over a modelled event loop, with real kvpsync receivers as peers; packet losses and split reads deviate up to the bound",
    level="model_checking", level_note="all histories of moves up to the depth; every placement of up to N lost updates, lost acks or split requests within them",
    bound_text="24 kinds of moves (time: next event / 2 s / 16 s / 61 s; database: 5; clients: 8, among them 11 kinds of garbage; peers: 5; a failing query; stray datagrams), 2 peers, 2 installations: depth 3 with 1 fault from a settled start, depth 3 (no fault) from a cold start, after a restart of kvpsend and with each set of peers down, depth 4 over 19 moves and depth 5 over 8 (thorough: 4 with 1 fault and 5 over 19)",
    quick=[R("f02_kvpsend", 1, depth=3), R("f02_kvpsend", 2, depth=2, warm=0)] + [R("f02_kvpsend", 0, depth=3, prev=p, down=d, warm=w) for p in (0, 1) for d in (0, 1, 2, 3) for w in (0, 1) if p + d + 1 - w] +
          [R("f02_kvpsend", 0, depth=4, b=1, mask=0x7FFFF), R("f02_kvpsend", 0, depth=4, b=1, down=1, mask=0x1A79F), R("f02_kvpsend", 0, depth=5, b=1, down=3, warm=0, mask=0x20B27), R("f02_kvpsend", 0, depth=3, peers=1), R("f02_kvpsend", 0, build="asan", depth=3)],
    thorough=[R("f02_kvpsend", 1, depth=4, time=900), R("f02_kvpsend", 2, depth=3, time=600), R("f02_kvpsend", 2, depth=2, warm=0)] + [R("f02_kvpsend", 1, depth=3, prev=p, down=d, warm=w, time=200) for p in (0, 1) for d in (0, 1, 2, 3) for w in (0, 1)] +
          [R("f02_kvpsend", 0, depth=5, b=1, mask=0x7FFFF, time=900), R("f02_kvpsend", 0, depth=5, b=1, down=1, mask=0x1A79F, time=600), R("f02_kvpsend", 0, depth=7, b=1, down=3, warm=0, mask=0x20B27, time=600), R("f02_kvpsend", 1, depth=3, peers=1), R("f02_kvpsend", 1, build="asan", depth=3, time=300)],
    assumptions=["a peer which was told nothing for 28 s counts as out of reach", "datagrams take 5 ms"],
)

CHECKS["F03"] = dict(
    title="DNS packets",
    technique="exhaustive enumeration of packets within stated bounds against a reference responder; real handle_packet on guard-paged buffers",
    level="model_checking",
    level_note="every packet of five bounded families",
    bound_text="names: every label sequence of depth<=6 over 9 labels (zone suffix) x 21 types x record state x EDNS; hdr: all flag bytes x counts x classes; odd: pointers to every offset <512, every length byte, names around the 255 limit; rrs: all <=2 records over 70 shapes in all sections, with every truncation; bytes: every string of length <=6 over 10 bytes as name, OPT name or options",
    quick=[R("f03_dns", mode="names", depth=7), R("f03_dns", mode="hdr"), R("f03_dns", mode="odd"),
           R("f03_dns", mode="rrs", nrr=3), R("f03_dns", mode="bytes", len=7), R("f03_server", depth=3)],
    thorough=[R("f03_dns", mode="names", depth=7), R("f03_dns", mode="hdr"), R("f03_dns", mode="odd"),
           R("f03_dns", mode="rrs", nrr=3), R("f03_dns", mode="bytes", len=8), R("f03_server", depth=5)],
    assumptions=["EDNS versions other than 0 are answered like version 0"],
)

CHECKS["F04"] = dict(
    title="DNS rate limit",
    technique="exhaustive enumeration of request histories on the real rate limiter and through the server's receive path, against a one-record-per-slot reference",
    level="model_checking",
    level_note="all histories within the stated bounds",
    bound_text="histories of 3-4 steps: 9 time steps (0..64 s incl. second borders and the 32 s wrap) x 2-6 sources (IPv4, IPv6 in and outside one /64) x 5 burst sizes (1..20), 3 start times, tables of 0, 1, 2 and 9973 slots",
    quick=[R("f04_rrl", nb=n, nsrc=n and 4 or 1, depth=3) for n in (0, 1, 2, 9973)] + [R("f03_server", depth=2)],
    thorough=[R("f04_rrl", nb=n, nsrc=6, depth=3) for n in (0, 1, 2, 9973)] + [R("f04_rrl", nb=n, nsrc=3, depth=4) for n in (2, 9973)] + [R("f04_rrl", nb=9973, nsrc=2, depth=5, time=1200)],
    assumptions=["sources whose addresses share a table slot, and seconds which are a multiple of 32 apart without a request between them, are one source and one second (the documented slack)", "a fresh table behaves as if each source had sent one request in second 0 (allowance 7 instead of 8 in such a second)"],
)

CHECKS["G01"] = dict(
    title="containers",
    technique="explicit-state exploration of the real containers: every reachable structure up to a size, every operation on it, against sorted arrays",
    level="model_checking",
    level_note="all reachable shapes of the tree, heap and list within the size bound (pruned on the shape); all operation sequences of the hash map around its growth steps",
    bound_text="tree: 8 (thorough 10) keys, unique and with duplicates, insert/erase/pop/traversal with removal of every subset; heap: 7-8 nodes with equal keys, min and max, removal of any node; list: 4-5 links on 2 lists; hash map: 18 prefill sizes (0..300) x integer/string/mixed keys x all sequences of 3 of 8 operations on 6 keys",
    quick=[R("g01_containers", mode="tree", keys=8, depth=2000), R("g01_containers", mode="tree", dups=1, keys=4, maxn=9, depth=2000),
           R("g01_containers", mode="heap", depth=2000), R("g01_containers", mode="heap", max=1, nodes=8, keys=3, depth=2000),
           R("g01_containers", mode="link", links=5, depth=2000), R("g01_containers", mode="hash", depth=3)],
    thorough=[R("g01_containers", mode="tree", keys=11, depth=2700, time=1200), R("g01_containers", mode="tree", dups=1, keys=4, maxn=12, depth=2700, time=600),
           R("g01_containers", mode="heap", nodes=9, keys=5, depth=2700, time=900), R("g01_containers", mode="heap", max=1, nodes=9, keys=4, depth=2700, time=900),
           R("g01_containers", mode="link", links=6, depth=2700), R("g01_containers", mode="hash", depth=4, time=1500)],
)

# ---------------------------------------------------------------- the mail store
def A(bound, pre, menu, depth, inj="", **kw):
    return R("a_mail", bound, kw.pop("build", "plain"), kw.pop("time", None), pre=pre, menu=menu, depth=depth, inj=inj, **kw)

A_TECH = ("stateless exploration of the real proxy (sc_t, imap_server_t, imap_client_t, dn_t, up_t, imaildir_t, dirmgr_t, log) "
          "between a model IMAP server and model mail clients, deviation-bounded")
A_NOTE = ("every history of steps from the menu and every placement of up to N deviations (lost connection at any line of any response, "
          "refusal, another actor's step in the middle of a response, other order of service, crash or torn write at any file operation) "
          "within the stated bounds; no model of the code in between: the server and client models are only its environment and the oracle")
A_ASSUME = ["the server implements QRESYNC, UIDPLUS and LITERAL+ as the proxy requires", "sessions of one account share one scheduler thread, as in citm",
            "a crash is a process crash: what reached the kernel stays; a torn write is a prefix of one write"]
NOC = dict(no=0, drop=0, split=0)   # crashes only

E01P = [("0LO,0LO,0LO", {}), ("0bLO,0bLNO,0LNbO", dict(lazy=1)), ("0LE,0LNO", {}), ("0WLSO,0LR,1LCO", {}), ("0LSNO,0LSNO", dict(lazy=1)), ("0LCNO,1LXO", dict(newkey=1)),
        ("0bLO,0LbE", dict(lazy=1)), ("0bWLO,0LbO,1LO", dict(lazy=1, newkey=1)), ("0LSAO,1LSAO", {}), ("0WWLO,0LSR", {}), ("0LSE,0bLNO,0LbO", dict(lazy=1)), ("0LSO,1LSR", {}),
        ("0LbO,0bLO,0bLNO", dict(slowclose=1)), ("0LO,0LO,0LO,0LO", dict(slowclose=1)), ("0LbO,0bWLO,0bLE", dict(slowclose=1)), ("0LbO,0bLSO,1bLO", dict(slowclose=1, lazy=1))]
B04P = [("0LAO,0LAO", dict(peer=1)), ("0LSAO,1LAO", {}), ("0bLAO,0LbAO", dict(lazy=1)), ("0bLAO,0LAbO", dict(lazy=1, peer=1)), ("0LSAAO,0LSNO", dict(newkey=1)), ("0LSAO,0LAE", dict(peer=1)), ("0LNAO,0LR", dict(lazy=1)), ("0LbO,0bLSAO,0bLAO", dict(slowclose=1, peer=1))]

CHECKS["A01"] = dict(
    title="mailbox synchronization", technique=A_TECH, level="model_checking", level_note=A_NOTE, assumptions=A_ASSUME,
    bound_text="3-4 messages, 1-2 sessions: bootstrap with every pair of deviations (lost connection at any line, new/changed/expunged message in the middle); all histories of 3 steps of 18 kinds without and 2-3 steps of 10 kinds with one deviation; UIDVALIDITY resets, unreadable messages, files deleted by somebody",
    quick=[A(0, "nnncs", "nfxdtbECNFqsekciDlA", 3), A(2, "nnnc", "scn", 2, "nfxm", no=0), A(1, "nnnc", "nclsuKzxefm", 3, "nfx"),
           A(2, "nnncs", "nfxdmN", 2, "nfx", no=0), A(0, "nnncs", "nfxdtbECNFqsekciDlAopRyHz", 2, build="asan")],
    thorough=[A(0, "nnncs", "nfxdtbECNFqsekciDlA", 4), A(0, "nnncs", "nfxmzkcsuE", 6, time=600), A(1, "nnnc", "nclsuKzxefm", 4, "nfx", time=900),
              A(3, "nnnc", "scn", 1, "nfxm", no=0, time=900), A(2, "nnncs", "nfxdmNtbk", 3, "nfx", no=0, time=900), A(0, "nnncs", "nfxdtbECNFqsekciDlAopRyHz", 3, build="asan", time=600)],
)
CHECKS["A02"] = dict(
    title="crash recovery of a mailbox", technique=A_TECH, level="model_checking", level_note=A_NOTE, assumptions=A_ASSUME,
    bound_text="a crash before every rename/remove/mkdir/rmdir/open-for-writing and after every torn prefix (nothing, half, all but one byte) of every log or file write, or a full disk there, in bootstraps, all 2-3 step histories of 14 kinds, UIDVALIDITY wipes, dropping and deleting mailboxes and log compaction; a second crash (thorough: third) during recovery",
    quick=[A(2, "nnnc", "s", 1, crash=2, **NOC), A(1, "nnnc", "s", 1, crash=1, full=1, **NOC), A(1, "nnncs", "nfxtbECqmoezduA", 3, crash=1, **NOC),
           A(1, "nnncs", "nfxtbECqmoezduA", 2, "nfx", crash=1), A(2, "nnncs", "tEXYBRA", 2, crash=2, **NOC), A(2, "nnncsu", "kcsl", 3, crash=2, **NOC),
           A(2, "nnncsCov", "cosvt", 3, crash=2, **NOC), A(2, "nnncsCos", "XYko", 2, crash=2, **NOC), A(1, "nnncsnnxKGcs", "ntbECq", 2, crash=1, **NOC),
           A(2, "nnncsnnxKGcs", "fx", 2, crash=2, grow=996, **NOC), A(1, "nnncs", "ntECmx", 2, crash=1, full=1, **NOC)],
    thorough=[A(3, "nnnc", "s", 1, crash=3, time=900, **NOC), A(2, "nnncs", "nfxtbECqmoezduA", 3, crash=2, time=1800, **NOC), A(2, "nnncs", "nfxtbECqm", 2, "nfx", crash=1, time=900),
              A(2, "nnncsu", "kcslnx", 4, crash=2, time=600, **NOC), A(2, "nnncsCov", "cosvtX", 4, crash=2, time=600, **NOC),
              A(2, "nnncsnnxKGcs", "ntbECqx", 3, crash=2, grow=996, time=900, **NOC), A(2, "nnncs", "ntECmx", 3, crash=1, full=1, time=600, **NOC)],
)
CHECKS["A03"] = dict(
    title="stable UIDs", technique=A_TECH, level="model_checking", level_note=A_NOTE, assumptions=A_ASSUME,
    bound_text="all histories of 4-5 steps of new mail, expunge, reconnect, restart of the store, UIDVALIDITY reset, compaction; one deviation (lost connection, crash) anywhere in those of 3-4 steps; two crashes in bootstraps and compaction",
    quick=[A(0, "nnncs", "nxEYkcsuGoA", 4), A(1, "nnncs", "nxEkcsuGK", 4, no=0, split=0), A(1, "nnncs", "nxEkcsuGA", 3, crash=1, **NOC), A(2, "nnnc", "s", 1, crash=2, **NOC),
           A(2, "nnncsnnxKGcs", "nx", 2, crash=2, grow=996, **NOC), A(0, "nnncsnnxKG", "csnfxbEK", 5, build="plain")],
    thorough=[A(0, "nnncs", "nxECYkcsuGoA", 5), A(0, "nnncs", "nxEkcsuK", 6, time=900), A(1, "nnncs", "nxEkcsuGK", 5, "nx", time=900), A(2, "nnncs", "nxEkcsuGA", 4, crash=2, time=1500, **NOC),
              A(2, "nnncsnnxKGcs", "nxbE", 3, crash=2, grow=995, time=900, **NOC)],
)
CHECKS["A04"] = dict(
    title="client changes", technique=A_TECH, level="model_checking", level_note=A_NOTE, assumptions=A_ASSUME,
    bound_text="STORE (+, -, replace), EXPUNGE, CLOSE, COPY, FETCH marking messages read, by number and by UID, from one or two clients: all histories of 3 steps, all of 2 steps with one deviation and of one step with two (lost connection before the command or at any line of the answer, refusal, new/expunged/changed messages or the other client's command in the middle), renumbering and UIDVALIDITY resets in between",
    quick=[A(2, "nnncs", "tBECqRFpb", 1, "nfxd"), A(1, "nnncscs", "tbyECxnpqR", 2, "tEKxnCb"), A(0, "nnncscs", "tbyECxnpqRNiDu", 3), A(1, "nnncs", "tbECpR", 2, "xnu", uid=1),
           A(0, "nnncs", "nfxtbECNFqRpyBu", 3, uid=1), A(1, "nnncs", "nfxtbECNqses", 2, "nfx"), A(2, "nnncececec", "sC", 1, "CK", sess=4, no=0, build="asan"),
           A(1, "nnncs", "tbECqsekKFA", 1, "nfxk", build="asan")],
    thorough=[A(3, "nnncs", "tBECqRFpb", 1, "nfx", time=900), A(2, "nnncs", "tBECqRFpb", 2, "nfxdu", time=1500), A(2, "nnncscs", "tbECxq", 2, "tEKxC", time=1500), A(1, "nnncscs", "tbyECxnpqRNiD", 3, "tEx", time=900),
              A(1, "nnncs", "tbECpRxn", 3, "xn", uid=1, time=600), A(1, "nnncecec", "secC", 2, "CKnk", sess=3, build="asan", time=600)],
)
CHECKS["A05"] = dict(
    title="client view", technique=A_TECH, level="model_checking", level_note=A_NOTE, assumptions=A_ASSUME,
    bound_text="one to three clients on one mailbox (read-write and read-only) with NOOP, IDLE, FETCH, SEARCH, STORE, EXPUNGE against new, changed and expunged messages: all histories of 3 (two clients: 3 of 13 kinds) steps; of 2 steps with one deviation; the clients apply every untagged response and compare numbers, UIDs, content, flags and dates after every step",
    quick=[A(0, "nnncs", "nfxdtbECNFqsekciDlA", 3), A(0, "nnncscs", "nfxdtbyENiDFH", 3), A(1, "nnncscs", "nxtbENiDH", 2, "nfxtE"), A(2, "nnncs", "nxNiDE", 2, "nfx", no=0, drop=0),
           A(1, "nnnc", "cskKoeqCBEn", 3, "nfx"), A(0, "nnncsecec", "nfxtbECuoH", 3, sess=3, build="asan"), A(1, "nnnc", "secKkC", 2, "secKkC", build="asan"),
           A(0, "nnncscs", "oXYNEtx", 3, build="asan"), A(1, "nnncscs", "oYtq", 1, "X", build="asan"), A(0, "nnncso", "NHFtbECqBniDs", 3, build="asan")],
    thorough=[A(0, "nnncscs", "nfxdtbyENiDFH", 4, time=900), A(1, "nnncscs", "nfxtbENiDH", 3, "nfxtE", time=1500), A(2, "nnncs", "nfxtNiDE", 3, "nfx", no=0, drop=0, time=900), A(2, "nnncscs", "nxtEN", 2, "nxtE", time=900),
              A(1, "nnnc", "cskKoeqCBEn", 4, "nfx", time=900), A(1, "nnnc", "secKkC", 3, "secKkC", build="asan", time=600), A(1, "nnncscs", "oYtq", 2, "X", build="asan"), A(0, "nnncsecec", "nfxtbECuoH", 4, sess=3, build="asan", time=600)],
)
CHECKS["A06"] = dict(
    title="read-only sessions", technique=A_TECH, level="model_checking", level_note=A_NOTE, assumptions=A_ASSUME,
    bound_text="read-only (EXAMINE) sessions alone and beside a read-write one: all histories of 3-4 steps of STORE, EXPUNGE, CLOSE, LOGOUT, reselecting, FETCH BODY[] and disappearing, with messages flagged deleted by others; of 2 steps with one deviation",
    quick=[A(0, "nnnce", "tbBEqlKFpRseCdnxN", 3), A(0, "nnncecs", "tbEqlKFpRsed", 3), A(1, "nnnce", "tbBEqlFpsed", 2, "dnxf"), A(1, "nnncecs", "tbEqpse", 2, "tbExE"), A(1, "nndce", "EqlsK", 2, "sebE"),
           A(0, "nnncs", "bdBqlKksexNE", 4)],
    thorough=[A(0, "nnnce", "tbBEqlKFpRseCdnxN", 4, time=900), A(0, "nnncecs", "tbEqlKFpRsedx", 4, time=900), A(2, "nnnce", "tbBEqlFpsed", 2, "dnxf", time=900), A(1, "nnncecs", "tbEqpseKdx", 3, "tbExE", time=900)],
)
CHECKS["A07"] = dict(
    title="metadata log",
    technique="exhaustive exploration of update sequences on the real log with crash points, torn writes and full disks at every file operation, against a key-value reference",
    level="model_checking", level_note="all sequences of meaningful updates and reopenings of 4 messages up to the depth, before, at and after the compaction threshold, with up to two crashes anywhere",
    bound_text="4 messages in every state, 7 kinds of message updates, UIDVALIDITY, modseqs, reopening: depth 5-6 on small logs, 3-5 around compaction (998/999 lines); one crash or full disk at any file operation in depth 2-3, two in depth 1",
    quick=[R("a07_log", 0, depth=6), R("a07_log", 0, depth=5, prefill=998, base="ufex"), R("a07_log", 0, depth=3, prefill=999, base="unfe"), R("a07_log", 1, depth=3, crash=1, full=1, base="ufen"),
           R("a07_log", 1, depth=2, crash=1, full=1, prefill=999, base="ufxe"), R("a07_log", 1, depth=2, crash=1, prefill=998, base="unfe"), R("a07_log", 2, depth=1, crash=2, prefill=999, base="ufen"),
           R("a07_log", 0, build="asan", depth=3, prefill=998, base="unfe")],
    thorough=[R("a07_log", 0, depth=7, time=600), R("a07_log", 0, depth=6, prefill=998, base="ufex", time=900), R("a07_log", 1, depth=4, crash=1, full=1, base="ufen", time=900),
              R("a07_log", 1, depth=3, crash=1, full=1, prefill=998, base="ufen", time=600), R("a07_log", 2, depth=2, crash=2, full=1, prefill=999, base="ufxe", time=1500), R("a07_log", 3, depth=1, crash=3, base="ufen", time=600)],
    assumptions=["a torn write is a prefix of one write"],
)

T8 = "INBOX:a:a/b:d"
def A8(bound, pre, menu, depth, inj="", names=T8 + ":e/f", tree=T8, **kw):
    return A(bound, pre, menu, depth, inj, names=names, tree=tree, **kw)

CHECKS["A08"] = dict(
    title="mailbox tree",
    technique="stateless exploration of the real proxy (sc, dirmgr, imaildir) with every mailbox command on small mailbox trees and on all names over small token alphabets, with commands of other sessions at every point and crashes at every file operation, in a directory surrounded by victims",
    level="model_checking", level_note="the real code on real directories; the tree below and around the account's directory is compared after every command",
    bound_text="trees of 4 mailboxes with an inferior, 5 names: all sequences of SELECT, EXAMINE, DELETE, CREATE, APPEND, STATUS, COPY, RENAME, LOGOUT to depth 2 (quick) or 3, overlapping with any of them of another session, with a crash at any file operation; every name of up to 3-4 (quick) tokens of ., /, a and the store's own names, known or unknown to the server",
    quick=[A8(0, "cS0", "SJWPQTZMl", 2, **NOC), A8(0, "cS0", "SWQM", 2, tree="INBOX:a:..:../../o/mail/INBOX:a/cur", names="a:..:../../o/mail/INBOX:a/cur:a/tmp/x", **NOC),
           A8(0, "cS0", "SWPTZ", 2, gen=".,/,a,cur@3", tree="INBOX:a:?", names="?:a", **NOC), A8(0, "cS0", "SWPTQM", 1, gen=".,/,a,.cache@4", tree="INBOX:?", names="?", **NOC),
           A8(0, "cS0", "SWPTZQM", 1, gen=".,/,new,tmp,INBOX,.invalid@3", tree="INBOX:a", names="?:a", **NOC),
           A8(1, "cS1c", "SWMQTZP", 1, "SWMP", sess=3, **NOC), A8(1, "cS1lcS2lcS3lc", "WMP", 2, crash=1, names=T8, **NOC), A8(1, "cS1cS2cS3c", "WMl", 1, "SM", sess=4, **NOC),
           A8(0, "cS0", "SWQMZ", 2, build="asan", **NOC)],
    thorough=[A8(0, "cS0", "SJWPQTZMl", 3, time=900, **NOC), A8(0, "cS1lcS2lcS3lc", "SWMPl", 3, names="INBOX:a:a/b:d:a/c", **NOC), A8(0, "cS0", "SWPTM", 2, gen=".,/,a,tmp,INBOX@4", tree="INBOX:a:?", names="?:a", **NOC),
              A8(0, "cS0", "SWPTZQM", 1, gen=".,/,a,.cache,cur,.invalid@5", tree="INBOX:?", names="?", time=600, **NOC),
              A8(1, "cS1lcS2lcS3lc", "WMPQZ", 2, crash=1, **NOC), A8(2, "cS1lcS2lcS3lc", "WM", 2, crash=2, names=T8, time=600, **NOC), A8(2, "cS1c", "W", 1, "SWMl", names=T8, time=600, **NOC),
              A8(1, "cS1c", "SWMTZl", 2, "SWMTZ", names=T8, time=900, **NOC), A8(1, "cS1cS2cS3c", "WMQZl", 1, "SM", sess=4, time=600)],
    assumptions=["a server answers SELECT with NO only if it does not have the mailbox", "an empty directory may be left when a DELETE or RENAME overlaps with another use of the mailbox"],
)

CHECKS["G02"] = dict(
    title="JSON",
    technique="exhaustive enumeration of JSON texts, cuts, memory sizes, documents and expected shapes on the real parser, writer and reader, against an independent reference parser",
    level="model_checking", level_note="every text over five token alphabets up to the length, each with every cut into two pieces (thorough: three); guard-paged input",
    bound_text="texts: all of up to 6 (thorough 7) tokens of five alphabets of 8-13 tokens (structure, numbers, strings, escapes, literals), every prefix cut; every \\u escape and surrogate pair, every 1-2 byte string; every size of preallocated text and node memory; all documents of depth 1 and 3 members or depth 2, every write position; every pair of document and expected shape of depth 1 (thorough 2)",
    quick=[R("g02_json", mode="text", set=s, len=6) for s in range(5)] + [R("g02_json", mode="text", set=0, len=5, cuts=1), R("g02_json", mode="unicode"), R("g02_json", mode="wstr"),
           R("g02_json", mode="mem", stride=9), R("g02_json", mode="write", width=3, depth=1), R("g02_json", mode="spec", depth=1)],
    thorough=[R("g02_json", mode="text", set=s, len=7, time=300) for s in range(5)] + [R("g02_json", mode="text", set=s, len=5, cuts=1, time=300) for s in range(5)] +
             [R("g02_json", mode="unicode", cuts=1), R("g02_json", mode="wstr"), R("g02_json", mode="mem", time=400), R("g02_json", mode="write", depth=2), R("g02_json", mode="spec", depth=2, time=600)],
    assumptions=["leading zeros and other texts which RFC 8259 leaves to implementations are judged by the RFC grammar"],
)

def T(mode, bound=0, **kw):
    return R("g04_text", bound, mode=mode, **kw)

CHECKS["G03"] = dict(
    title="request nonces",
    technique="stateless exploration of histories of registrations, signed and password requests (waiting and event driven), restarts and damaged files on the real account client, with crashes, torn writes and full disks at every call which changes a file, against a modelled server which checks signatures and keeps each token's last number",
    level="model_checking", level_note="all histories up to the depth with every fate of every request and up to the stated number of crashes or failures anywhere",
    bound_text="6 kinds of steps, 8 fates of each request (lost before or after the server, errors, garbage, refusals), 6 ways to damage the token file: depth 2 (thorough 3) with one crash from 8 earlier numbers up to 2^64-616; depth 3 with up to two crashes; full disks; every call also canceled",
    quick=[R("g03_nonce", 1, depth=2, pre=8), R("g03_nonce", 2, depth=3, fates=1), R("g03_nonce", 1, depth=3, fates=2, full=1), R("g03_nonce", 2, depth=2, full=1, fates=3), R("g03_nonce", 1, depth=2, longname=1), R("g03_nonce", 0, depth=2, menu="cCpPiI", fates=6, arg=1, cancel=1)],
    thorough=[R("g03_nonce", 1, depth=3, time=600), R("g03_nonce", 2, depth=2, pre=8, full=1, time=600), R("g03_nonce", 3, depth=3, fates=2, full=1, time=900), R("g03_nonce", 2, depth=4, fates=1, full=1, time=600), R("g03_nonce", 0, depth=2, menu="cCpPiI", arg=1, cancel=1, pre=2), R("g03_nonce", 1, depth=2, longname=1, full=1), R("g03_nonce", 0, build="asan", depth=2, menu="rcCpPiId", arg=1, cancel=1, time=300)],
    assumptions=["one program uses a token file at a time", "a crash ends the program; what it wrote before reaches the disk in order (there is no fsync before the rename)", "the number never reaches 2^64"],
)
CHECKS["E01"] = dict(
    title="proxied sessions",
    technique="stateless exploration of the whole real proxy core (citm_t with its connection pairs, logins, key exchanges, users, sessions, IMAP servers and clients, key and mail directories) between model IMAP clients and a model IMAP server over modelled streams: the explorer decides the order of events, and where a peer or connection fails or the shutdown comes",
    level="model_checking", level_note="all histories with up to the stated number of deviations from the default order (another enabled event first, a fault, a key change, the shutdown), at any point of the given plans of up to 4 clients and 2 users",
    bound_text="2 deviations (thorough 3 for the small plans) for two users, for logging in while another session ends, with a quick or a lazy server; 1 deviation for 16 more plans with up to 4 clients: logins which wait for the end of the user's earlier sessions, wrong logins, created and refused folders, selected mailboxes, uploads, clients which leave or reset, a device whose key is new to the account",
    quick=[R("e01_citm", 2, plan="0LO,1LCO", keys=0), R("e01_citm", 2, plan="0bLO,0LbNO", lazy=1), R("e01_citm", 2, plan="0LXSNO", lazy=1)] +
          [R("e01_citm", 1, plan=p, **o) for p, o in E01P] + [R("e01_citm", 1, build="asan", plan="0bLSO,0LNbO", lazy=1), R("e01_citm", 0, build="asan", plan="0WLAO,0LXO,1LE")],
    thorough=[R("e01_citm", 2, plan=p, time=240, **o) for p, o in E01P] + [R("e01_citm", 3, plan="0LNO", time=300), R("e01_citm", 3, plan="0LNO", lazy=1, newkey=1, time=300), R("e01_citm", 3, plan="0bLO,0LbO", lazy=1, keys=0, time=600), R("e01_citm", 2, build="asan", plan="0bLO,0LNbO", lazy=1, time=300)],
    assumptions=["streams behave as libduv/stream.h demands", "the server keeps to the protocol, except for the injected failures", "a session which logs in while the key connection of its user fails may fail with it", "keys are 2048-bit keys read once (reading them is most of the time)"],
)
CHECKS["B04"] = dict(
    title="keys of an account and uploads",
    technique="stateless exploration of the whole real proxy core between model clients which upload messages and a model server which holds the keys of each account, tells changes, and opens every upload with the private keys: orders of events, key changes, faults and the shutdown deviate up to the bound",
    level="model_checking", level_note="all histories with up to the stated number of deviations (key changes, another enabled event first, faults, the shutdown) from the default order, at any point of the given plans",
    bound_text="2 deviations (thorough 3) for one client which uploads into a selected mailbox, with a quick and a lazy server, or twice in a row, and for a device new to the account; 1 (thorough 2) for two clients of one or two users; the account has no or one other key at the start, which comes and goes any number of times",
    quick=[R("e01_citm", 2, plan="0LSAO", lazy=1), R("e01_citm", 2, plan="0LAAO"), R("e01_citm", 2, plan="0LAO", peer=1, newkey=1)] +
          [R("e01_citm", 1, plan=p, **o) for p, o in B04P] + [R("e01_citm", 1, build="asan", plan="0LSAO,0LAO", peer=1)],
    thorough=[R("e01_citm", 2, plan=p, time=240, **o) for p, o in B04P] + [R("e01_citm", 3, plan="0LAO", lazy=1, time=400), R("e01_citm", 3, plan="0LAO", peer=1, time=400), R("e01_citm", 3, plan="0LSAO", time=600), R("e01_citm", 2, build="asan", plan="0LSAO", time=300)],
    assumptions=["streams behave as libduv/stream.h demands", "the server tells key changes as the XKEYSYNC extension says", "a key which changes while an upload is under way may or may not be used for it", "keys are 2048-bit keys read once"],
)

CHECKS["E02"] = dict(
    title="certificate manager",
    technique="stateless exploration of the real certificate manager with real files, keys and certificates against modelled ACME and API servers and a modelled clock: fates of every request, order of completions, early timers, kills between events and at every call which changes a file (with torn writes)",
    level="model_checking", level_note="all histories with up to the stated number of deviations (faults, kills, reorderings) from the smooth course, anywhere in the history",
    bound_text="first certificate and one renewal, from an unconfigured or configured start: 2 deviations (thorough 3) out of: 6 fates per request, another order of completions, timers while requests are under way, kills, torn writes, machine off for 70 or 120 days, damaged account file, another domain; servers which do or do not remember old orders; keys which take longer than everything else",
    quick=[R("e02_acme", 2, remembers=1, cycles=2, off=1, loss=1, pre=1), R("e02_acme", 2, cycles=2, slowkey=1, pre=1, dom=1), R("e02_acme", 2, cycles=2, remembers=0, kills=0), R("e02_acme", 3, cycles=1, kills=0, jumps=0, pre=1), R("e02_acme", 1, cycles=3, slowkey=1), R("e02_acme", 0, build="asan", cycles=1), R("e02_acme", 1, build="asan", cycles=1, pre=1, kills=0)],
    thorough=[R("e02_acme", 3, cycles=1, off=1, loss=1, pre=1, time=900), R("e02_acme", 3, cycles=2, pre=1, time=1200), R("e02_acme", 3, cycles=2, slowkey=1, pre=1, kills=0, time=600), R("e02_acme", 2, cycles=2, off=1, loss=1, dom=1), R("e02_acme", 2, cycles=2, remembers=0, off=1), R("e02_acme", 4, cycles=1, kills=0, jumps=0, pre=1, time=600), R("e02_acme", 1, build="asan", cycles=2)],
    assumptions=["a kill ends the process; what it wrote before is on disk in order", "files are not damaged by others, except the account file", "the servers answer after the bounded number of faults", "errors other than those of the network and of the servers end the manager by design and are not injected"],
)

CHECKS["E03"] = dict(
    title="status service",
    technique="stateless exploration of histories of state changes, connects, commands in pieces, hang-ups and closes on the real status server and clients over modelled pipes, with every order of the pending events up to the deviation bound",
    level="model_checking", level_note="all histories of actions up to the depth; the order of pending events, and reads cut short, deviate up to the bound",
    bound_text="2 raw clients with 10 kinds of input: depth 4 with 2 deviations, depth 5 with 1 (thorough 2); clients which never read; a check which changes the state; raw and real clients mixed, 3 clients, depth 4 with 1 (thorough 2), real ones depth 5; every start state; second servers on real sockets",
    quick=[R("e03_status", 2, mode="world", depth=4), R("e03_status", 1, mode="world", depth=5), R("e03_status", 1, mode="world", depth=4, slow=1), R("e03_status", 1, mode="world", depth=4, updcheck=1), R("e03_status", 1, mode="world", depth=4, real=1, mixed=1, clients=3),
           R("e03_status", 1, mode="world", depth=5, real=1)] + [R("e03_status", 0, mode="world", depth=3, st0=i, real=1, mixed=1) for i in range(1, 7)] + [R("e03_status", mode="lock"), R("e03_status", 0, build="asan", mode="world", depth=3, real=1, mixed=1)],
    thorough=[R("e03_status", 2, mode="world", depth=5, time=300), R("e03_status", 1, mode="world", depth=6, time=600), R("e03_status", 2, mode="world", depth=4, slow=1, time=300), R("e03_status", 2, mode="world", depth=4, updcheck=1), R("e03_status", 2, mode="world", depth=4, real=1, mixed=1, clients=3, time=300),
              R("e03_status", 2, mode="world", depth=5, real=1, clients=3, time=600), R("e03_status", 3, mode="world", depth=4, time=600)] + [R("e03_status", 1, mode="world", depth=3, st0=i, real=1, mixed=1) for i in range(1, 7)] + [R("e03_status", mode="lock"), R("e03_status", 1, build="asan", mode="world", depth=4, real=1, mixed=1, time=300)],
    assumptions=["pipes deliver bytes in order; libuv completes what is under way before a close", "whether a check command of a client which hung up right away is passed on is not judged"],
)

CHECKS["G04"] = dict(
    title="text building",
    technique="exhaustive enumeration of inputs, buffer sizes and failing allocations/system calls on the real text functions, against byte-wise references",
    level="model_checking", level_note="every input over small alphabets up to the length, every buffer size around it, on guard-paged buffers",
    bound_text="every format of 5 items in buffers of every size; all sequences of 6 operations on fixed, heap and unowned buffers; all texts of 9 bytes (search, replace, split, match), base64 of 10, hex of 7, numbers of 5 (thorough 6) characters over digit/sign alphabets around every type's limits, every code point, utf8 of 5 and utf16 of 7 units, url of 5-6 and address of 6 tokens; every failing read, write and allocation",
    quick=[T("fmt", len=5), T("fault"), T("append", depth=6), T("find", len=9), T("cmp", len=3), T("list", depth=6), T("b64", len=6), T("unb64", len=10), T("hex", len=7), T("num", len=5), T("float"),
           T("utf8", len=5), T("ucs"), T("utf16", len=7), T("sb"), T("io", 1, b=1), T("url", len=5), T("addr", len=6), T("ctx")],
    thorough=[T("fmt", len=6), T("fault"), T("append", depth=7, time=300), T("find", len=11, time=400), T("cmp", len=4), T("list", depth=8, time=300), T("b64", len=9), T("unb64", len=12, time=300), T("hex", len=9, time=200), T("num", len=6),
           T("float"), T("utf8", len=6), T("ucs"), T("utf16", len=9), T("sb"), T("io", 2, b=2), T("url", len=6), T("addr", len=8, time=300), T("ctx")],
    assumptions=["characters outside the base64 alphabet are skipped when decoding (documented)", "a search pattern is not empty"],
)

CHECKS["A09"] = dict(
    title="SEARCH",
    technique="exhaustive enumeration of message sets, search key trees, header/body texts and key counts through the real parser and search evaluation, against an independent reference evaluation",
    level="model_checking", level_note="every input of the families up to the bound through the real IMAP parser, sequence set and search code on a real mailbox view",
    bound_text="message sets of 2 (thorough 3) ranges over numbers, * and out-of-range values, by sequence number and UID, on mailboxes of several shapes; every tree of up to 2 (thorough 3) AND/OR/NOT operators over one key of each kind; header, body and text searches of all small token texts; up to 2000 keys and nesting to far beyond the limit",
    quick=[R("a09_search", mode="sets", len=2), R("a09_search", mode="sets", len=2, kinds="tTcC"), R("a09_search", mode="expr", ops=2), R("a09_search", mode="text", len=64), R("a09_search", mode="keys"), R("a09_search", mode="deep", max=120),
           R("a09_search", mode="deep", max=4, step=250000), R("a09_search", build="asan", mode="expr", ops=1), R("a09_search", build="asan", mode="keys")],
    thorough=[R("a09_search", mode="sets", len=3, kinds="sSuUfFtTcC", time=300), R("a09_search", mode="expr", ops=3), R("a09_search", mode="text", len=64), R("a09_search", mode="keys"), R("a09_search", mode="deep", max=400), R("a09_search", mode="deep", max=8, step=250000),
              R("a09_search", build="asan", mode="expr", ops=2), R("a09_search", build="asan", mode="keys")],
    assumptions=["folding white space inside a searched header text is not judged", "a search nested a hundred deep or more may be refused"],
)

CHECKS["B01"] = dict(
    title="message encryption",
    technique="exhaustive enumeration of key sets, message lengths, chunkings, truncations and single alterations on the real streaming encrypter and decrypter",
    level="model_checking", level_note="every element of the families; randomness is a fixed stream so that every case replays",
    bound_text="key sets of 0-24 small and 0-5 large keys, every ordered list of 1-4 (thorough 5) of six keys of three sizes; lengths 0..200 and around every buffer border; every cut of message and output into two pieces (quick: every third), every truncation, every single-character alteration (3 replacements per position), every tag length, metadata of every 5 (thorough 6) tokens, metadata of every length around the limit",
    quick=[R("b01_crypto", mode=m) for m in ("keys", "order", "len", "cuts", "alter", "tag", "meta", "long")],
    thorough=[R("b01_crypto", mode="keys", small=40, large=10)] + [R("b01_crypto", mode=m) for m in ("len", "alter", "tag", "long")] + [R("b01_crypto", mode="order", max=5)] + [R("b01_crypto", mode="cuts", step=1, time=600), R("b01_crypto", mode="meta", len=6, time=900), R("b01_crypto", build="asan", mode="meta", len=4, time=600)],
    assumptions=["the list of recipients of a message is not authenticated by its format: removing another recipient's entry is not an alteration of the message", "characters outside the base64 alphabet are skipped when decoding"],
)

CHECKS["B02"] = dict(
    title="downloaded messages",
    technique="exhaustive enumeration of downloaded messages (token texts, truncations and alterations of encrypted messages, metadata tokens) through the real key directory's processing, against a reference classification",
    level="model_checking", level_note="every message of the families through keydir's processing with real keys and files",
    bound_text="unencrypted messages: every sequence of 5 (thorough 6) of 10 tokens; encrypted ones: every key set x truncation x alteration; metadata: every sequence of 4 (thorough 5) tokens",
    quick=[R("b02_keydir", mode="plain", len=5), R("b02_keydir", mode="enc"), R("b02_keydir", mode="meta", len=4)],
    thorough=[R("b02_keydir", mode="plain", len=6), R("b02_keydir", mode="plain", len=7, time=300), R("b02_keydir", mode="enc"), R("b02_keydir", mode="meta", len=5), R("b02_keydir", build="asan", mode="enc", time=600), R("b02_keydir", build="asan", mode="plain", len=4)],
    assumptions=["altering the recipient list may turn a message into one for other devices (it is not authenticated)", "an unencrypted message with neither a Subject nor the end of its headers passes unchanged"],
)

CHECKS["B03"] = dict(
    title="key announcements",
    technique="stateless exploration of the real key directory and fingerprint store over histories of key lists, syncs, decryptions and restarts, with crashes, torn writes, full disks and failing injections at every point, against a reference of known keys",
    level="model_checking", level_note="all histories up to the depth with up to the stated number of crashes or failures anywhere",
    bound_text="16 kinds of steps (4 key appearances, 2 disappearances, key list complete, two mailboxes complete, 6 kinds of messages, restart): depth 3 without faults, depth 2-3 with one and depth 1 with two; loss or corruption of the device's own key file with up to two faults; and in the whole proxy, a key which comes or goes at any point of a session of one or two clients (1 or 2 deviations)",
    quick=[R("b02_keydir", mode="fpr", depth=3), R("b02_keydir", 1, mode="fpr", depth=2, inject=1), R("b02_keydir", 1, mode="fpr", depth=1, pre=1, inject=1, full=1), R("b02_keydir", 1, mode="fpr", depth=1, pre=2, inject=1, full=1),
           R("b02_keydir", 2, mode="fpr", depth=1, inject=1), R("b02_keydir", 1, mode="fpr", depth=3, menu="01469ad", inject=1), R("b02_keydir", 2, mode="mykey"),
           R("e01_citm", 1, plan="0LNO,0LO"), R("e01_citm", 1, plan="0LNO", peer=1), R("e01_citm", 2, plan="0LO", lazy=1)],
    thorough=[R("b02_keydir", mode="fpr", depth=4, time=300), R("b02_keydir", 1, mode="fpr", depth=3, inject=1, full=1, time=900), R("b02_keydir", 2, mode="fpr", depth=2, inject=1, time=900), R("b02_keydir", 2, mode="fpr", depth=2, pre=1, inject=1, full=1, time=600),
              R("b02_keydir", 1, mode="fpr", depth=4, menu="01469ad", inject=1, time=600), R("b02_keydir", 3, mode="mykey"), R("b02_keydir", build="asan", mode="fpr", depth=2, time=300)],
    assumptions=["keys named by messages of mailboxes which were never complete before are remembered without a warning (by design)", "a key file which cannot be parsed is deleted and fetched again"],
)
CHECKS["C01"] = dict(
    title="stream layers",
    technique="explicit-state exploration of every stream layer's real code between a nondeterministic user (reads, writes, shutdown, cancel, await, from callbacks, too) and a nondeterministic base (every split, delay, end, failure), the pass-through stream and scheduler on a controlled libuv",
    level="model_checking", level_note="all interleavings of user, scheduler and base within the stated sizes; states reached twice are explored once",
    bound_text="sources of 0-5 bytes, 1-2 reads outstanding (limit 3), 1-3 concatenated bases, chunked bodies of all shapes up to two chunks with all cuts, 2-3 writes (1-11 when filling the write pool), one failure and one cancellation at any moment",
    quick=[R("c01_streams", mode="dstr"), R("c01_streams", mode="concat"), R("c01_streams", mode="concat", bases=1, out=3), R("c01_streams", mode="limit", out=2, sizes=3), R("c01_streams", mode="chunked", out=1), R("c01_streams", mode="borrow"), R("c01_streams", mode="reader"),
           R("c01_passthru", mode="dstr"), R("c01_passthru", mode="passthru"), R("c01_passthru", mode="passthru", out=2), R("c01_passthru", mode="passthru", pre=7, writes=2, len=2), R("c01_passthru", mode="passthru", out=2, big=1, len=2), R("c01_passthru", mode="passthru", pre=9, big=1, writes=2, len=2, sync=0, eagain=0)],
    thorough=[R("c01_streams", mode="concat", bases=3, out=2, time=300), R("c01_streams", mode="limit", out=3, sizes=3), R("c01_streams", mode="chunked", out=2, time=600), R("c01_streams", mode="chunked", sizes=1, time=600), R("c01_passthru", mode="passthru", len=5, out=2, writes=3, set_bits=27, time=600), R("c01_passthru", mode="passthru", out=2, sizes=2, writes=3, big=1, set_bits=27, time=600),
              R("c01_passthru", mode="passthru", pre=9, big=1, set_bits=26, time=300), R("c01_passthru", mode="passthru", fails=2, eagain=2, out=2), R("c01_streams", build="asan", mode="chunked", out=1, time=300), R("c01_passthru", build="asan", mode="passthru", time=200)],
    assumptions=["libuv keeps its documented contract", "a stream is not read again after its end, nor written after its shutdown"],
)
CHECKS["C02"] = dict(
    title="TLS connections",
    technique="stateless exploration with a deviation bound of two real TLS streams joined by a modelled byte pipe with deterministic randomness; exhaustive enumeration of cuts, altered bytes, record manipulations and certificates on one schedule",
    level="model_checking", level_note="all schedules within the deviation bound; all positions on the fixed schedule",
    bound_text="up to 2 deviations (thorough 3) from the default schedule among scheduler turns, partial deliveries, stalled and completed writes, user actions of both ends, cuts, failures and cancellations, TLS 1.2 and 1.3, STARTTLS with early bytes; every cut, every byte altered two ways, every record dropped, repeated, forged or replayed; 20 certificates x 8 names",
    quick=[R("c02_tls", mode="cert"), R("c02_tls", mode="cut"), R("c02_tls", mode="flip"), R("c02_tls", mode="record"), R("c02_tls", 2, mode="sched"), R("c02_tls", 2, mode="sched", tls=0, big=1, stall=0), R("c02_tls", 1, mode="sched", unit=9000, rsize=4096, tls=0), R("c02_tls", 1, mode="sched", unit=5000, rsize=4096, big=0, out=2), R("c02_tls", 1, mode="sched", pre=0), R("c02_tls", 1, mode="sched", pre=0, tls=0)],
    thorough=[R("c02_tls", mode="flip", masks=4), R("c02_tls", 3, mode="sched", time=900), R("c02_tls", 2, mode="sched", tls=0, big=1), R("c02_tls", 2, mode="sched", unit=9000, rsize=4096, tls=0, time=300), R("c02_tls", 2, mode="sched", unit=5000, rsize=4096, out=2, time=300), R("c02_tls", 2, mode="sched", pre=0, time=600), R("c02_tls", 1, build="asan", mode="sched", big=1)],
    assumptions=["OpenSSL's own record protection and certificate path validation are exercised, not re-verified", "a closing alert queued behind a transport write which is still in flight may be dropped when both directions are closed: the other side then sees a reset, never a silent end", "a wildcard is allowed to match several labels by the client's stated policy; not judged"],
)
CHECKS["D01"] = dict(
    title="writing IMAP",
    technique="exhaustive enumeration of commands and responses with awkward strings in every position, written by the real writer whole and in pieces of every size, checked by an independent framing of the text and read back by the real reader with every cut",
    level="model_checking", level_note="every element of the family",
    bound_text="25 kinds of commands and 17 kinds of responses, one string position at a time over about 70 awkward strings (or 27 atoms, 33 texts), with flags, sets, dates and modifiers varied jointly; every string of one or two bytes in one position of each kind (thorough: in every position); output in pieces of every size; every cut in two",
    quick=[R("d01_imap", mode="round", small=1, few=1), R("d01_imap", mode="bytes", quick=1)],
    thorough=[R("d01_imap", mode="round", time=600), R("d01_imap", mode="round", small=3, few=3, time=600), R("d01_imap", mode="bytes", time=600), R("d01_imap", build="asan", mode="round", small=1, few=1, time=600), R("d01_imap", build="asan", mode="bytes", quick=1, time=600)],
    assumptions=["values which IMAP cannot express (NUL bytes, line breaks in text, 8-bit atoms) may be refused by the writer", "the separator of a LIST response NIL is read as a zero separator"],
)
CHECKS["D02"] = dict(
    title="reading IMAP",
    technique="exhaustive enumeration of texts (golden lines with reviewed meanings under every pair of cuts, every keyword in every word position, every one-token alteration, all token sequences to a depth) through the real readers, driven as a peer which sends literals only when asked",
    level="model_checking", level_note="every element of the families",
    bound_text="77 command and 57 response texts with every pair of cuts; 132 words with 26 suffixes and 9 prefixes in 31 places; every deletion, truncation, insertion or replacement with 41 tokens at every position of each text; 50 beginnings followed by every sequence of 2 (thorough 3) of 41 tokens; STARTTLS followed by anything at every pair of cuts",
    quick=[R("d02_imap", mode=m) for m in ("corpus", "words", "starttls", "alter", "tokens")],
    thorough=[R("d02_imap", mode="words", cuts=1), R("d02_imap", mode="alter", cuts=1), R("d02_imap", mode="tokens", depth=3, time=600)] + [R("d02_imap", build="asan", mode=m, time=600) for m in ("corpus", "words", "alter", "tokens")],
    assumptions=["8-bit characters in atoms are let through by the reader", "a response which ends the session does so however it is cut; the responses before it in the same packet need not be reported", "literals announced with more than 4096 bytes are not followed up"],
)
CHECKS["D03"] = dict(
    title="taking messages apart",
    technique="exhaustive enumeration of messages built together with the list of what their parts are (header token sequences, part trees, addresses, junk), uploaded to a modelled server, and fetched by a client through the real proxy with every section, suffix, partial range and item combination, each answer compared byte by byte; delivery of the message content cut anywhere, message files which fail to open or read",
    level="model_checking", level_note="every element of the families through the real mailbox code",
    bound_text="headers: every sequence of 5 (thorough 6) of 8 tokens; part trees of up to 2 (thorough 3) nodes over plain, multipart, message/rfc822 and malformed parts, with every style of boundary and line end for 1 (thorough 2) nodes; every section of every part, 3 (thorough 4) FETCH items at once, every partial range up to 40 x 40; nesting to 8 fully, and to thousands of levels; 20000 header fields, addresses or parts; every address form in every field; every sequence of 4 (thorough 5) junk tokens",
    quick=[R("d03_fetch", mode="hdrs", len=5), R("d03_fetch", mode="hdrs", len=5, toks=8), R("d03_fetch", mode="mime", nodes=2), R("d03_fetch", mode="mime", nodes=1, style=1), R("d03_fetch", mode="mime", nodes=2, style=1), R("d03_fetch", mode="items", items=3), R("d03_fetch", mode="deep", max=8), R("d03_fetch", mode="many", n=2000), R("d03_fetch", mode="junk", len=4)] + [R("d03_fetch", mode=m) for m in ("partial", "chunk", "io", "env")] + [R("d03_fetch", build="asan", mode=m, **o) for m, o in (("io", {}), ("mime", dict(nodes=2)), ("items", dict(items=2)), ("deep", dict(max=8)), ("chunk", {}))],
    thorough=[R("d03_fetch", mode="hdrs", len=6), R("d03_fetch", mode="hdrs", len=7, time=600), R("d03_fetch", mode="mime", nodes=3, time=600), R("d03_fetch", mode="mime", nodes=3, style=1, time=900), R("d03_fetch", mode="items", items=4, time=600), R("d03_fetch", mode="many", n=20000), R("d03_fetch", mode="junk", len=5, time=600)]
        + [R("d03_fetch", build="asan", mode=m, time=300, **o) for m, o in (("hdrs", dict(len=5)), ("mime", dict(nodes=2, style=1)), ("items", dict(items=2)), ("partial", {}), ("deep", dict(max=8)), ("chunk", {}), ("env", {}), ("junk", dict(len=4)))],
    assumptions=["a multipart without its closing boundary, groups in From and mixtures of line ends inside a boundary line have no single right reading and are not judged", "time taken by messages with very many fields is not judged"],
)
