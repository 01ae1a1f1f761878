// F03/F01: the DNS server's packet handling (server/dns/main.c) with two
// peers: challenge answers combine the receivers, acks go to the right peer,
// every packet is answered at most once, buffers are never lost.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#define BUILD_TEST
#include "server/dns/main.c"
#include "mc/mc.h"

#define NPEERS 2
static globals_t *g;
static link_t sends;
static bool recving_dns, recving_sync;
static xtime_t vnow;
xtime_t __wrap_xtime(void);
xtime_t __wrap_xtime(void){ return vnow; }



static derr_t recv_start(uv_udp_t *u, uv_alloc_cb a, uv_udp_recv_cb r){
    (void)a; (void)r;
    if(g && u == &g->dns_udp){ recving_dns = true; }
    else if(g) recving_sync = true;
    return E_OK;
}
static int recv_stop(uv_udp_t *u){
    if(u == &g->dns_udp) recving_dns = false; else recving_sync = false;
    return 0;
}
static derr_t udp_send(uv_udp_send_t *req, uv_udp_t *udp, const uv_buf_t bufs[],
        unsigned int nbufs, const struct sockaddr *dst, uv_udp_send_cb cb){
    membuf_t *m = CONTAINER_OF(req, membuf_t, req);
    MC_CHECK(nbufs == 1, "nbufs", "nbufs");
    MC_CHECK(bufs[0].base == m->resp && bufs[0].len <= sizeof(m->resp), "resp-buf", "response outside its buffer");
    MC_CHECK(addr_eq(dst, ss2sa(&m->ss)), "dst", "destination not kept");
    req->handle = udp;
    req->cb = cb;
    req->bufsml[0].len = bufs[0].len;
    link_list_append(&sends, &m->link);
    return E_OK;
}

static int nsends(void){
    int n = 0;
    for(link_t *l = sends.next; l != &sends; l = l->next) n++;
    return n;
}
static int nfree(void){
    int n = 0;
    for(link_t *l = g->membufs.next; l != &g->membufs; l = l->next) n++;
    return n;
}

static struct sockaddr_storage addr(const char *a, uint16_t port){
    struct sockaddr_storage ss;
    derr_t e = read_addr(&ss, a, port);
    if(is_error(e)) mc_error("addr");
    return ss;
}

static void invariant(void){
    MC_CHECK(nfree() + nsends() == NMEMBUFS, "membuf-lost", "%d free + %d in flight", nfree(), nsends());
    if(!g->closing){
        bool want = nfree() > 0;
        MC_CHECK(recving_dns == want && recving_sync == want, "recving",
            "receiving dns=%d sync=%d with %d free buffers", recving_dns, recving_sync, nfree());
    }
}

// finish the oldest send
static void finish(int status){
    link_t *l = link_list_pop_first(&sends);
    membuf_t *m = CONTAINER_OF(l, membuf_t, link);
    m->req.cb(&m->req, status);
}

static int deliver(uv_udp_t *udp, const struct sockaddr *src, const void *p, size_t n, ssize_t nread, unsigned flags){
    uv_buf_t buf;
    allocator(duv_udp_handle(udp), 65536, &buf);
    if(!buf.base){ on_recv(udp, UV_ENOBUFS, &buf, NULL, 0); return -1; }
    if(n > buf.len) mc_error("too long");
    if(n) memcpy(buf.base, p, n);
    int before = nsends();
    on_recv(udp, nread, &buf, src, flags);
    int d = nsends() - before;
    MC_CHECK(d == 0 || d == 1, "answers", "%d sends for one packet", d);
    return d;
}

static membuf_t *last_send(void){ return CONTAINER_OF(sends.prev, membuf_t, link); }

// ---- model
typedef struct { bool acked, synced; uint32_t sync_id, upd; xtime_t expiry; uint32_t ins[2]; char val[2]; } peer_t;
static peer_t P[NPEERS];
static struct sockaddr_storage peers[NPEERS];
static int clientno;

static void kvp_send(int p, kvp_update_t u, bool stranger){
    DSTR_VAR(w, 1024);
    derr_t e = kvpsync_update_write(&u, &w);
    if(is_error(e)) mc_error("update_write");
    struct sockaddr_storage src = stranger ? addr("127.0.0.1", 7777) : peers[p];
    int d = deliver(&g->sync_udp, ss2sa(&src), w.data, w.len, (ssize_t)w.len, 0);
    if(stranger){ MC_CHECK(d == 0, "stranger", "answered an update from a stranger"); return; }
    MC_CHECK(d == 1, "no-ack", "no ack for an update");
    membuf_t *m = last_send();
    MC_CHECK(m->req.handle == &g->sync_udp && addr_eq(ss2sa(&m->ss), ss2sa(&peers[p])), "ack-dst", "ack to the wrong peer");
    dstr_t rb; DSTR_WRAP(rb, m->resp, m->req.bufsml[0].len, false);
    kvp_ack_t a;
    MC_CHECK(kvpsync_ack_read(rb, &a), "ack", "unreadable ack");
    bool resync = !P[p].acked && !(u.type == KVP_UPDATE_START && u.resync_id == g->recv[p].recv_id);
    uint32_t ws = resync ? g->recv[p].recv_id : u.sync_id, wu = resync ? 0 : u.update_id;
    MC_CHECK(a.sync_id == ws && a.update_id == wu, "ack-ids", "ack %x/%x expected %x/%x", a.sync_id, a.update_id, ws, wu);
}
static kvp_update_t upd(int p, kvp_update_type_e t){
    return (kvp_update_t){ .sync_id = P[p].sync_id, .update_id = ++P[p].upd, .type = t,
        .ok_expiry = P[p].synced ? vnow + 15*SECOND : 0 };
}

static void query(const char *user, int key){
    unsigned char q[256]; size_t n = 12;
    memset(q, 0, sizeof(q)); q[0] = 0x12; q[1] = (unsigned char)clientno; q[5] = 1;
    const char *labs[] = {"_acme-challenge", user, "user", "splintermail", "com"};
    for(int i = 0; i < 5; i++){ size_t l = strlen(labs[i]); q[n++] = (unsigned char)l; memcpy(q + n, labs[i], l); n += l; }
    q[n++] = 0; q[n++] = 0; q[n++] = 16; q[n++] = 0; q[n++] = 1;
    char a[32]; clientno++; snprintf(a, sizeof(a), "10.%d.%d.1", clientno / 250, clientno % 250);
    struct sockaddr_storage src = addr(a, 5353);
    int d = deliver(&g->dns_udp, ss2sa(&src), q, n, (ssize_t)n, 0);
    MC_CHECK(d == 1, "no-response", "query unanswered");
    membuf_t *m = last_send();
    MC_CHECK(m->req.handle == &g->dns_udp && addr_eq(ss2sa(&m->ss), ss2sa(&src)), "resp-dst", "response to the wrong client");
    dns_pkt_t pkt;
    MC_CHECK(!is_bad_parse(parse_pkt(&pkt, m->resp, m->req.bufsml[0].len)), "resp", "malformed response");
    // expected
    char want = 0; bool no = false;
    for(int p = 0; p < NPEERS; p++){
        if(!P[p].synced) continue;
        if(key >= 0 && P[p].ins[key]){ if(!want) want = P[p].val[key]; }
        else if(vnow < P[p].expiry) no = true;
    }
    int got = pkt.hdr.rcode == 2 ? 2 : pkt.hdr.rcode == 0 && pkt.hdr.ancount == 1 ? 1 : pkt.hdr.rcode == 0 && pkt.hdr.ancount == 0 ? 0 : 3;
    int exp = want ? 1 : no ? 0 : 2;
    MC_CHECK(got == exp, "answer", "query for %s: got %s expected %s", user,
        (char*[]){"no","yes","unsure","other"}[got], (char*[]){"no","yes","unsure"}[exp]);
    if(want){
        rrs_t it; rr_t *rr = dns_rr_iter(&it, pkt.ans);
        char v = rr->ptr[rr->rdoff + 1];
        bool ok = rr->rdlen == 2 && rr->ptr[rr->rdoff] == 1;
        bool any = false;
        for(int p = 0; p < NPEERS; p++) if(P[p].synced && P[p].ins[key] && P[p].val[key] == v) any = true;
        MC_CHECK(ok && any, "value", "answered with a wrong value");
    }
    mc_outcome(mc_hash_u((uint64_t)got, (uint64_t)want));
}

static void ask_all(void){
    query("x", 0); invariant(); finish(0); invariant();
    query("X", 0); finish(0);
    query("yY", 1); finish(0);
    query("z", -1); finish(0);
    invariant();
}

static derr_t runloop(uv_loop_t *loop){
    derr_t e = E_OK;
    g = (globals_t*)loop->data;
    recving_dns = recving_sync = true;
    PROP(&e, duv_run(loop) );
    // initial resync requests
    MC_CHECK(nsends() == NPEERS, "initial", "%d initial resyncs", nsends());
    for(int p = 0; p < NPEERS; p++){
        membuf_t *m = CONTAINER_OF(sends.next, membuf_t, link);
        MC_CHECK(addr_eq(ss2sa(&m->ss), ss2sa(&peers[p])), "initial", "initial resync to the wrong peer");
        finish(0);
    }
    invariant();
    ask_all();
    int depth = (int)mc_opt("depth", 4);
    static const char v[] = "abcdefgh";
    for(int d = 0; d < depth && !g->closing; d++){
        unsigned ev = mc_choose(14, "event");
        int p = ev & 1;
        switch(ev){
            case 0: case 1: // full sync with what the peer has: here nothing, then key 0
                P[p] = (peer_t){ .acked = P[p].acked, .synced = P[p].synced, .expiry = P[p].expiry, .sync_id = 100 + 10 * (uint32_t)d + (uint32_t)p };
                bool was = P[p].synced; P[p].synced = false;
                kvp_update_t u = upd(p, KVP_UPDATE_START);
                u.resync_id = g->recv[p].recv_id;
                kvp_send(p, u, false); finish(0); P[p].acked = true;
                u = upd(p, KVP_UPDATE_INSERT);
                u.klen = 1; u.key[0] = 'x'; u.vlen = 1; u.val[0] = v[d % 8];
                kvp_send(p, u, false); finish(0);
                u = upd(p, KVP_UPDATE_FLUSH);
                u.ok_expiry = vnow + 15*SECOND;
                kvp_send(p, u, false); finish(0);
                (void)was;
                P[p].synced = true; P[p].ins[0] = 2; P[p].val[0] = v[d % 8];
                if(P[p].expiry < u.ok_expiry) P[p].expiry = u.ok_expiry;
                break;
            case 2: case 3: // insert key 1
                if(!P[p].synced || P[p].ins[1]){
                    kvp_send(p, (kvp_update_t){ .sync_id = 7, .update_id = 9, .type = KVP_UPDATE_EMPTY }, false); finish(0);
                    break;
                }
                u = upd(p, KVP_UPDATE_INSERT);
                u.klen = 2; memcpy(u.key, "yy", 2); u.vlen = 1; u.val[0] = v[d % 8];
                kvp_send(p, u, false); finish(0);
                P[p].ins[1] = u.update_id; P[p].val[1] = v[d % 8]; P[p].expiry = u.ok_expiry;
                break;
            case 4: case 5: // delete key 0 or 1
                for(int k = 0; k < 2; k++) if(P[p].synced && P[p].ins[k]){
                    u = upd(p, KVP_UPDATE_DELETE);
                    u.klen = (uint8_t)(k ? 2 : 1); memcpy(u.key, k ? "yy" : "x", 2); u.delete_id = P[p].ins[k];
                    kvp_send(p, u, false); finish(0);
                    P[p].ins[k] = 0; P[p].expiry = u.ok_expiry;
                    break;
                }
                break;
            case 6: vnow += 20 * SECOND; break;
            case 7: vnow += 14 * SECOND; break;
            case 8: // stranger
                kvp_send(0, (kvp_update_t){ .sync_id = P[0].sync_id, .update_id = 77, .type = KVP_UPDATE_INSERT, .klen = 1, .key = "z", .vlen = 1, .val = "q" }, true);
                break;
            case 9: { // malformed update, empty read, partial, cancelled
                struct sockaddr_storage s = peers[0];
                MC_CHECK(deliver(&g->sync_udp, ss2sa(&s), "\xff\xff\xff", 3, 3, 0) == 0, "bad-update", "answered garbage");
                MC_CHECK(deliver(&g->sync_udp, NULL, "", 0, 0, 0) == 0, "bad-update", "answered nothing");
                MC_CHECK(deliver(&g->dns_udp, NULL, "", 0, UV_ECANCELED, 0) == 0, "bad-update", "answered a cancel");
                MC_CHECK(deliver(&g->dns_udp, ss2sa(&s), "aaaaaaaaaaaaaaaaaa", 18, 18, UV_UDP_PARTIAL) == 0, "partial", "answered a partial packet");
                MC_CHECK(deliver(&g->dns_udp, ss2sa(&s), "aaaaaaaaaaaaaaaaaa", 18, 18, 0) == 0, "bad-dns", "answered garbage");
                MC_CHECK(!g->closing, "closed", "closed by a malformed packet");
                break;
            }
            case 10: { // buffers run out, then come back in any amount
                int n = 0;
                while(nfree() > 0){ query("z", -1); n++; invariant(); }
                unsigned back = mc_choose(3, "back");
                static const int amount[] = {1, 2, NMEMBUFS};
                for(int i = 0; i < amount[back] && nsends(); i++){ finish(0); invariant(); }
                while(nfree() > 0 && back < 2){ query("x", 0); invariant(); }
                while(nsends()){ finish(0); invariant(); }
                break;
            }
            case 11: { // a send fails in a way that must not matter
                static const int st[] = {UV_ECANCELED, UV_EDESTADDRREQ, -ENOKEY};
                query("x", 0); finish(st[mc_choose(3, "status")]); invariant();
                MC_CHECK(!g->closing, "closed", "closed by a harmless send failure");
                break;
            }
            case 12: { // one client asks too much
                struct sockaddr_storage s = addr("9.9.9.9", 99);
                vnow += SECOND;
                unsigned char q[] = "\0\1\0\0\0\1\0\0\0\0\0\0\4user\14splintermail\3com\0\0\6\0\1";
                for(int i = 0; i < 12; i++){
                    int r = deliver(&g->dns_udp, ss2sa(&s), q, sizeof(q) - 1, (ssize_t)sizeof(q) - 1, 0);
                    MC_CHECK(r == (i < 8), "rrl", "request %d in one second: %d answers", i + 1, r);
                    if(r) finish(0);
                    invariant();
                }
                break;
            }
            case 13: // fatal send failure closes, nothing is lost
                query("x", 0); query("z", -1);
                finish(UV_EIO);
                MC_CHECK(g->closing, "not-closed", "fatal send failure ignored");
                finish(UV_ECANCELED);
                MC_CHECK(nfree() == NMEMBUFS, "membuf-lost", "buffers lost in close");
                break;
        }
        if(!g->closing) ask_all();
    }
    while(nsends()) finish(0);
    bool failed = g->closing;
    if(!g->closing) dns_close(g, E_OK);
    mc_outcome(failed);
    PROP(&e, duv_run(loop) );
    return e;
}

static void run(void){
    g = NULL; memset(P, 0, sizeof(P)); clientno = 0; vnow = 1000 * SECOND + 5;
    link_init(&sends);
    peers[0] = addr("127.0.0.1", 9912); peers[1] = addr("127.0.0.1", 9913);
    int a = socket(AF_INET, SOCK_DGRAM, 0), b = socket(AF_INET, SOCK_DGRAM, 0), none = -1;
    addrspec_t spec = must_parse_addrspec(&DSTR_LIT("localhost:9910"));
    derr_t e = dns_main(spec, &a, &none, spec, &b, peers, NPEERS, 9973);
    DROP_VAR(&e);
}

int main(int argc, char **argv){
    mc_harness_t h = { .name = "f03_server", .run = run, .exec_timeout = 20 };
    return mc_main(argc, argv, &h);
}
