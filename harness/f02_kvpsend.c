// F02: kvpsend.  The whole program (main.c's event handling, kvpsend.c, the real
// kvpsync senders) over a modelled event loop, with real kvpsync receivers as its
// peers, a modelled database and modelled clients.  Time is virtual.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include "mc/mc.h"
#define printf(...) ((void)0)
#define main kvpsend_main
int kvpsend_main(int argc, char **argv);
#include "server/kvpsend/main.c"
#undef main
#undef printf

#define MSx 1000000ull
#define NP 2
#define ND 2
static const char *DOM[ND] = { "bb", "mm" };
#define NV 3
static const char *VAL[NV] = { "", "one", "two" };

static uv_kvpsend_t U;

// ------------------------------------------------------------------- world
typedef struct {
    bool up, restarted, routeless;
    kvpsync_recv_t r;
    struct sockaddr_storage ss;
    bool flushed; uint32_t cur_sync;
    xtime_t t_down, t_up;     // since when
} peer_t;
typedef struct {
    bool used, uv, reading, closing, closed, hup, got_stop;
    uv_pipe_t *h; uv_alloc_cb alloc; uv_read_cb rcb; uv_close_cb ccb;
    char in[700]; size_t nin, at; bool eof_told;
    char out[256]; size_t nout; int nresp;
    uv_write_t *w; uv_write_cb wcb; int wstatus; bool wpend; uv_buf_t wbuf; char wcopy[256];
    // what it asked for
    int dom, val; bool valid, health, complete; xtime_t asked; bool judged; bool decided;
} cl_t;
#define MAXC 12
typedef struct { bool to_peer; int p; char b[700]; size_t n; xtime_t at; } pk_t;
typedef struct { int kind, i; } ev_t;
enum { E_ACC = 1, E_READ, E_WDONE, E_CLOSED, E_HCLOSED, E_SENT, E_PKT };

static struct {
    xtime_t now;
    peer_t p[NP]; int np;
    int db[ND], seen[ND];       // the database; what the program saw of it last
    int nextdberr, wasdberr;
    cl_t c[MAXC]; int nc;
    ev_t ev[64]; int nev;
    pk_t pk[32]; int npk;
    // handles
    struct { uv_timer_t *t; uv_timer_cb cb; bool on; xtime_t due; uint64_t seq; } t[8]; int nt; uint64_t tseq;
    struct { uv_handle_t *h; uv_close_cb cb; } hc[16]; int nhc;
    uv_udp_t *udp; uv_alloc_cb ua; uv_udp_recv_cb ur; bool udp_closing;
    struct { uv_udp_send_t *req; uv_udp_send_cb cb; int status; } snd[NP];
    uv_pipe_t *lst; uv_connection_cb lcb; bool lclosing, llisten;
    int acc[MAXC], nacc;
    bool active, scanning, dead, shutdown;
    bool faults, prev, prev_ran; xtime_t started;
    uint64_t nevents;
} g;

xtime_t __wrap_xtime(void); xtime_t __wrap_xtime(void){ return g.now; }
static unsigned fault(unsigned n, const char *l){ return g.faults ? mc_dev(n, l) : 0; }
static uint32_t rnd;
derr_t __wrap_urandom_bytes(dstr_t *out, size_t count);
derr_t __wrap_urandom_bytes(dstr_t *out, size_t count){
    rnd = rnd * 1664525u + 1013904223u;
    uint32_t v = rnd | 0x10000u;
    for(size_t i = 0; i < count; i++) out->data[i] = (char)(v >> (8*(i%4)));
    out->len = count;
    return E_OK;
}
static void post(int kind, int i){
    for(int j = 0; j < g.nev; j++) if(g.ev[j].kind == kind && g.ev[j].i == i) return;
    if(g.nev == 64) mc_error("events");
    g.ev[g.nev++] = (ev_t){ kind, i };
}

// --------------------------------------------------------------- database
static void uuid_of(int d, char out[32]){ memset(out, 'A' + d, 32); }
static derr_t db_err(void){ derr_t e = E_OK; ORIG(&e, E_SQL, "the database went away"); return e; }
static int it_at;
static bool db_fails(void){ if(g.nextdberr > 0 && --g.nextdberr == 0){ g.wasdberr = 1; return true; } return false; }
static void it_set(challenge_iter_t *it){
    while(it_at < ND && !g.db[it_at]) it_at++;
    it->ok = it_at < ND;
    if(!it->ok){ memcpy(g.seen, g.db, sizeof(g.db)); return; }
    it->subdomain.len = it->challenge.len = 0;
    FMT_QUIET(&it->subdomain, "%x", FS(DOM[it_at])); FMT_QUIET(&it->challenge, "%x", FS(VAL[g.db[it_at]]));
}
derr_t __wrap_challenges_first(challenge_iter_t *it, MYSQL *sql); derr_t __wrap_challenges_first(challenge_iter_t *it, MYSQL *sql){
    (void)sql;
    *it = (challenge_iter_t){ .ok = true };
    MC_CHECK(!g.scanning, "scan-twice", "a scan of the database was started while one is going on");
    DSTR_WRAP_ARRAY(it->subdomain, it->_subdomainbuf);
    DSTR_WRAP_ARRAY(it->challenge, it->_challengebuf);
    it_at = 0;
    if(db_fails()) return db_err();
    g.scanning = true;
    it->_inloop = true;
    it_set(it);
    return E_OK;
}
derr_t __wrap_challenges_next(challenge_iter_t *it); derr_t __wrap_challenges_next(challenge_iter_t *it){
    MC_CHECK(g.scanning, "scan", "challenges_next without a scan");
    if(db_fails()){ it->_inloop = false; it->ok = false; return db_err(); }
    it_at++;
    it_set(it);
    return E_OK;
}
void __wrap_challenges_free(challenge_iter_t *it); void __wrap_challenges_free(challenge_iter_t *it){ (void)it; g.scanning = false; }
derr_t __wrap_get_installation_challenge(MYSQL *sql, const dstr_t inst_uuid, dstr_t *subdomain, bool *sok, dstr_t *challenge, bool *cok);
derr_t __wrap_get_installation_challenge(MYSQL *sql, const dstr_t inst_uuid, dstr_t *subdomain, bool *sok, dstr_t *challenge, bool *cok){
    (void)sql;
    *sok = *cok = false;
    if(db_fails()) return db_err();
    for(int d = 0; d < ND; d++){
        char u[32]; uuid_of(d, u);
        if(inst_uuid.len != 32 || memcmp(inst_uuid.data, u, 32)) continue;
        *sok = true; FMT_QUIET(subdomain, "%x", FS(DOM[d]));
        g.seen[d] = g.db[d];
        if(g.db[d]){ *cok = true; FMT_QUIET(challenge, "%x", FS(VAL[g.db[d]])); }
    }
    return E_OK;
}

// ------------------------------------------------------------------ libuv
derr_t __wrap_duv_loop_init(uv_loop_t *l); derr_t __wrap_duv_loop_init(uv_loop_t *l){ memset(l, 0, sizeof(*l)); return E_OK; }
int __wrap_uv_loop_close(uv_loop_t *l); int __wrap_uv_loop_close(uv_loop_t *l){ (void)l; return 0; }
static int tix(const uv_timer_t *t){ for(int i = 0; i < g.nt; i++) if(g.t[i].t == t) return i; mc_fail("handle", "unknown timer"); return -1; }
static bool hclosing(const void *h){ for(int i = 0; i < g.nhc; i++) if(g.hc[i].h == h) return true; return false; }
int __wrap_uv_timer_init(uv_loop_t *l, uv_timer_t *t); int __wrap_uv_timer_init(uv_loop_t *l, uv_timer_t *t){
    if(g.nt == 8) mc_error("timers");
    t->loop = l; g.t[g.nt].t = t; g.t[g.nt].on = false; g.nt++; return 0;
}
int __wrap_uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t ms, uint64_t rep); int __wrap_uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t ms, uint64_t rep){
    (void)rep; int i = tix(t);
    if(hclosing(t)) return UV_EINVAL;
    xtime_t base = g.now / MSx;
    g.t[i].on = true; g.t[i].cb = cb; g.t[i].seq = ++g.tseq;
    g.t[i].due = ms > UINT64_MAX / MSx - base ? UINT64_MAX : (base + ms) * MSx;
    return 0;
}
int __wrap_uv_timer_stop(uv_timer_t *t); int __wrap_uv_timer_stop(uv_timer_t *t){ g.t[tix(t)].on = false; return 0; }
int __wrap_uv_udp_init(uv_loop_t *l, uv_udp_t *u); int __wrap_uv_udp_init(uv_loop_t *l, uv_udp_t *u){ u->loop = l; g.udp = u; return 0; }
int __wrap_uv_udp_open(uv_udp_t *u, uv_os_sock_t fd); int __wrap_uv_udp_open(uv_udp_t *u, uv_os_sock_t fd){ (void)u; close(fd); return 0; }
int __wrap_uv_udp_recv_start(uv_udp_t *u, uv_alloc_cb a, uv_udp_recv_cb r); int __wrap_uv_udp_recv_start(uv_udp_t *u, uv_alloc_cb a, uv_udp_recv_cb r){ (void)u; g.ua = a; g.ur = r; return 0; }
int __wrap_uv_udp_send(uv_udp_send_t *req, uv_udp_t *u, const uv_buf_t b[], unsigned n, const struct sockaddr *a, uv_udp_send_cb cb);
int __wrap_uv_udp_send(uv_udp_send_t *req, uv_udp_t *u, const uv_buf_t b[], unsigned n, const struct sockaddr *a, uv_udp_send_cb cb){
    MC_CHECK(!g.udp_closing, "send-after-close", "a datagram is sent on a closed socket");
    if(n != 1) mc_error("bufs");
    int p = -1;
    for(int i = 0; i < g.np; i++) if(!memcmp(&((const struct sockaddr_in*)a)->sin_port, &((struct sockaddr_in*)&g.p[i].ss)->sin_port, 2)) p = i;
    if(p < 0) mc_fail("peer", "a datagram to nobody");
    MC_CHECK(!g.snd[p].req, "send-twice", "a second datagram to peer %d while one is being sent", p);
    req->handle = u;
    int st = 0;
    if(g.p[p].routeless) st = p ? -ENOKEY : UV_EDESTADDRREQ;
    else {
        unsigned lost = fault(2, "update-lost");
        mc_log("t=%llu: update to peer %d%s%s", g.now/MSx, p, g.p[p].up ? "" : " (down)", lost ? " lost" : "");
        if(g.p[p].up && !lost){
            if(g.npk == 32) mc_error("packets");
            pk_t *k = &g.pk[g.npk++]; k->to_peer = true; k->p = p; k->n = b[0].len; k->at = g.now + 5*MSx;
            if(k->n > sizeof(k->b)) mc_error("long packet");
            memcpy(k->b, b[0].base, k->n);
        }
    }
    g.snd[p].req = req; g.snd[p].cb = cb; g.snd[p].status = st;
    post(E_SENT, p);
    return 0;
}
int __wrap_uv_pipe_init(uv_loop_t *l, uv_pipe_t *p, int ipc); int __wrap_uv_pipe_init(uv_loop_t *l, uv_pipe_t *p, int ipc){ (void)ipc; p->loop = l; return 0; }
derr_t __wrap_duv_pipe_bind_with_lock(uv_pipe_t *p, const string_builder_t a, const string_builder_t b, int *out); derr_t __wrap_duv_pipe_bind_with_lock(uv_pipe_t *p, const string_builder_t a, const string_builder_t b, int *out){ (void)p; (void)a; (void)b; *out = -1; return E_OK; }
int __wrap_uv_listen(uv_stream_t *s, int n, uv_connection_cb cb); int __wrap_uv_listen(uv_stream_t *s, int n, uv_connection_cb cb){ (void)n; g.lst = (uv_pipe_t*)s; g.lcb = cb; g.llisten = true; return 0; }
static int cix(const void *h){ for(int i = 0; i < g.nc; i++) if((const void*)g.c[i].h == h && !g.c[i].closed) return i; return -1; }
int __wrap_uv_accept(uv_stream_t *s, uv_stream_t *cl); int __wrap_uv_accept(uv_stream_t *s, uv_stream_t *cl){
    (void)s;
    if(!g.nacc) return UV_EAGAIN;
    int c = g.acc[0]; memmove(g.acc, g.acc + 1, sizeof(int) * (size_t)--g.nacc);
    g.c[c].h = (uv_pipe_t*)cl; g.c[c].uv = true;
    return 0;
}
static void cwake(int c){ cl_t *k = &g.c[c]; if(k->uv && k->reading && !k->closing && (k->at < k->nin || (k->hup && !k->eof_told))) post(E_READ, c); }
int __wrap_uv_read_start(uv_stream_t *s, uv_alloc_cb a, uv_read_cb r); int __wrap_uv_read_start(uv_stream_t *s, uv_alloc_cb a, uv_read_cb r){
    int c = cix(s); if(c < 0) mc_fail("handle", "uv_read_start on an unknown pipe");
    g.c[c].reading = true; g.c[c].alloc = a; g.c[c].rcb = r; cwake(c); return 0;
}
int __wrap_uv_read_stop(uv_stream_t *s); int __wrap_uv_read_stop(uv_stream_t *s){ int c = cix(s); if(c >= 0) g.c[c].reading = false; return 0; }
static void judge_response(int c, const char *b, size_t n);
int __wrap_uv_write(uv_write_t *req, uv_stream_t *s, const uv_buf_t b[], unsigned n, uv_write_cb cb); int __wrap_uv_write(uv_write_t *req, uv_stream_t *s, const uv_buf_t b[], unsigned n, uv_write_cb cb){
    int c = cix(s); if(c < 0) mc_fail("handle", "a response to a client which is closed already");
    cl_t *k = &g.c[c];
    MC_CHECK(!k->closing, "write-after-close", "a response to client %d after it was closed", c);
    if(n != 1) mc_error("bufs");
    MC_CHECK(!k->w, "answered-twice", "client %d is answered twice", c);
    judge_response(c, b[0].base, b[0].len);
    k->w = req; k->wcb = cb; k->wbuf = b[0]; memcpy(k->wcopy, b[0].base, b[0].len);
    req->handle = s;
    k->wstatus = k->hup ? (mc_choose(2, "write-to-hung-up") ? UV_EPIPE : UV_ECONNRESET) : 0;
    post(E_WDONE, c);
    return 0;
}
void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb); void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb){
    int c = cix(h);
    if(c >= 0){
        MC_CHECK(!g.c[c].closing, "close-twice", "client %d is closed twice", c);
        g.c[c].closing = true; g.c[c].reading = false; g.c[c].ccb = cb; post(E_CLOSED, c);
        mc_log("t=%llu: client %d is closed", g.now/MSx, c);
        return;
    }
    MC_CHECK(!hclosing(h), "close-twice", "a handle is closed twice");
    if(g.nhc == 16) mc_error("handles");
    g.hc[g.nhc].h = h; g.hc[g.nhc].cb = cb; post(E_HCLOSED, g.nhc++);
    if(h == (uv_handle_t*)g.udp) g.udp_closing = true;
    if(h == (uv_handle_t*)g.lst) g.lclosing = true;
    for(int i = 0; i < g.nt; i++) if((uv_handle_t*)g.t[i].t == h) g.t[i].on = false;
}
int __wrap_uv_is_closing(const uv_handle_t *h); int __wrap_uv_is_closing(const uv_handle_t *h){ int c = cix(h); return c >= 0 ? g.c[c].closing : hclosing(h); }

// ----------------------------------------------------------------- judging
static void dkey(dstr_t *d, const char *s){ *d = dstr_from_cstrn((char*)(uintptr_t)s, strlen(s), true); }
// -1 unsure, 0 a confident no, >0 a value, -2 something else
static int serves(int p, int d){
    dstr_t k; dkey(&k, DOM[d]);
    const dstr_t *v = kvpsync_recv_get_value(&g.p[p].r, g.now, k);
    if(!v) return 0;
    if(v == UNSURE) return -1;
    for(int i = 1; i < NV; i++) if(v->len == strlen(VAL[i]) && !memcmp(v->data, VAL[i], v->len)) return i;
    return -2;
}
static void judge_response(int c, const char *b, size_t n){
    cl_t *k = &g.c[c];
    mc_log("t=%llu: client %d is told \"%.*s\"", g.now/MSx, c, (int)n, b);
    k->decided = true;
    MC_CHECK(k->complete, "answer-unasked", "client %d is answered before it asked", c);
    if(k->health){
        MC_CHECK(n == (size_t)g.np + 1 && b[n-1] == '\n', "health", "the answer to a health check is %zu bytes", n);
        for(int p = 0; p < g.np; p++){
            MC_CHECK(b[p] == 'y' || b[p] == 'n', "health", "the answer to a health check is garbage");
            if(b[p] == 'y') MC_CHECK(g.p[p].up ? true : g.now - g.p[p].t_down <= 28*SECOND, "health", "peer %d is reported ok %llu ms after it went away", p, (g.now - g.p[p].t_down)/MSx);
        }
        return;
    }
    MC_CHECK(k->valid, "answer-invalid", "client %d sent an invalid request and was answered", c);
    MC_CHECK(n == 1 && (b[0] == 'k' || b[0] == 't'), "answer", "client %d gets a strange answer", c);
    MC_CHECK(g.seen[k->dom] == k->val, "stale-answer", "client %d asked for challenge %s of %s and is answered '%c' although the database was seen to have \"%s\"", c, VAL[k->val], DOM[k->dom], b[0], VAL[g.seen[k->dom]]);
    if(b[0] == 't'){
        MC_CHECK(g.now >= k->asked + 60*SECOND, "early-timeout", "client %d is timed out after %llu ms", c, (g.now - k->asked)/MSx);
        return;
    }
    int served = 0;
    for(int p = 0; p < g.np; p++){
        int s = serves(p, k->dom);
        if(s == k->val){ served++; continue; }
        if(s == -1){ if(g.p[p].restarted || !g.p[p].up) served++; continue; }
        // a peer which is out of reach may go on serving what it has
        if(s > 0 && (!g.p[p].up || g.now < g.p[p].t_up + 5*SECOND)){ served += g.p[p].up; continue; }
        if(!g.p[p].flushed && g.prev_ran && g.now < g.started + 15*SECOND + 100*MSx){ mc_soft("restart-before-sync", "t=%llu: %llu ms after its restart kvpsend tells client %d that %s of %s is ready but peer %d, which has no sync with it yet, answers %s", g.now/MSx, (g.now - g.started)/MSx, c, VAL[k->val], DOM[k->dom], p, s ? "with another value" : "that there is none"); served++; continue; }
        mc_soft("ready-not-served", "t=%llu: client %d is told that %s of %s is ready but peer %d answers %s", g.now/MSx, c, VAL[k->val], DOM[k->dom], p, s ? "with another value" : "that there is none");
    }
    if(!served) mc_soft("ready-nowhere", "t=%llu: client %d is told that %s of %s is ready but no peer has it", g.now/MSx, c, VAL[k->val], DOM[k->dom]);
}
static void late(void){
    for(int c = 0; c < g.nc; c++){
        cl_t *k = &g.c[c];
        if(!k->used || !k->complete || k->closing || k->w || k->closed || !k->uv) continue;
        MC_CHECK(g.now <= k->asked + 60*SECOND + 20*MSx, "never-answered", "client %d asked at %llu and has no answer at %llu", c, k->asked/MSx, g.now/MSx);
        // a client is told as soon as all peers which are not out of reach have its challenge
        if(k->valid && !k->health && !g.faults){
            xtime_t t = k->asked, up = XTIME_MAX;
            for(int p = 0; p < g.np; p++){ if(g.p[p].up){ if(g.p[p].t_up < up) up = g.p[p].t_up; } else if(g.p[p].t_down > t) t = g.p[p].t_down; }
            if(up > t) t = up;
            if(up != XTIME_MAX && g.now > t + 35*SECOND) mc_soft("not-told", "client %d asked at %llu and is not told at %llu that it is ready, a peer is up since %llu", c, k->asked/MSx, g.now/MSx, up/MSx);
        }
        // who waits, waits for what the program knows to be in the database
        if(k->valid && !k->health && g.nev == 0) MC_CHECK(g.seen[k->dom] == k->val, "waits-for-stale", "client %d still waits for challenge %s of %s although the database was seen to have \"%s\"", c, VAL[k->val], DOM[k->dom], VAL[g.seen[k->dom]]);
    }
}

// ------------------------------------------------------------------- events
static bool live_handles(void){
    if(!g.lclosing || !g.udp_closing) return true;
    for(int c = 0; c < g.nc; c++) if(g.c[c].uv && !g.c[c].closed) return true;
    return g.nev > 0;
}
static void deliver_read(int c){
    cl_t *k = &g.c[c];
    if(!k->reading || k->closing) return;
    if(k->at == k->nin){
        if(!k->hup || k->eof_told) return;
        k->eof_told = true;
        uv_buf_t b = {0}; k->alloc((uv_handle_t*)k->h, 65536, &b);
        k->rcb((uv_stream_t*)k->h, UV_EOF, &b);
        return;
    }
    uv_buf_t b = {0};
    k->alloc((uv_handle_t*)k->h, 65536, &b);
    if(!b.base || !b.len){ k->rcb((uv_stream_t*)k->h, UV_ENOBUFS, &b); return; }
    size_t n = k->nin - k->at; if(n > b.len) n = b.len;
    if(n > 1 && fault(2, "split")) n /= 2;
    memcpy(b.base, k->in + k->at, n); k->at += n;
    k->rcb((uv_stream_t*)k->h, (ssize_t)n, &b);
    cwake(c);
}
static void deliver_pk(int i){
    pk_t k = g.pk[i];
    memmove(g.pk + i, g.pk + i + 1, sizeof(pk_t) * (size_t)(--g.npk - i));
    peer_t *p = &g.p[k.p];
    dstr_t d; DSTR_WRAP(d, k.b, k.n, false);
    if(k.to_peer){
        if(!p->up) return;
        kvp_update_t u;
        MC_CHECK(kvpsync_update_read(d, &u), "wire", "an update does not parse");
        kvp_ack_t ack;
        derr_t e = kvpsync_recv_handle_update(&p->r, g.now, u, &ack);
        if(e.type) mc_fail("unexpected-error", "kvpsync_recv_handle_update failed");
        p->cur_sync = u.sync_id;
        if(u.type == KVP_UPDATE_FLUSH) p->flushed = true;
        mc_log("t=%llu: peer %d gets %s update=%u key=%.*s", g.now/MSx, k.p, kvp_update_type_name(u.type), u.update_id, u.klen, u.key);
        if(fault(2, "ack-lost")){ mc_log("    its ack is lost"); return; }
        pk_t *a = &g.pk[g.npk++]; a->to_peer = false; a->p = k.p; a->at = g.now + 5*MSx;
        DSTR_VAR(w, 64);
        e = kvpsync_ack_write(&ack, &w); if(e.type) mc_fail("unexpected-error", "kvpsync_ack_write failed");
        memcpy(a->b, w.data, w.len); a->n = w.len;
        return;
    }
    if(!g.ur || g.udp_closing) return;
    uv_buf_t b = {0};
    g.ua((uv_handle_t*)g.udp, 65536, &b);
    size_t n = k.n; unsigned fl = 0;
    if(n > b.len){ n = b.len; fl = UV_UDP_PARTIAL; }
    memcpy(b.base, k.b, n);
    struct sockaddr_storage ss;
    if(k.p < 0 || k.p >= g.np){ memset(&ss, 0, sizeof(ss)); struct sockaddr_in *si = (struct sockaddr_in*)&ss; si->sin_family = AF_INET; si->sin_port = htons(9); si->sin_addr.s_addr = htonl(0x7f000001); }
    else ss = p->ss;
    g.ur(g.udp, (ssize_t)n, &b, (struct sockaddr*)&ss, fl);
    g.ur(g.udp, 0, &b, NULL, 0);
}
// one event; false if there is none before `until`
static bool event(xtime_t until){
    if(++g.nevents > 20000) mc_fail("livelock", "the program does not come to rest");
    if(g.nev){
        g.now += 100000;   // time goes on
        ev_t e = g.ev[0]; memmove(g.ev, g.ev + 1, sizeof(ev_t) * (size_t)--g.nev);
        cl_t *k = &g.c[e.i < MAXC ? e.i : 0];
        switch(e.kind){
            case E_ACC: if(g.llisten && !g.lclosing) g.lcb((uv_stream_t*)g.lst, 0); break;
            case E_READ: deliver_read(e.i); break;
            case E_WDONE: {
                MC_CHECK(!memcmp(k->wbuf.base, k->wcopy, k->wbuf.len), "write-buffer", "the text of an answer changed before it was written");
                if(!k->wstatus){ memcpy(k->out, k->wcopy, k->wbuf.len); k->nout = k->wbuf.len; k->nresp++; }
                uv_write_t *w = k->w; k->wcb(w, k->closing ? UV_ECANCELED : k->wstatus);
                break; }
            case E_CLOSED: k->closed = true; k->ccb((uv_handle_t*)k->h); k->h = NULL; break;
            case E_HCLOSED: g.hc[e.i].cb(g.hc[e.i].h); break;
            case E_SENT: {
                uv_udp_send_t *req = g.snd[e.i].req; g.snd[e.i].req = NULL;
                g.snd[e.i].cb(req, g.udp_closing ? UV_ECANCELED : g.snd[e.i].status);
                break; }
        }
        late();
        return true;
    }
    // the next packet or timer
    int bt = -1, bp = -1; xtime_t at = until;
    for(int i = 0; i < g.nt; i++) if(g.t[i].on && (g.t[i].due < at || (bt >= 0 && g.t[i].due == at && g.t[i].seq < g.t[bt].seq))){ bt = i; at = g.t[i].due; }
    for(int i = 0; i < g.npk; i++) if(g.pk[i].at < at){ bp = i; bt = -1; at = g.pk[i].at; }
    if(bt < 0 && bp < 0){ if(until > g.now && until != XTIME_MAX) g.now = until; return false; }
    if(at > g.now) g.now = at;
    g.now += 100000;
    if(bp >= 0) deliver_pk(bp);
    else { g.t[bt].on = false; g.t[bt].cb(g.t[bt].t); }
    late();
    return true;
}
static void pass(xtime_t d){ xtime_t end = g.now + d; while(event(end)) if(!live_handles()) return; }
static void quiet(void){ while(g.nev) event(g.now); }

// -------------------------------------------------------------------- moves
static int connect_client(const char *b, size_t n){
    if(g.nc == MAXC) mc_error("clients");
    int c = g.nc++; cl_t *k = &g.c[c];
    memset(k, 0, sizeof(*k));
    k->used = true; memcpy(k->in, b, n); k->nin = n; k->asked = g.now;
    if(g.lclosing) { k->used = false; return c; }
    g.acc[g.nacc++] = c;
    // a connection callback for every connection
    if(g.nev == 64) mc_error("events");
    g.ev[g.nev++] = (ev_t){ E_ACC, c };
    return c;
}
static int subscribe(int d, int v, bool known){
    char b[300]; char u[32]; uuid_of(known ? d : 20, u);
    int n = snprintf(b, sizeof(b), "S:");
    for(int i = 0; i < 32; i++) n += snprintf(b + n, 4, "%02x", (unsigned char)u[i]);
    n += snprintf(b + n, 100, ":%s\n", v ? VAL[v] : "none");
    int c = connect_client(b, (size_t)n);
    cl_t *k = &g.c[c];
    k->dom = d; k->val = v; k->valid = known && v > 0; k->complete = true;
    mc_log("t=%llu: client %d asks for %s of %s%s", g.now/MSx, c, VAL[v], DOM[d], known ? "" : " (unknown installation)");
    return c;
}
static void set_up(int p, bool up){
    mc_log("t=%llu: peer %d goes %s", g.now/MSx, p, up ? "up" : "down");
    g.p[p].up = up; if(up) g.p[p].t_up = g.now; else g.p[p].t_down = g.now;
}
static void set_db(int d, int v){ mc_log("t=%llu: database: %s = \"%s\"", g.now/MSx, DOM[d], VAL[v]); g.db[d] = v; }
static const char *odd(int i, size_t *n){
    static char b[700];
    memset(b, 'a', sizeof(b));
    switch(i){
        case 0: *n = snprintf(b, sizeof(b), "\n"); break;
        case 1: *n = snprintf(b, sizeof(b), "X\n"); break;
        case 2: *n = snprintf(b, sizeof(b), "S:4141:one\n"); break;
        case 3: *n = snprintf(b, sizeof(b), "S\n"); break;
        case 4: memcpy(b, "S:", 2); b[66] = ':'; b[67] = '\n'; *n = 68; break;               // no challenge
        case 5: memcpy(b, "S:", 2); memset(b + 2, 'z', 64); b[66] = ':'; b[67] = 'x'; b[68] = '\n'; *n = 69; break; // not hex
        case 6: memcpy(b, "S:", 2); b[66] = ':'; b[321] = '\n'; b[322] = '\n'; *n = 323; break; // the longest request
        case 7: *n = 323; break;                                                                  // a full buffer without an end of line
        case 8: *n = 400; break;
        case 9: memcpy(b, "S:", 2); b[66] = ':'; *n = 324; b[323] = '\n'; break;                 // one too long
        case 10: *n = snprintf(b, sizeof(b), "H\nH\n"); break;
        default: *n = 0;
    }
    return b;
}
#define NODD 11
enum { M_LAST, M_2S, M_16S, M_61S, M_SET1, M_SET2, M_DEL, M_BSET, M_BDEL, M_SUB, M_SUBX, M_SUBB, M_P0, M_P1, M_R0, M_NR0, M_NR1, M_DBERR, M_STRAY, M_HEALTH, M_UNK, M_ODD, M_HALF, M_HUP, NMOVES };
static void move(unsigned m){
    switch(m){
        case M_LAST: event(XTIME_MAX); break;
        case M_2S: pass(2*SECOND); break;
        case M_16S: pass(16*SECOND); break;
        case M_61S: pass(61*SECOND); break;
        case M_SET1: set_db(0, 1); break;
        case M_SET2: set_db(0, 2); break;
        case M_DEL: set_db(0, 0); break;
        case M_BSET: set_db(1, g.db[1] == 1 ? 2 : 1); break;
        case M_BDEL: set_db(1, 0); break;
        case M_SUB: subscribe(0, g.db[0], true); quiet(); break;
        case M_SUBX: subscribe(0, g.db[0] == 1 ? 2 : 1, true); quiet(); break;
        case M_SUBB: subscribe(1, g.db[1], true); quiet(); break;
        case M_P0: if(!g.p[0].routeless) set_up(0, !g.p[0].up); break;
        case M_P1: if(g.np > 1 && !g.p[1].routeless) set_up(1, !g.p[1].up); break;
        case M_R0: { mc_log("t=%llu: peer 0 restarts", g.now/MSx); kvpsync_recv_free(&g.p[0].r); derr_t e = kvpsync_recv_init(&g.p[0].r); if(e.type) mc_error("recv"); g.p[0].restarted = true; g.p[0].cur_sync = 0; break; }
        case M_NR0: case M_NR1: { int p = m == M_NR1; if(p >= g.np) break; g.p[p].routeless = !g.p[p].routeless; mc_log("t=%llu: peer %d is %s", g.now/MSx, p, g.p[p].routeless ? "not configured" : "configured"); set_up(p, !g.p[p].routeless); break; }
        case M_DBERR: g.nextdberr = 1 + (int)mc_choose(3, "which-query"); mc_log("the database is about to fail"); break;
        case M_STRAY: {
            unsigned w = mc_choose(4, "stray");
            pk_t *k = &g.pk[g.npk++]; memset(k, 0, sizeof(*k)); k->at = g.now + MSx; k->p = w == 3 ? 99 : 0;
            if(w == 0) k->n = 0; else if(w == 1){ memset(k->b, 0xff, 200); k->n = 200; }
            else { kvp_ack_t a = { .sync_id = g.p[0].cur_sync, .update_id = 77 }; DSTR_VAR(d, 64); derr_t e = kvpsync_ack_write(&a, &d); if(e.type) mc_error("ack"); memcpy(k->b, d.data, d.len); k->n = d.len; }
            pass(2*MSx);
            break; }
        case M_HEALTH: { int c = connect_client("H\n", 2); g.c[c].health = g.c[c].valid = g.c[c].complete = true; quiet(); break; }
        case M_UNK: subscribe(0, g.db[0] ? g.db[0] : 1, false); quiet(); break;
        case M_ODD: { size_t n; unsigned w = mc_choose(NODD, "odd"); const char *b = odd((int)w, &n); int c = connect_client(b, n);
            g.c[c].complete = b[n-1] == '\n'; g.c[c].valid = false; if(w == 10) g.c[c].health = g.c[c].valid = true;
            mc_log("t=%llu: client %d sends something odd (%u)", g.now/MSx, c, w); quiet();
            // whoever sent more than a request can be is not kept
            if(n >= 323) MC_CHECK(g.c[c].closing, "odd-kept", "a client which sent %zu bytes without a request is kept", n);
            break; }
        case M_HALF: { int c = connect_client("S:41", 4); (void)c; quiet(); break; }
        case M_HUP: for(int c = 0; c < g.nc; c++) if(g.c[c].used && !g.c[c].hup && !g.c[c].closing){ g.c[c].hup = true; mc_log("t=%llu: client %d hangs up", g.now/MSx, c); cwake(c); } quiet(); break;
    }
}

static void all_done(const char *when){
    for(int c = 0; c < g.nc; c++){
        cl_t *k = &g.c[c];
        if(!k->used || !k->complete) continue;
        MC_CHECK(k->closed, "never-answered", "%s, client %d has no answer and was not closed", when, c);
        MC_CHECK(k->nresp <= 1, "answered-twice", "client %d has %d answers", c, k->nresp);
    }
}
static void shut(derr_t e){
    g.shutdown = true;
    uv_kvpsend_close(&U, e);
    for(int i = 0; live_handles(); i++){
        if(i > 2000){ mc_fail("close-hangs", "the program was closed but does not end"); }
        if(g.nev) event(g.now); else break;
    }
}
static bool failing(void){ return U.closing; }
static void script(void){
    if(g.prev){ pass(3*SECOND); return; }
    int depth = (int)mc_opt("depth", 4);
    uint64_t mask = (uint64_t)mc_opt("mask", -1);
    unsigned list[NMOVES], n = 0;
    for(unsigned i = 0; i < NMOVES; i++) if(mask >> i & 1) list[n++] = i;
    if(mc_opt("warm", 1)) pass(3*SECOND);
    g.faults = true;
    for(int i = 0; i < depth && !failing(); i++) move(list[mc_choose(n, "move")]);
    if(mc_dev_left() > 0) pass(100*MSx);
    g.faults = false;
    if(failing()) return;
    g.nextdberr = 0;
    mc_note(mc_hash_u(mc_hash_u(mc_hash_u(3, g.now), (uint64_t)g.nc*16 + (uint64_t)g.npk), (uint64_t)(g.db[0]*9 + g.db[1]*3 + g.p[0].up*2 + g.p[1].up)));
    // from here on everybody who is up is reachable
    if(mc_choose(2, "heal")) for(int p = 0; p < g.np; p++){ g.p[p].routeless = false; if(!g.p[p].up) set_up(p, true); }
    pass(80*SECOND);
    if(failing()) return;
    all_done("80 s later");
    int up = 0; for(int p = 0; p < g.np; p++) if(g.p[p].up && !g.p[p].routeless) up++;
    // what is distributed is what the database holds
    for(int p = 0; p < g.np; p++) if(g.p[p].up && !g.p[p].routeless) for(int d = 0; d < ND; d++)
        if(serves(p, d) != g.db[d]) mc_soft("not-distributed", "80 s later peer %d, which is up, answers %d for %s, the database has %d", p, serves(p, d), DOM[d], g.db[d]);
    // a health check tells
    { int c = connect_client("H\n", 2); g.c[c].health = g.c[c].valid = g.c[c].complete = true; quiet();
      MC_CHECK(g.c[c].closed && g.c[c].nresp == 1, "health", "no answer to a health check");
      for(int p = 0; p < g.np; p++) if((g.c[c].out[p] == 'y') != (g.p[p].up && !g.p[p].routeless)) mc_soft("health", "peer %d is %s and reported as '%c'", p, g.p[p].up ? "up" : "down", g.c[c].out[p]); }
    // a new challenge is ready soon, if anybody can serve it
    set_db(0, g.db[0] == 2 ? 1 : 2);
    int c = subscribe(0, g.db[0], true);
    pass(5*SECOND);
    if(failing()) return;
    if(up){
        if(!(g.c[c].closed && g.c[c].nresp == 1 && g.c[c].out[0] == 'k')) mc_soft("not-ready", "a client is not told that its challenge is ready although %d peers are up", up);
    } else MC_CHECK(!g.c[c].closed, "ready-nowhere", "a client is answered although no peer is up");
    pass(60*SECOND);
    if(!failing()) all_done("at the end");
}
derr_t __wrap_duv_run(uv_loop_t *l); derr_t __wrap_duv_run(uv_loop_t *l){
    (void)l;
    if(g.active){ derr_t e = E_OK; ORIG(&e, E_UV, "again"); }
    g.active = true;
    script();
    if(!failing()){ shut(E_OK); }
    else {
        MC_CHECK(g.wasdberr, "gave-up", "the program ends although the database is fine");
        // it must come to its end by itself
        for(int i = 0; g.nev && i < 2000; i++) event(g.now);
    }
    MC_CHECK(!live_handles(), "close-hangs", "the program failed and closed, but does not end: a client is kept open");
    return E_OK;
}
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res);
static struct addrinfo fake_ai; static struct sockaddr_in fake_sin;
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res){
    (void)node; (void)service; (void)hints;
    fake_sin = (struct sockaddr_in){ .sin_family = AF_INET, .sin_addr.s_addr = htonl(0x7f000001) };
    fake_ai = (struct addrinfo){ .ai_family = AF_INET, .ai_addr = (struct sockaddr*)&fake_sin, .ai_addrlen = sizeof(fake_sin) };
    *res = &fake_ai; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a); void __wrap_freeaddrinfo(struct addrinfo *a){ (void)a; }

static void run(void){
    memset(&g, 0, sizeof(g));
    rnd = 1;
    g.now = 1000*SECOND + 123456;
    g.np = (int)mc_opt("peers", 2);
    struct sockaddr_storage ss[NP] = {0};
    for(int p = 0; p < g.np; p++){
        struct sockaddr_in *si = (struct sockaddr_in*)&ss[p];
        si->sin_family = AF_INET; si->sin_port = htons((uint16_t)(4000 + p)); si->sin_addr.s_addr = htonl(0x7f000001);
        g.p[p].ss = ss[p];
        derr_t e = kvpsync_recv_init(&g.p[p].r); if(e.type) mc_error("recv");
        g.p[p].up = true; g.p[p].restarted = true;
    }
    derr_t e;
    DSTR_STATIC(lo, "127.0.0.1:0");
    addrspec_t spec; e = parse_addrspec(&lo, &spec); if(e.type) mc_error("spec");
    if(mc_opt("prev", 0)){
        // an earlier run of the program left the peers with other records
        g.prev = true; g.db[0] = 0; g.db[1] = 1;
        e = uv_kvpsend_init(&U, NULL, ss, (size_t)g.np); if(e.type) mc_fail("start", "kvpsend does not start");
        e = uv_kvpsend_run(&U, SBS("s"), SBS("l"), spec); if(e.type) mc_fail("gave-up", "kvpsend fails");
        uv_kvpsend_free(&U);
        g.prev = g.active = g.udp_closing = g.lclosing = g.llisten = g.shutdown = false; g.nt = g.nhc = g.npk = 0; g.ur = NULL;
        memset(g.snd, 0, sizeof(g.snd));
        g.prev_ran = true; g.started = g.now;
        for(int p = 0; p < g.np; p++) g.p[p].flushed = false;
        mc_log("t=%llu: kvpsend is started again", g.now/MSx);
    }
    if(mc_opt("down", 0)) for(int p = 0; p < g.np; p++) if(mc_opt("down", 0) >> p & 1) set_up(p, false);
    g.db[0] = (int)mc_opt("a", 1); g.db[1] = (int)mc_opt("b", 0);
    e = uv_kvpsend_init(&U, NULL, ss, (size_t)g.np);
    if(e.type) mc_fail("start", "kvpsend does not start");
    e = uv_kvpsend_run(&U, SBS("s"), SBS("l"), spec);
    MC_CHECK(g.active, "start", "kvpsend does not start");
    MC_CHECK(g.wasdberr || !e.type, "gave-up", "kvpsend fails");
    DROP_VAR(&e);
    uv_kvpsend_free(&U);
    uint64_t h = mc_hash_u(1, g.now);
    for(int c = 0; c < g.nc; c++) h = mc_hash_u(h, (uint64_t)g.c[c].out[0] * 4 + (uint64_t)g.c[c].nresp);
    mc_outcome(h);
    for(int p = 0; p < g.np; p++) kvpsync_recv_free(&g.p[p].r);
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "f02_kvpsend", .run = run };
    return mc_main(argc, argv, &h);
}
