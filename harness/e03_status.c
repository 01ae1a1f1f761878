// E03: the status service.  The real server (and, in mode "real", real status
// clients) on modelled pipes; raw clients connect, send commands and garbage
// whole or in pieces, read or do not, hang up; the state changes; the server
// closes.  Every event may be chosen before every other.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "libcitm/libcitm.h"
#include <config.h>
#include "mc/mc.h"

static bool modelled = true;
// ------------------------------------------------------------------ pipes
#define MAXC 6
#define BUFN 16384
#define CAP 250                  // what fits in a pipe nobody reads from
typedef struct { char b[BUFN]; size_t n, at; } q_t;
typedef struct {
    bool used, accepted, raw, slow;
    uv_pipe_t *end[2];           // 0 the server's, 1 the client's
    bool closing[2], closed[2];  // uv_close called, callback made
    uv_close_cb ccb[2];
    bool reading[2]; uv_alloc_cb alloc[2]; uv_read_cb rcb[2];
    bool gone, reset, shut;      // the raw client hung up / with unread data / sends no more
    bool seof[2];                // end of file was told
    q_t q[2];                    // to the server, to the client
    struct { uv_write_t *req; uv_write_cb cb; bool queued; int status; uv_buf_t buf; char copy[4200]; size_t done; } w[2];
    uv_connect_t *creq; uv_connect_cb ccb2; int cstatus;
    // the raw client's books
    q_t got; int nchecks, nbad; bool toolong; int born;
    size_t sent;
    char sentbuf[BUFN]; size_t parsed;
} conn_t;
static conn_t C[MAXC]; static int nc;
static struct { uv_pipe_t *h; uv_connection_cb cb; bool listening, closing, closed; uv_close_cb ccb; int pending[MAXC], np; int init; } L;
// events in the order they came about
enum { E_SCHED = 1, E_ACCEPT, E_DATA, E_WDONE, E_CLOSED, E_LCLOSED, E_CONNDONE, E_EOF };
typedef struct { int kind, c, side; schedulable_t *s; } ev_t;
static ev_t ev[64]; static int nev;
static void post(int kind, int c, int side, schedulable_t *s){
    for(int i = 0; i < nev; i++) if(ev[i].kind == kind && ev[i].c == c && ev[i].side == side && ev[i].s == s) return;
    if(nev == 64) mc_error("events");
    ev[nev++] = (ev_t){ kind, c, side, s };
}
static void q_schedule(scheduler_i *i, schedulable_t *s){ (void)i; post(E_SCHED, 0, 0, s); }
static scheduler_i sched = { q_schedule };
static bool find(const void *h, int *c, int *side){ for(*c = 0; *c < nc; (*c)++) for(*side = 0; *side < 2; (*side)++) if(C[*c].end[*side] == h) return true; return false; }

int __real_uv_pipe_init(uv_loop_t *l, uv_pipe_t *p, int ipc); int __wrap_uv_pipe_init(uv_loop_t *l, uv_pipe_t *p, int ipc);
int __wrap_uv_pipe_init(uv_loop_t *l, uv_pipe_t *p, int ipc){ if(!modelled) return __real_uv_pipe_init(l, p, ipc); L.init++; return 0; }
int __real_uv_pipe_chmod(uv_pipe_t *p, int f); int __wrap_uv_pipe_chmod(uv_pipe_t *p, int f);
int __wrap_uv_pipe_chmod(uv_pipe_t *p, int f){ if(!modelled) return __real_uv_pipe_chmod(p, f); return 0; }
derr_t __real_duv_pipe_bind_with_lock(uv_pipe_t *p, const string_builder_t a, const string_builder_t b, int *out); derr_t __wrap_duv_pipe_bind_with_lock(uv_pipe_t *p, const string_builder_t a, const string_builder_t b, int *out);
derr_t __wrap_duv_pipe_bind_with_lock(uv_pipe_t *p, const string_builder_t a, const string_builder_t b, int *out){ if(!modelled) return __real_duv_pipe_bind_with_lock(p, a, b, out); *out = -1; return E_OK; }
int __real_uv_listen(uv_stream_t *s, int n, uv_connection_cb cb); int __wrap_uv_listen(uv_stream_t *s, int n, uv_connection_cb cb);
int __wrap_uv_listen(uv_stream_t *s, int n, uv_connection_cb cb){ if(!modelled) return __real_uv_listen(s, n, cb); L.h = (uv_pipe_t*)s; L.cb = cb; L.listening = true; return 0; }
int __real_uv_accept(uv_stream_t *s, uv_stream_t *c); int __wrap_uv_accept(uv_stream_t *s, uv_stream_t *c);
int __wrap_uv_accept(uv_stream_t *s, uv_stream_t *cl){
    if(!modelled) return __real_uv_accept(s, cl);
    if(!L.np) return UV_EAGAIN;
    conn_t *c = &C[L.pending[0]]; L.np--; memmove(L.pending, L.pending + 1, sizeof(int) * (size_t)L.np);
    c->end[0] = (uv_pipe_t*)cl; c->accepted = true;
    return 0;
}
int __real_uv_read_start(uv_stream_t *s, uv_alloc_cb a, uv_read_cb r); int __wrap_uv_read_start(uv_stream_t *s, uv_alloc_cb a, uv_read_cb r);
static void wake(int c){   // what can arrive
    conn_t *k = &C[c];
    for(int s = 0; s < 2; s++) if(k->end[s] && k->reading[s] && !k->closing[s]){
        if(k->q[s].at < k->q[s].n) post(E_DATA, c, s, NULL);
        else if(s == 0 ? k->gone || k->shut || (!k->raw && k->closed[1]) : k->closed[0] || !L.listening) { if(!k->seof[s]) post(E_EOF, c, s, NULL); }
    }
}
int __wrap_uv_read_start(uv_stream_t *st, uv_alloc_cb a, uv_read_cb r){
    if(!modelled) return __real_uv_read_start(st, a, r);
    int c, s; if(!find(st, &c, &s)) mc_fail("handle", "uv_read_start on an unknown pipe");
    if(C[c].closing[s]) return UV_EINVAL;
    if(C[c].reading[s]) return UV_EALREADY;
    C[c].reading[s] = true; C[c].alloc[s] = a; C[c].rcb[s] = r; C[c].seof[s] = false; wake(c);
    return 0;
}
int __real_uv_read_stop(uv_stream_t *s); int __wrap_uv_read_stop(uv_stream_t *s);
int __wrap_uv_read_stop(uv_stream_t *st){
    if(!modelled) return __real_uv_read_stop(st);
    int c, s; if(find(st, &c, &s)) C[c].reading[s] = false;
    return 0;
}
static void try_write(int c, int s){
    // the other side's buffer takes what fits
    conn_t *k = &C[c]; int o = !s;
    if(!k->w[s].req || k->w[s].queued) return;
    bool dead = s == 0 ? k->gone || (!k->raw && k->closed[1]) : k->closed[0];
    if(dead){ k->w[s].queued = true; k->w[s].status = UV_EPIPE; post(E_WDONE, c, s, NULL); return; }
    q_t *q = &k->q[o];
    size_t room = k->raw && o == 1 ? (k->slow ? CAP : BUFN) - (q->n - q->at) : BUFN - q->n;
    if(q->n - q->at > CAP && k->slow && o == 1) room = 0;
    size_t n = k->w[s].buf.len - k->w[s].done; if(n > room) n = room;
    if(q->n + n > BUFN) mc_error("pipe");
    // straight from the caller's memory, which it must keep
    MC_CHECK(!memcmp(k->w[s].copy, k->w[s].buf.base, k->w[s].buf.len), "write-buffer", "the text of a write changed before it was written");
    memcpy(q->b + q->n, k->w[s].buf.base + k->w[s].done, n); q->n += n; k->w[s].done += n;
    if(k->w[s].done == k->w[s].buf.len){ k->w[s].queued = true; k->w[s].status = 0; post(E_WDONE, c, s, NULL); }
    wake(c);
}
int __real_uv_write(uv_write_t *req, uv_stream_t *st, const uv_buf_t bufs[], unsigned n, uv_write_cb cb); int __wrap_uv_write(uv_write_t *req, uv_stream_t *st, const uv_buf_t bufs[], unsigned n, uv_write_cb cb);
int __wrap_uv_write(uv_write_t *req, uv_stream_t *st, const uv_buf_t bufs[], unsigned n, uv_write_cb cb){
    if(!modelled) return __real_uv_write(req, st, bufs, n, cb);
    int c, s; if(!find(st, &c, &s)) mc_fail("handle", "uv_write on an unknown pipe");
    MC_CHECK(!C[c].closing[s], "write-after-close", "uv_write on a closing pipe");
    if(n != 1) mc_error("bufs");
    for(int i = 0; i < nc; i++) for(int j = 0; j < 2; j++) MC_CHECK(C[i].w[j].req != req, "write-req", "a uv_write_t was used twice at a time");
    if(C[c].w[s].req) mc_error("two writes at a time on a pipe");
    if(bufs[0].len > 4200) mc_error("long write");
    C[c].w[s].req = req; C[c].w[s].cb = cb; C[c].w[s].buf = bufs[0]; C[c].w[s].done = 0; C[c].w[s].queued = false; memcpy(C[c].w[s].copy, bufs[0].base, bufs[0].len);
    req->handle = st;
    try_write(c, s);
    return 0;
}
void __real_uv_close(uv_handle_t *h, uv_close_cb cb); void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb);
void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb){
    if(!modelled){ __real_uv_close(h, cb); return; }
    if(h == (uv_handle_t*)L.h){ MC_CHECK(!L.closing, "close-twice", "the listener is closed twice"); L.closing = true; L.listening = false; L.ccb = cb; post(E_LCLOSED, 0, 0, NULL); return; }
    int c, s; if(!find(h, &c, &s)) mc_fail("handle", "uv_close on an unknown pipe");
    MC_CHECK(!C[c].closing[s], "close-twice", "a pipe is closed twice");
    C[c].closing[s] = true; C[c].reading[s] = false; C[c].ccb[s] = cb;
    post(E_CLOSED, c, s, NULL);
}
void __real_uv_pipe_connect(uv_connect_t *req, uv_pipe_t *p, const char *name, uv_connect_cb cb); void __wrap_uv_pipe_connect(uv_connect_t *req, uv_pipe_t *p, const char *name, uv_connect_cb cb);
static int refuse;
void __wrap_uv_pipe_connect(uv_connect_t *req, uv_pipe_t *p, const char *name, uv_connect_cb cb){
    if(!modelled){ __real_uv_pipe_connect(req, p, name, cb); return; }
    if(nc == MAXC) mc_error("conns");
    int c, s; if(!find(p, &c, &s)) mc_fail("handle", "uv_pipe_connect on an unknown pipe");
    conn_t *k = &C[c];
    k->creq = req; k->ccb2 = cb; k->cstatus = 0;
    if(!L.listening || refuse) k->cstatus = UV_ECONNREFUSED;
    else { L.pending[L.np++] = c; post(E_ACCEPT, 0, 0, NULL); }
    post(E_CONNDONE, c, 1, NULL);
}

// ------------------------------------------------------------------ state
static status_server_t ss; static int done; static derr_type_t done_type; static int checks; static bool server_up;
static int state;            // number of the present state
static int nstate_max;
static const struct { status_maj_e maj; status_min_e min; const char *smaj, *smin, *conf, *tls; } ST[] = {
    { STATUS_MAJ_NEED_CONF, STATUS_MIN_NONE, "running, but requires configuration", "", "no", "no" },
    { STATUS_MAJ_TLS_FIRST, STATUS_MIN_CREATE_ACCOUNT, "obtaining initial tls certificate", "creating an acme account", "yes", "no" },
    { STATUS_MAJ_TLS_GOOD, STATUS_MIN_NONE, "certificate is ready for use", "", "yes", "yes" },
    { STATUS_MAJ_TLS_RENEW, STATUS_MIN_FINALIZE_ORDER, "renewing its tls certificate", "finalizing the acme order", "yes", "yes" },
    { STATUS_MAJ_TLS_EXPIRED, STATUS_MIN_RETRY, "certificate expired", "retrying again soon", "yes", "no" },
    { STATUS_MAJ_MANUAL_CERT, STATUS_MIN_NONE, "running with manual certificate", "", "na", "na" },
    { STATUS_MAJ_NO_TLS, STATUS_MIN_NONE, "running without tls", "", "na", "na" },
};
#define NST ((int)(sizeof(ST) / sizeof(*ST)))
static char domain[64]; static int st0;
static const char *dom(int i){ snprintf(domain, sizeof(domain), "d%d.us\"er.x", i); return domain; }
static dstr_t ddom(int i){ return dstr_from_cstr((char*)dom(i)); }
static bool upd_in_check;
static void update(void){ state++; if(state > nstate_max) nstate_max = state; int k = (st0 + state) % NST; mc_log("state %d: %s", state, ST[k].smaj); status_server_update(&ss, ST[k].maj, ST[k].min, ddom(state)); memset(domain, 'x', 8); }
static void check_cb(void *d){ (void)d; checks++; mc_log("check"); if(upd_in_check) update(); }
static void done_cb(void *d, derr_t e){ (void)d; done++; done_type = e.type; DROP_VAR(&e); server_up = false; }

// -------------------------------------------------- what a raw client reads
static const char *field(const char *line, const char *key, char *o){
    char k[40]; snprintf(k, sizeof(k), "\"%s\":", key);
    const char *p = strstr(line, k); if(!p) return NULL;
    p += strlen(k); while(*p == ' ') p++;
    size_t n = 0;
    if(*p == '"'){ for(p++; *p && *p != '"' && n < 90; p++){ if(*p == '\\') p++; o[n++] = *p; } }
    else while(*p && *p != ',' && *p != '}' && n < 90) o[n++] = *p++;
    o[n] = 0; return o;
}
typedef struct { int last, nstatus, nerr, nfail; bool bad; } seen_t;
static void read_line(conn_t *k, char *line, seen_t *s){
    char v[100], want[100]; int n;
    if(field(line, "fail", v)){ s->nfail++; MC_CHECK(k->toolong, "fail", "a client is told it failed: %s", line); return; }
    if(field(line, "status", v)){ MC_CHECK(!strcmp(v, "error") && field(line, "reason", v), "answer", "an answer is %s", line); s->nerr++; return; }
    MC_CHECK(field(line, "fulldomain", v) && sscanf(v, "d%d.", &n) == 1, "status", "a status message has no known domain: %s", line);
    snprintf(want, sizeof(want), "%s", dom(n)); MC_CHECK(!strcmp(v, want), "status", "the domain of state %d is sent as %s", n, v);
    int i = (st0 + n) % NST;
    MC_CHECK(field(line, "major", v) && !strcmp(v, ST[i].smaj), "status", "state %d is sent as %s", n, line);
    MC_CHECK(field(line, "minor", v) && !strcmp(v, ST[i].smin), "status", "state %d is sent as %s", n, line);
    MC_CHECK(field(line, "configured", v) && !strcmp(v, ST[i].conf), "status", "state %d is sent as %s", n, line);
    MC_CHECK(field(line, "tls_ready", v) && !strcmp(v, ST[i].tls), "status", "state %d is sent as %s", n, line);
    bool ver = field(line, "version_maj", v) && atoi(v) == SM_VER_MAJ && field(line, "version_min", v) && atoi(v) == SM_VER_MIN && field(line, "version_patch", v) && atoi(v) == SM_VER_PAT;
    MC_CHECK(ver || s->nstatus, "version", "the first message has no version: %s", line);
    MC_CHECK(n >= k->born && n <= state, "status-old", "a client which connected in state %d is told state %d in state %d", k->born, n, state);
    MC_CHECK(!s->nstatus || n >= s->last, "status-order", "state %d is told after state %d", n, s->last);
    s->last = n; s->nstatus++;
}
static void read_all(conn_t *k, seen_t *s){
    memset(s, 0, sizeof(*s)); s->last = -1;
    static char line[BUFN];
    for(size_t i = 0; i < k->q[1].n; ){
        char *e = memchr(k->q[1].b + i, '\n', k->q[1].n - i);
        if(!e) break;
        size_t n = (size_t)(e - k->q[1].b) - i; memcpy(line, k->q[1].b + i, n); line[n] = 0; i += n + 1;
        read_line(k, line, s);
    }
}
// ----------------------------------------------------------- real clients
typedef struct { status_client_t sc; int c; bool used, want_close, done; int ndone, last, n, nchecks; derr_type_t t; int born; bool canceled; } rc_t;
static rc_t R[3]; static int nr;
static void r_update(void *d, citm_status_t st){
    rc_t *r = d; int n; char v[100], w[100];
    snprintf(v, sizeof(v), "%.*s", (int)st.fulldomain.len, st.fulldomain.data);
    MC_CHECK(!r->done, "after-done", "an update after the end");
    MC_CHECK(!r->canceled, "after-close", "an update after the client was closed");
    MC_CHECK(sscanf(v, "d%d.", &n) == 1, "client-status", "a client is told the domain %s", v);
    snprintf(w, sizeof(w), "%s", dom(n)); MC_CHECK(!strcmp(v, w), "client-status", "a client is told the domain %s", v);
    int i = (st0 + n) % NST;
    snprintf(w, sizeof(w), "%.*s", (int)st.status_maj.len, st.status_maj.data); MC_CHECK(!strcmp(w, ST[i].smaj), "client-status", "state %d is told as %s", n, w);
    snprintf(w, sizeof(w), "%.*s", (int)st.status_min.len, st.status_min.data); MC_CHECK(!strcmp(w, ST[i].smin), "client-status", "state %d is told as %s", n, w);
    static const char *T[] = { "no", "yes", "na" };
    MC_CHECK(!strcmp(T[st.configured], ST[i].conf) && !strcmp(T[st.tls_ready], ST[i].tls), "client-status", "state %d is told as %s %s", n, T[st.configured], T[st.tls_ready]);
    MC_CHECK(st.version_maj == SM_VER_MAJ && st.version_min == SM_VER_MIN && st.version_patch == SM_VER_PAT, "client-version", "a wrong version is told");
    MC_CHECK(n >= r->last && n <= state, "client-order", "state %d is told after state %d", n, r->last);
    r->last = n; r->n++;
    citm_status_free(&st);
    if(r->want_close && r->n == 1){ r->canceled = true; status_client_close(&r->sc); }
}
static void r_done(void *d, derr_t e){ rc_t *r = d; r->done = true; r->ndone++; r->t = e.type; DROP_VAR(&e); MC_CHECK(r->ndone == 1, "done", "a client ends twice"); }

// ----------------------------------------------------------------- events
static void do_event(int i){
    ev_t e = ev[i]; nev--; memmove(ev + i, ev + i + 1, sizeof(ev_t) * (size_t)(nev - i));
    conn_t *k = &C[e.c];
    switch(e.kind){
        case E_SCHED: e.s->cb(e.s); break;
        case E_ACCEPT: if(L.listening && L.np){ mc_log("accept"); L.cb((uv_stream_t*)L.h, 0); if(L.np) post(E_ACCEPT, 0, 0, NULL); } break;
        case E_DATA: {
            if(!k->reading[e.side] || k->closing[e.side]) break;
            q_t *q = &k->q[e.side];
            uv_buf_t b = {0}; k->alloc[e.side]((uv_handle_t*)k->end[e.side], 65536, &b);
            if(!b.base || !b.len){ k->rcb[e.side]((uv_stream_t*)k->end[e.side], UV_ENOBUFS, &b); break; }
            size_t n = q->n - q->at; if(n > b.len) n = b.len;
            if(n > 1 && mc_dev(2, "cut")) n = (n + 1) / 2;
            memcpy(b.base, q->b + q->at, n); q->at += n;
            mc_log("%s %d reads %zu bytes", e.side ? "client" : "server from", e.c, n);
            k->rcb[e.side]((uv_stream_t*)k->end[e.side], (ssize_t)n, &b);
            if(e.side == 1) try_write(e.c, 0); else try_write(e.c, 1);
            wake(e.c);
            break;
        }
        case E_EOF: {
            if(!k->reading[e.side] || k->closing[e.side] || k->seof[e.side]) break;
            uv_buf_t b = {0}; k->alloc[e.side]((uv_handle_t*)k->end[e.side], 65536, &b);
            mc_log("%d reads end of file", e.c);
            k->seof[e.side] = true; k->reading[e.side] = false;
            k->rcb[e.side]((uv_stream_t*)k->end[e.side], e.side == 0 && k->reset ? UV_ECONNRESET : UV_EOF, &b);
            break;
        }
        case E_WDONE: {
            if(!k->w[e.side].req) break;
            uv_write_t *rq = k->w[e.side].req; k->w[e.side].req = NULL; k->w[e.side].queued = false;
            mc_log("write of %s %d is done: %d", e.side ? "client" : "server to", e.c, k->w[e.side].status);
            k->w[e.side].cb(rq, k->w[e.side].status);
            break;
        }
        case E_CONNDONE: {
            if(!k->creq) break;
            uv_connect_t *rq = k->creq; k->creq = NULL; mc_log("client %d connected: %d", e.c, k->cstatus); k->ccb2(rq, k->closing[1] ? UV_ECANCELED : k->cstatus); break;
        }
        case E_CLOSED:
            // what is under way ends first
            if(k->w[e.side].req){ uv_write_t *rq = k->w[e.side].req; int st = k->w[e.side].queued ? k->w[e.side].status : UV_ECANCELED; k->w[e.side].req = NULL; k->w[e.side].queued = false; k->w[e.side].cb(rq, st); }
            if(e.side == 1 && k->creq){ uv_connect_t *rq = k->creq; k->creq = NULL; k->ccb2(rq, UV_ECANCELED); }
            k->closed[e.side] = true; mc_log("%s %d closed", e.side ? "client" : "server side of", e.c);
            { uv_pipe_t *h = k->end[e.side]; k->end[e.side] = NULL; k->ccb[e.side]((uv_handle_t*)h); }
            try_write(e.c, !e.side); wake(e.c);
            break;
        case E_LCLOSED: L.closed = true; for(int c = 0; c < nc; c++){ if(!C[c].accepted) { C[c].closed[0] = true; wake(c); } } L.ccb((uv_handle_t*)L.h); break;
    }
}
static void drain(void){ int n = 0; while(nev){ do_event(0); if(++n > 5000) mc_fail("busy", "the service never comes to rest"); } }

// ---------------------------------------------------------------- actions
static const char *TXT[] = { "{\"command\":\"check\"}\n", "{\"command\":\"check\"}\n{\"command\":\"check\"}\n", "{\"command\":\"stop\"}\n", "garbage\n", "{\"command\":\"check\"}\n{\"x\":1}\n", "{\"command\"", ":\"check\"}\n", "\n", NULL, "{\"a\":[1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6]}\n{\"command\":\"check\",\"x\":2}\n" };
#define NTXT ((unsigned)(sizeof(TXT) / sizeof(*TXT)))
static void put(conn_t *k, const char *t, size_t n){ if(k->q[0].n + n > BUFN) mc_error("full"); memcpy(k->q[0].b + k->q[0].n, t, n); k->q[0].n += n; }
// what the lines mean which a client sent in all
static void count(conn_t *k, int *nchecks, int *nbad, bool *toolong){
    *nchecks = *nbad = 0; *toolong = false;
    size_t i = 0;
    while(i < k->q[0].n){
        char *e = memchr(k->q[0].b + i, '\n', k->q[0].n - i);
        if(!e){ if(k->q[0].n - i >= 4096) *toolong = true; return; }
        size_t n = (size_t)(e - k->q[0].b) - i;
        if(n >= 4096){ *toolong = true; return; }
        if(n == 19 && !memcmp(k->q[0].b + i, "{\"command\":\"check\"}", 19)) (*nchecks)++; else (*nbad)++;
        i += n + 1;
    }
}
static void act_connect(bool slow){
    conn_t *k = &C[nc]; memset(k, 0, sizeof(*k)); k->used = k->raw = true; k->slow = slow; k->born = state;
    k->end[1] = NULL;
    mc_log("raw client %d connects%s", nc, slow ? " (never reads)" : "");
    L.pending[L.np++] = nc; nc++;
    if(L.listening) post(E_ACCEPT, 0, 0, NULL);
}
static void act_send(int c, unsigned t){
    static char big[5000]; conn_t *k = &C[c];
    if(!TXT[t]){ memset(big, 'z', 4096); put(k, big, 4096); mc_log("client %d sends 4096 z", c); }
    else { put(k, TXT[t], strlen(TXT[t])); mc_log("client %d sends %s", c, TXT[t]); }
    int a, b; count(k, &a, &b, &k->toolong);
    wake(c);
}
static void act_gone(int c, bool rst){ mc_log("client %d hangs up", c); C[c].gone = true; C[c].reset = rst; try_write(c, 0); wake(c); }
static void act_real(bool close_in_cb){
    rc_t *r = &R[nr]; memset(r, 0, sizeof(*r)); r->used = true; r->want_close = close_in_cb; r->last = -1; r->c = nc; r->born = state;
    memset(&C[nc], 0, sizeof(C[nc])); C[nc].used = true; C[nc].end[1] = &r->sc.pipe; nc++; nr++;
    mc_log("client %d starts", r->c);
    derr_t e = status_client_init(&r->sc, NULL, &sched, SBS("/x.sock"), r_update, r_done, r); if(is_error(e)) mc_error("client init");
}
// a client which does not read keeps the server from everything else: known
#define LIVE(cond, key, ...) do { if(!(cond)){ if(stuck){ mc_soft("slow-client-blocks", __VA_ARGS__); return; } mc_fail(key, __VA_ARGS__); } } while(0)
static void judge(void){
    int want = 0;
    bool stuck = false;
    for(int c = 0; c < nc; c++) if(C[c].raw && C[c].slow && C[c].w[0].req && !C[c].gone) stuck = true;
    for(int c = 0; c < nc; c++){
        conn_t *k = &C[c]; seen_t s; int nch, nbad; bool tl;
        if(!k->raw) continue;
        read_all(k, &s); count(k, &nch, &nbad, &tl);
        if(!(k->gone && (k->reset || 1))) want += nch;
        if(k->gone || k->slow) continue;
        if(!(tl && k->closed[0])) LIVE(s.nstatus >= 1 && s.last == state, "latest", "a client was told state %d, but the latest is %d", s.last, state);
        MC_CHECK(s.nstatus <= 1 + state - k->born, "too-many", "a client was told %d states while there were %d", s.nstatus, 1 + state - k->born);
        LIVE(s.nerr == nbad, "error-answers", "%d bad commands have %d answers", nbad, s.nerr);
        LIVE(s.nfail == tl, "too-long", "a client which sent too long a command was told so %d times", s.nfail);
        LIVE(!tl || k->closed[0], "too-long", "a client which sent too long a command is not disconnected");
        MC_CHECK(tl || !k->closed[0], "disconnected", "a client is disconnected");
    }
    for(int i = 0; i < nr; i++){
        rc_t *r = &R[i];
        want += r->nchecks;
        if(r->done || r->canceled) continue;
        LIVE(r->n >= 1 && r->last == state, "client-latest", "a client was told state %d, but the latest is %d", r->last, state);
    }
    bool anygone = false; for(int c = 0; c < nc; c++) anygone |= C[c].gone; for(int i = 0; i < nr; i++) anygone |= R[i].done;
    if(!anygone) LIVE(checks >= want, "checks", "%d checks were asked for, %d were made", want, checks);
}
static void run_world(void){
    modelled = true;
    memset(&L, 0, sizeof(L)); nc = nr = nev = 0; done = 0; checks = 0; state = nstate_max = 0; refuse = 0;
    memset(R, 0, sizeof(R));
    st0 = (int)mc_opt("st0", 0); upd_in_check = mc_opt("updcheck", 0);
    bool real = mc_opt("real", 0);
    unsigned depth = (unsigned)mc_opt("depth", 4), maxc = (unsigned)mc_opt("clients", 2);
    derr_t e = status_server_init(&ss, NULL, NULL, &sched, SBS("/x.sock"), ST[st0].maj, ST[st0].min, ddom(0), check_cb, done_cb, NULL);
    if(is_error(e)) mc_error("init");
    server_up = true;
    bool closing = false;
    for(unsigned d = 0; d <= depth; d++){
        // let some events happen: all of them, unless it is decided otherwise
        while(nev){
            unsigned k = mc_dev((unsigned)nev + (d < depth && !closing ? 1 : 0), "event");
            if(k == (unsigned)nev) break;
            do_event((int)k);
        }
        if(!nev && !closing){ if(server_up) judge(); }
        if(d == depth || closing) break;
        // actions: update, close the server, connect, then for each client its own
        struct { int what, c; unsigned x; } A[64]; unsigned n = 0;
        #define ADD(w, cc, xx) (A[n].what = w, A[n].c = cc, A[n].x = xx, n++)
        ADD(0, 0, 0);
        if((unsigned)nc < maxc){ if(!real || mc_opt("mixed", 0)){ ADD(2, 0, 0); if(mc_opt("slow", 0)) ADD(2, 0, 1); } if(real && nr < 3){ ADD(3, 0, 0); ADD(3, 0, 1); } }
        for(int c = 0; c < nc; c++) if(C[c].raw && !C[c].gone && !C[c].closed[0]){
            if(!C[c].shut) for(unsigned t = 0; t < NTXT; t++) ADD(4, c, t);
            ADD(5, c, 0); ADD(5, c, 1); if(!C[c].shut) ADD(6, c, 0);
        }
        for(int i = 0; i < nr; i++) if(!R[i].done && !R[i].canceled){ ADD(7, i, 0); ADD(8, i, 0); }
        ADD(1, 0, 0);
        unsigned k = mc_choose(n, "action");
        switch(A[k].what){
            case 0: update(); break;
            case 1: mc_log("the server closes"); closing = true; MC_CHECK(status_server_close(&ss), "close", "closing a running server does nothing"); break;
            case 2: act_connect(A[k].x); break;
            case 3: act_real(A[k].x); break;
            case 4: act_send(A[k].c, A[k].x); break;
            case 5: act_gone(A[k].c, A[k].x); break;
            case 6: C[A[k].c].shut = true; mc_log("client %d sends no more", A[k].c); wake(A[k].c); break;
            case 7: R[A[k].c].nchecks += !R[A[k].c].nchecks; mc_log("client asks for a check"); status_client_check(&R[A[k].c].sc); break;
            case 8: R[A[k].c].canceled = true; mc_log("client is closed"); MC_CHECK(status_client_close(&R[A[k].c].sc), "client-close", "closing a running client does nothing"); break;
        }
    }
    if(closing) while(nev){ unsigned k = mc_dev((unsigned)nev, "event"); do_event((int)k); }
    drain();
    if(!closing){ judge(); MC_CHECK(!done, "ended", "the server ended by itself: %s", error_to_dstr(done_type).data); MC_CHECK(status_server_close(&ss), "close", "closing a running server does nothing"); drain(); }
    MC_CHECK(done == 1, "server-done", "the server reports its end %d times", done);
    MC_CHECK(done_type == E_CANCELED, "server-done", "a closed server ends with %s", error_to_dstr(done_type).data);
    MC_CHECK(!status_server_close(&ss), "close", "closing an ended server promises an end");
    for(int c = 0; c < nc; c++) MC_CHECK(!C[c].accepted || C[c].closed[0], "leak", "the connection of a client is not closed");
    for(int i = 0; i < nr; i++){
        MC_CHECK(R[i].done, "client-done", "a client does not end with the server");
        MC_CHECK(R[i].canceled ? R[i].t == E_CANCELED : R[i].t != E_NONE && R[i].t != E_CANCELED, "client-done", "a client which was %s ends with %s", R[i].canceled ? "closed" : "left by the server", error_to_dstr(R[i].t).data);
        MC_CHECK(C[R[i].c].closed[1], "leak", "the connection of a client is not closed");
    }
    mc_outcome((uint64_t)checks * 64 + (uint64_t)state * 8 + (unsigned)nc);
    mc_case(1);
}
// two servers on one socket: the second is refused and the first undisturbed
static void on_conn2(void *d){ (void)d; }
static void run_lock(void){
    modelled = false;
    unsigned suffix = mc_choose(2, "name"), stale = mc_choose(2, "stale socket"), order = mc_choose(2, "again after the end");
    char sock[200], lock[200]; snprintf(sock, sizeof(sock), "%s/%s", mc_scratch(), suffix ? "s.sock" : "sx"); snprintf(lock, sizeof(lock), "%s/%s", mc_scratch(), suffix ? "s.lock" : "sx.lock");
    unlink(sock); unlink(lock);
    if(stale){ int fd = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a = { .sun_family = AF_UNIX }; snprintf(a.sun_path, sizeof(a.sun_path), "%s", sock); if(bind(fd, (struct sockaddr*)&a, sizeof(a))) mc_error("bind"); close(fd); }
    uv_loop_t loop; uv_loop_init(&loop);
    duv_scheduler_t ds; derr_t e = duv_scheduler_init(&ds, &loop); if(is_error(e)) mc_error("sched");
    status_server_t s1; done = 0;
    e = status_server_init(&s1, NULL, &loop, &ds.iface, SBS(sock), ST[0].maj, ST[0].min, ddom(0), on_conn2, done_cb, NULL);
    MC_CHECK(!is_error(e), "start", "a server does not start: %s", error_to_dstr(e.type).data);
    struct stat st1, st2; if(stat(sock, &st1)) mc_fail("start", "there is no socket");
    for(int round = 0; round < 2; round++){
        pid_t p = fork();
        if(!p){
            uv_loop_t l2; uv_loop_init(&l2); duv_scheduler_t d2; e = duv_scheduler_init(&d2, &l2); if(is_error(e)) _exit(9);
            status_server_t s2;
            e = status_server_init(&s2, NULL, &l2, &d2.iface, SBS(sock), ST[0].maj, ST[0].min, ddom(0), on_conn2, done_cb, NULL);
            _exit(is_error(e) ? 1 : 0);
        }
        int w; waitpid(p, &w, 0);
        MC_CHECK(WIFEXITED(w) && WEXITSTATUS(w) != 9, "second", "a second server dies (%x)", (unsigned)w);
        MC_CHECK(WEXITSTATUS(w) == 1, "second", "a second server starts on the socket of a running one");
        MC_CHECK(!stat(sock, &st2) && st1.st_ino == st2.st_ino, "second", "a second server took the socket of a running one away");
    }
    status_server_close(&s1); uv_run(&loop, UV_RUN_NOWAIT);
    for(int i = 0; i < 20 && !done; i++) uv_run(&loop, UV_RUN_NOWAIT);
    MC_CHECK(done == 1, "server-done", "the server reports its end %d times", done);
    if(order){
        e = status_server_init(&s1, NULL, &loop, &ds.iface, SBS(sock), ST[0].maj, ST[0].min, ddom(0), on_conn2, done_cb, NULL);
        MC_CHECK(!is_error(e), "again", "a server does not start after the end of the one before: %s", error_to_dstr(e.type).data);
        done = 0; status_server_close(&s1); for(int i = 0; i < 20 && !done; i++) uv_run(&loop, UV_RUN_NOWAIT);
    }
    duv_scheduler_close(&ds); for(int i = 0; i < 20; i++) uv_run(&loop, UV_RUN_NOWAIT);
    MC_CHECK(uv_loop_close(&loop) == 0, "leak", "the server leaves open handles");
    mc_case(1);
}
static void run(void){ if(!strcmp(mc_opts("mode", "world"), "lock")) run_lock(); else run_world(); }
int main(int argc, char **argv){
    mc_harness_t h = { .name = "e03_status", .run = run, .exec_timeout = 60 };
    return mc_main(argc, argv, &h);
}
