/* C03: the real HTTP client (libhttp/duv_http.c with borrow, concat, limit,
   chunked and the marshaler) over model connections.

   mode=cuts    every response of a corpus, cut everywhere
   mode=trunc   every response of a corpus, ended early everywhere
   mode=alter   every byte of every response replaced by every other byte
   mode=reuse   sequences of requests on one client
   mode=sched   two requests, every order of events within the deviation bound */
#include "c_base.h"
#include "libhttp/libhttp.h"
#include <ctype.h>

/* ---- the outside: connections */
#define NC 8
#define OUTCAP 16384
static struct { ms_t s; bool live; char host[64]; char port[16]; char out[OUTCAP]; size_t seen; int replies; bool injected; char in[4096]; } C[NC];
static int nc;
static duv_connect_t *conn;             /* active attempt */
static bool conn_cancel;
static char conn_host[64], conn_port[16];
static struct { bool init, on, closing; uv_timer_t *h; uv_timer_cb cb; uv_close_cb ccb; uint64_t ms; } TM;
static duv_scheduler_t SC; static uv_loop_t LOOP;
static duv_http_t H;
static bool h_closed, h_closing; static int h_close_cbs;

derr_t __wrap_duv_connect(uv_loop_t *loop, uv_tcp_t *tcp, unsigned flags, duv_connect_t *c, duv_connect_cb cb, const dstr_t node, const dstr_t service, const struct addrinfo *hints);
derr_t __wrap_duv_connect(uv_loop_t *loop, uv_tcp_t *tcp, unsigned flags, duv_connect_t *c, duv_connect_cb cb, const dstr_t node, const dstr_t service, const struct addrinfo *hints){
    (void)loop; (void)tcp; (void)flags; (void)hints;
    derr_t e = E_OK;
    MC_CHECK(!conn, "connect-twice", "a second connection attempt while one is in progress");
    for(int i = 0; i < nc; i++) MC_CHECK(!C[i].live, "connect-twice", "a connection is opened while another one is open");
    void *data = c->data;
    memset(c, 0, sizeof(*c));
    c->data = data; c->cb = cb; c->active = true;
    conn = c; conn_cancel = false;
    snprintf(conn_host, sizeof(conn_host), "%.*s", (int)node.len, node.data);
    snprintf(conn_port, sizeof(conn_port), "%.*s", (int)service.len, service.data);
    mc_log("connect to %s:%s", conn_host, conn_port);
    return e;
}
void __wrap_duv_connect_cancel(duv_connect_t *c);
void __wrap_duv_connect_cancel(duv_connect_t *c){
    if(c->active){ c->canceling = true; conn_cancel = true; }
}
static ms_t *next_ms;
stream_i *__wrap_duv_passthru_init_tcp(duv_passthru_t *p, duv_scheduler_t *s, uv_tcp_t *t);
stream_i *__wrap_duv_passthru_init_tcp(duv_passthru_t *p, duv_scheduler_t *s, uv_tcp_t *t){
    (void)p; (void)s; (void)t;
    if(!next_ms) mc_error("unexpected stream");
    ms_t *m = next_ms; next_ms = NULL;
    return &m->s;
}
int __wrap_uv_timer_init(uv_loop_t *l, uv_timer_t *t);
int __wrap_uv_timer_init(uv_loop_t *l, uv_timer_t *t){ (void)l; TM.h = t; TM.init = true; return 0; }
int __wrap_uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t a, uint64_t b);
int __wrap_uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t a, uint64_t b){ (void)t; (void)b; MC_CHECK(!TM.closing, "timer", "timer started after it was closed"); TM.on = true; TM.cb = cb; TM.ms = a; return 0; }
int __wrap_uv_timer_stop(uv_timer_t *t);
int __wrap_uv_timer_stop(uv_timer_t *t){ (void)t; TM.on = false; return 0; }
void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb);
void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb){ (void)h; MC_CHECK(!TM.closing, "timer", "timer closed twice"); TM.closing = true; TM.on = false; TM.ccb = cb; }

static void conn_done(derr_type_t t){
    duv_connect_t *c = conn; conn = NULL;
    c->active = false;
    if(!t){
        if(nc >= NC) mc_error("too many connections");
        next_ms = &C[nc].s;
        ms_init(&C[nc].s, C[nc].in, 0);
        C[nc].s.out = C[nc].out; C[nc].s.outcap = OUTCAP; C[nc].s.id = nc;
        C[nc].live = true; C[nc].seen = 0; C[nc].replies = 0; C[nc].injected = false;
        snprintf(C[nc].host, sizeof(C[nc].host), "%s", conn_host);
        snprintf(C[nc].port, sizeof(C[nc].port), "%s", conn_port);
        nc++;
        mc_log("connected (%d)", nc - 1);
    }else mc_log("connect fails: %s", ename(t));
    derr_t e = E_OK; e.type = t;
    c->cb(c, e);
    next_ms = NULL;
}
/* the connection which is open now, or NULL */
static int cur(void){ for(int i = 0; i < nc; i++) if(C[i].live) return i; return -1; }
static void c_finish(int i, derr_type_t t){ C[i].live = false; mc_log("connection %d ends: %s", i, ename(t)); ms_finish(&C[i].s, t); }

/* ---- the user */
#define NR 4
#define BODYCAP 4096
typedef struct {
    duv_http_req_t req;
    rstream_i *r;
    bool started, awaiting, done, eof, canceled, awaited_by_lib;
    derr_type_t err;
    rstream_read_t rd[2]; bool out[2]; char mem[2][BODYCAP];
    int nout;
    size_t rsize;
    char body[BODYCAP]; size_t nbody;
    char hdrs[2048]; size_t nhdrs;
    int status; char reason[300]; size_t nreason;
    int id;
    bool injected;      /* something failed which may fail this request */
} ur_t;
DEF_CONTAINER_OF(ur_t, req, duv_http_req_t)
static ur_t R[NR];
static void r_hdr(duv_http_req_t *req, const http_pair_t h){
    ur_t *u = CONTAINER_OF(req, ur_t, req);
    MC_CHECK(!u->done, "late-header", "a header was given after the request ended");
    MC_CHECK(req->status, "no-status", "a header was given before the status");
    int k = snprintf(u->hdrs + u->nhdrs, sizeof(u->hdrs) - u->nhdrs, "%.*s=%.*s|", (int)h.key.len, h.key.data, (int)h.value.len, h.value.data);
    if(k > 0) u->nhdrs += (size_t)k;
    if(u->nhdrs >= sizeof(u->hdrs)) mc_error("headers too big");
}
static void r_read_cb(rstream_i *s, rstream_read_t *rd, dstr_t buf){
    duv_http_req_t *req = CONTAINER_OF(s, duv_http_req_t, iface);
    ur_t *u = CONTAINER_OF(req, ur_t, req);
    MC_CHECK(!u->done, "late-read", "read answered after the await callback");
    int k = rd == &u->rd[0] ? 0 : 1;
    MC_CHECK(u->out[k], "double-read", "a read was answered twice");
    MC_CHECK(buf.data == u->mem[k] && buf.len <= u->rsize, "read-buf", "a read was answered with another buffer");
    u->out[k] = false; u->nout--;
    if(!buf.len){ MC_CHECK(u->r->eof, "eof-flag", "an empty read before eof"); u->eof = true; return; }
    MC_CHECK(!u->eof, "data-after-eof", "data after the end of the body");
    if(u->nbody + buf.len > BODYCAP) mc_error("body too big");
    memcpy(u->body + u->nbody, buf.data, buf.len);
    u->nbody += buf.len;
}
static void r_await_cb(rstream_i *s, derr_t e, link_t *reads){
    duv_http_req_t *req = CONTAINER_OF(s, duv_http_req_t, iface);
    ur_t *u = CONTAINER_OF(req, ur_t, req);
    MC_CHECK(!u->done, "double-await", "the await callback was called twice");
    MC_CHECK(u->awaiting, "unasked", "the await callback was called without a request");
    u->done = true;
    u->err = e.type;
    int n = 0;
    link_t *l;
    while((l = link_list_pop_first(reads))){ n++; (void)l; }
    MC_CHECK(n == u->nout, "lost-reads", "%d reads were unanswered but %d were returned", u->nout, n);
    u->nout = 0; u->out[0] = u->out[1] = false;
    if(!e.type) MC_CHECK(u->eof || u->r->eof, "ok-without-eof", "request %d ended well before the end of its body", u->id);
    if(!e.type) MC_CHECK(n == 0, "ok-reads", "unanswered reads were returned without an error");
    u->status = req->status;
    size_t rl = req->reason.len < 256 ? req->reason.len : 256;
    if(req->reason.data) memcpy(u->reason, req->reason.data, rl); else rl = 0;
    u->nreason = rl;
    mc_log("request %d ends: %s status %d", u->id, ename(e.type), u->status);
    if(e.type) mc_log("%s", e.msg.data ? e.msg.data : "");
    DROP_VAR(&e);
    /* the request is the user's again */
}
static bool r_can_read(ur_t *u){ return u->started && !u->done && !u->eof && !u->canceled && u->nout < 2 && !u->r->eof && !u->r->awaited && !u->r->canceled; }
static void r_read(ur_t *u){
    int k = u->out[0] ? 1 : 0;
    dstr_t b; DSTR_WRAP(b, u->mem[k], u->rsize, false); b.len = 0; b.size = u->rsize;
    u->out[k] = true; u->nout++;
    bool ok = u->r->read(u->r, &u->rd[k], b, r_read_cb);
    MC_CHECK(ok, "refused", "a read was refused without a reason");
}
static void r_await(ur_t *u){
    u->awaiting = true;
    rstream_await_cb old = u->r->await(u->r, r_await_cb);
    MC_CHECK(!old, "await-first", "the first await returned another callback");
}
static void h_close_cb(duv_http_t *h){ (void)h; h_close_cbs++; h_closed = true; mc_log("client closed"); }

/* ---- the corpus */
typedef struct { const char *name; http_method_e m; int status; const char *reason, *hdrs, *body; int fr; bool close; const char *wire; } resp_t;
/* fr: 0 none, 1 length, 2 chunked, 3 until close */
#define CRLF "\r\n"
static const resp_t RESP[] = {
    {"len", HTTP_METHOD_GET, 200, "OK", "Content-Length=5|X-A=b c|", "hello", 1, false,
     "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX-A: b c\r\n\r\nhello"},
    {"chunked", HTTP_METHOD_GET, 200, "OK", "Transfer-Encoding=chunked|", "helloworld!", 2, false,
     "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n6\r\nworld!\r\n0\r\n\r\n"},
    {"trailer", HTTP_METHOD_GET, 200, "OK", "Transfer-Encoding=chunked|X-T=1|X-U=two|", "abcdefghijklmnop", 2, false,
     "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n10;x=y\r\nabcdefghijklmnop\r\n0\r\nX-T: 1\r\nX-U: two\r\n\r\n"},
    {"tillclose", HTTP_METHOD_GET, 404, "Not Found", "Server=x|", "all\r\n\r\nof it", 3, true,
     "HTTP/1.1 404 Not Found\r\nServer: x\r\n\r\nall\r\n\r\nof it"},
    {"head", HTTP_METHOD_HEAD, 200, "OK", "Content-Length=77|", "", 0, false,
     "HTTP/1.1 200 OK\r\nContent-Length: 77\r\n\r\n"},
    {"204", HTTP_METHOD_DELETE, 204, "No Content", "A=b|", "", 0, false,
     "HTTP/1.1 204 No Content\r\nA: b\r\n\r\n"},
    {"304", HTTP_METHOD_GET, 304, "Not Modified", "Content-Length=9|Transfer-Encoding=chunked|", NULL, 0, false,
     "HTTP/1.1 304 Not Modified\r\nContent-Length: 9\r\n\r\n"},
    {"len0", HTTP_METHOD_POST, 500, "Internal Server Error", "content-length=0|", "", 1, false,
     "HTTP/1.1 500 Internal Server Error\r\ncontent-length: 0\r\n\r\n"},
    {"close", HTTP_METHOD_PUT, 200, "OK", "CONNECTION=Close|Content-Length=3|", "a\r\n", 1, true,
     "HTTP/1.1 200 OK\r\nCONNECTION: Close\r\nContent-Length: 3\r\n\r\na\r\n"},
    {"nohdrs", HTTP_METHOD_GET, 200, "OK", "", "HTTP/1.1 500 no\r\n\r\n", 3, true,
     "HTTP/1.1 200 OK\r\n\r\nHTTP/1.1 500 no\r\n\r\n"},
    {"chunkclose", HTTP_METHOD_GET, 201, "Created", "Connection=close|Transfer-Encoding=chunked|", "0\r\n\r\n", 2, true,
     "HTTP/1.1 201 Created\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n0\r\n4\r\n\r\n\r\n\r\n0\r\n\r\n"},
    {"longlen", HTTP_METHOD_GET, 200, "OK", "Content-Length=40|", "0123456789012345678901234567890123456789", 1, false,
     "HTTP/1.1 200 OK\r\nContent-Length: 40\r\n\r\n0123456789012345678901234567890123456789"},
    {"words", HTTP_METHOD_GET, 200, "HTTPS Monk Decked gmt", "Monday-Sun=Chunked HTTP gmtx, Wed; \"q\\\"d\"|X.Y~z=Sat, 01 Jan 2022 00:00:00 GMT|Content-Length=1|", "x", 1, false,
     "HTTP/1.1 200 HTTPS Monk Decked gmt\r\nMonday-Sun: Chunked HTTP gmtx, Wed; \"q\\\"d\"\r\nX.Y~z:Sat, 01 Jan 2022 00:00:00 GMT  \r\nContent-Length:1\r\n\r\nx"},
    {"emptychunk", HTTP_METHOD_GET, 200, "OK", "Transfer-Encoding=chunked|", "", 2, false,
     "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n"},
};
#define NRESP (int)(sizeof(RESP)/sizeof(*RESP))
static const char *exp_hdrs(const resp_t *p){ return p->body ? p->hdrs : "Content-Length=9|"; }
static const char *exp_body(const resp_t *p){ return p->body ? p->body : ""; }

/* ---- setup */
static url_t URL[4]; static dstr_t URLT[4];
static const char *URLS[4] = { "http://one.example/a?b=c", "http://one.example:8080/", "http://two.example", "http://one.example:80/x#f" };
static void world(void){
    memset(C, 0, sizeof(C)); nc = 0; conn = NULL; next_ms = NULL;
    memset(&TM, 0, sizeof(TM)); memset(R, 0, sizeof(R)); memset(&H, 0, sizeof(H)); memset(&SC, 0, sizeof(SC));
    h_closed = h_closing = false; h_close_cbs = 0;
    sch_init();
    SC.iface.schedule = sch_schedule;
    for(int i = 0; i < 4; i++){
        DSTR_WRAP(URLT[i], (char*)(uintptr_t)URLS[i], strlen(URLS[i]), true);
        derr_t e = parse_url(&URLT[i], &URL[i]);
        if(is_error(e)) mc_error("url");
    }
    derr_t e = duv_http_init(&H, &LOOP, &SC, NULL);
    if(is_error(e)) mc_error("init");
}
static http_pairs_t P1[NR], P2[NR], BIG[NR];
static char bigv[9000];
static void r_start(int i, http_method_e m, int url, const char *body, size_t nbody, bool big){
    ur_t *u = &R[i];
    memset(u, 0, sizeof(*u));
    u->id = i; u->started = true; u->rsize = BODYCAP;
    dstr_t b = {0}; if(nbody) DSTR_WRAP(b, (char*)(uintptr_t)body, nbody, false);
    P1[i] = HTTP_PAIR("k v", "1&=");
    static char tag[NR][8]; snprintf(tag[i], sizeof(tag[i]), "val%d", i);
    dstr_t tv; DSTR_WRAP(tv, tag[i], 4, true);
    P2[i] = http_pair(DSTR_LIT("X-Req"), tv);
    http_pairs_t *hdrs = &P2[i];
    P2[i].prev = NULL; P1[i].prev = NULL;
    if(big){
        memset(bigv, 'v', sizeof(bigv));
        dstr_t v; DSTR_WRAP(v, bigv, (size_t)mc_opt("bigv", 5000), false);
        BIG[i] = http_pair(DSTR_LIT("X-Big"), v); BIG[i].prev = NULL; P2[i].prev = &BIG[i];
    }
    u->r = duv_http_req(&u->req, &H, m, URL[url], url == 0 ? &P1[i] : NULL, hdrs, b, r_hdr);
    mc_log("request %d: %s %s", i, http_method_to_dstr(m).data, URLS[url]);
}
/* the whole request at the start of buf? its length, or 0; complaints when it
   cannot become the right one */
static const char *BODY[3] = { "", "request body", "GET / HTTP/1.1\r\n\r\n" };
static size_t req_expect(const char *buf, size_t n, http_method_e m, int url, const char *body, size_t nbody, bool big){
    static const char *LINE[4] = { "/a?b=c&k+v=1%26%3D", "/", "/", "/x" };
    static const char *HOST[4] = { "one.example", "one.example:8080", "two.example", "one.example:80" };
    const char *eoh = NULL;
    for(size_t i = 0; i + 4 <= n; i++) if(!memcmp(buf + i, "\r\n\r\n", 4)){ eoh = buf + i + 4; break; }
    bool payload = m == HTTP_METHOD_POST || m == HTTP_METHOD_PUT;
    char line[200];
    int ll = snprintf(line, sizeof(line), "%s %s HTTP/1.1\r\n", http_method_to_dstr(m).data, LINE[url]);
    if(url == 3){
        /* a fragment may or may not be sent */
        char alt[200]; int al = snprintf(alt, sizeof(alt), "%s %s#f HTTP/1.1\r\n", http_method_to_dstr(m).data, LINE[url]);
        if(n >= (size_t)al && !memcmp(buf, alt, (size_t)al)){ memcpy(line, alt, sizeof(alt)); ll = al; }
        else if(n < (size_t)al) return 0;
    }
    size_t c = n < (size_t)ll ? n : (size_t)ll;
    MC_CHECK(!memcmp(buf, line, c), "request-line", "request line is %.*s", (int)(n < 60 ? n : 60), buf);
    if(!eoh){ MC_CHECK(n < 12000, "request-endless", "no end of the request's headers"); return 0; }
    int nhost = 0, ncl = 0, nx = 0, nbig = 0; long cl = -1;
    const char *p = buf + ll;
    while(p < eoh - 2){
        const char *q = memchr(p, '\r', (size_t)(eoh - p));
        MC_CHECK(q && q[1] == '\n', "request-header", "bad header line");
        const char *col = memchr(p, ':', (size_t)(q - p));
        MC_CHECK(col && col > p, "request-header", "bad header line %.*s", (int)(q - p > 60 ? 60 : q - p), p);
        size_t kl = (size_t)(col - p); const char *v = col + 1;
        while(v < q && *v == ' ') v++;
        size_t vl = (size_t)(q - v);
        if(kl == 4 && !strncasecmp(p, "host", 4)){ nhost++; MC_CHECK(vl == strlen(HOST[url]) && !memcmp(v, HOST[url], vl), "request-host", "Host is %.*s", (int)vl, v); }
        else if(kl == 14 && !strncasecmp(p, "content-length", 14)){ ncl++; cl = strtol(v, NULL, 10); }
        else if(kl == 5 && !memcmp(p, "X-Req", 5)){ nx++; MC_CHECK(vl == 4 && !memcmp(v, "val", 3), "request-header", "wrong value"); }
        else if(kl == 5 && !memcmp(p, "X-Big", 5)){ nbig++; MC_CHECK(vl == (size_t)mc_opt("bigv", 5000), "request-header", "long header has %zu bytes", vl); for(size_t i = 0; i < vl; i++) MC_CHECK(v[i] == 'v', "request-header", "long header is damaged"); }
        else if((kl == 2 && !memcmp(p, "TE", 2)) || (kl == 10 && !memcmp(p, "Connection", 10))) ;
        else mc_fail("request-header", "unexpected header %.*s", (int)kl, p);
        p = q + 2;
    }
    MC_CHECK(nhost == 1, "request-host", "%d Host headers", nhost);
    MC_CHECK(nx == 1 && nbig == (big ? 1 : 0), "request-header", "the caller's headers are missing or repeated");
    MC_CHECK(ncl == (payload ? 1 : 0) || (!payload && !nbody), "request-length", "%d Content-Length headers", ncl);
    if(payload) MC_CHECK(cl == (long)nbody, "request-length", "Content-Length %ld for %zu bytes", cl, nbody);
    size_t h = (size_t)(eoh - buf);
    size_t have = n - h < nbody ? n - h : nbody;
    MC_CHECK(!memcmp(buf + h, body, have), "request-body", "wrong request body");
    if(have < nbody) return 0;
    return h + nbody;
}

/* ---- straight runs: everything happens at once, except that the response
   arrives in the given pieces */
typedef struct { const char *data; size_t len; size_t cut[2]; size_t unit; int end; /* 0 silent, 1 eof, 2 error */ } feed_t;
static size_t feed_room(const feed_t *f, size_t pos){
    size_t lim = f->len;
    if(f->unit){ lim = pos + f->unit; if(lim > f->len) lim = f->len; }
    else for(int k = 0; k < 2; k++) if(f->cut[k] > pos && f->cut[k] < lim) lim = f->cut[k];
    return lim - pos;
}
static void drain(void){ int n = 0; while(sch_pending()){ sch_run_one(); if(++n > 100000) mc_fail("spin", "the scheduler is busy without end"); } }
/* one step of everything except the response; true if something happened */
static bool quiet_step(void){
    if(sch_pending()){ drain(); return true; }
    if(conn){ conn_done(conn_cancel ? E_CANCELED : E_NONE); return true; }
    int i = cur();
    if(i >= 0){
        if(C[i].s.s.canceled){ c_finish(i, E_CANCELED); return true; }
        if(!link_list_isempty(&C[i].s.writes)){ ms_write_done(&C[i].s); return true; }
    }
    return false;
}
static void feed_run(ur_t *u, const feed_t *f){
    int i; bool ended = false;
    for(int guard = 0; ; guard++){
        if(guard > 200000) mc_fail("spin", "no end");
        if(r_can_read(u) && u->nout == 0 && u->started){ r_read(u); continue; }
        if(quiet_step()) continue;
        i = cur();
        if(i < 0 || u->done) break;
        ms_t *m = &C[i].s;
        m->data = f->data; m->len = f->len;
        if(!link_list_isempty(&m->reads)){
            size_t n = feed_room(f, m->pos), room = ms_room(m);
            if(n > room) n = room;
            if(n){ ms_deliver(m, n); continue; }
            if(f->end == 1){ ms_eof(m); continue; }
            if(f->end == 2){ c_finish(i, E_CONN); continue; }
            break;
        }
        /* nobody reads: the server may close */
        if(m->s.eof && !ended){ ended = true; c_finish(i, E_NONE); continue; }
        break;
    }
}
static void teardown(void){
    if(!h_closing){ h_closing = true; MC_CHECK(duv_http_close(&H, h_close_cb), "close", "close promised no callback"); }
    for(int guard = 0; guard < 100000; guard++){
        if(quiet_step()) continue;
        if(TM.closing && TM.ccb){ uv_close_cb cb = TM.ccb; TM.ccb = NULL; cb((uv_handle_t*)TM.h); continue; }
        break;
    }
    for(int i = 0; i < NR; i++) if(R[i].started && !R[i].awaiting) r_await(&R[i]);
    for(int guard = 0; guard < 100000 && quiet_step(); guard++);
    for(int i = 0; i < NR; i++) if(R[i].started) MC_CHECK(R[i].done, "stuck", "request %d never ended after the client was closed", i);
    MC_CHECK(h_close_cbs == 1, "close", "the client's close callback was called %d times", h_close_cbs);
    MC_CHECK(cur() < 0, "close", "a connection was left open");
}

static void check_ok(ur_t *u, const resp_t *p){
    MC_CHECK(u->done, "stuck", "%s: the request never ended", p->name);
    MC_CHECK(!u->err, "failed", "%s: the request failed with %s", p->name, ename(u->err));
    MC_CHECK(u->status == p->status, "status", "%s: status %d", p->name, u->status);
    MC_CHECK(u->nreason == strlen(p->reason) && !memcmp(u->reason, p->reason, u->nreason), "reason", "%s: reason %.*s", p->name, (int)u->nreason, u->reason);
    MC_CHECK(!strcmp(u->hdrs, exp_hdrs(p)), "headers", "%s: headers %s", p->name, u->hdrs);
    MC_CHECK(u->nbody == strlen(exp_body(p)) && !memcmp(u->body, exp_body(p), u->nbody), "body", "%s: body %.*s", p->name, (int)u->nbody, u->body);
}
static const size_t RS[3] = { BODYCAP, 1, 3 };
static void one(const resp_t *p, const feed_t *f, size_t rs){
    world();
    r_start(0, p->m, 0, BODY[1], p->m == HTTP_METHOD_POST || p->m == HTTP_METHOD_PUT ? strlen(BODY[1]) : 0, false);
    R[0].rsize = rs;
    r_await(&R[0]);
    feed_run(&R[0], f);
}
static uint64_t r_hash(ur_t *u, bool nbody){
    uint64_t h = mc_hash_u(7, (uint64_t)(u->err ? 1 : 0));
    if(u->err) return h;
    h = mc_hash_u(h, (uint64_t)u->status);
    h = mc_hash(h, u->reason, u->nreason); h = mc_hash(h, u->hdrs, u->nhdrs);
    if(nbody) h = mc_hash(h, u->body, u->nbody);
    return h;
}
static void run_cuts(void){
    const resp_t *p = &RESP[mc_choose((unsigned)NRESP, "response")];
    size_t L = strlen(p->wire);
    unsigned e = mc_choose(p->fr == 3 ? 1 : 3, "end");
    size_t rs = RS[mc_choose(3, "read size")];
    unsigned c1 = mc_choose((unsigned)L + 1, "first cut");
    feed_t f = { .data = p->wire, .len = L, .end = p->fr == 3 ? 1 : (int)e };
    if(c1 == 0){ f.unit = 1; one(p, &f, rs); check_ok(&R[0], p); mc_case(1); teardown(); mc_note(mc_hash_u(r_hash(&R[0], true), c1)); return; }
    for(size_t c2 = c1; c2 <= L; c2++){
        f.cut[0] = c1; f.cut[1] = c2;
        one(p, &f, rs); check_ok(&R[0], p); mc_case(1); teardown();
    }
    mc_note(mc_hash_u(mc_hash_u(r_hash(&R[0], true), c1), rs * 4 + e));
    mc_outcome(r_hash(&R[0], true));
}
static void run_trunc(void){
    const resp_t *p = &RESP[mc_choose((unsigned)NRESP, "response")];
    size_t L = strlen(p->wire);
    unsigned e = 1 + mc_choose(2, "end");
    size_t rs = RS[mc_choose(3, "read size")];
    size_t n = mc_choose((unsigned)L, "length");
    const char *eoh = strstr(p->wire, "\r\n\r\n") + 4;
    for(size_t unit = 0; unit <= 2; unit++){
        feed_t f = { .data = p->wire, .len = n, .end = (int)e, .unit = unit };
        one(p, &f, rs);
        ur_t *u = &R[0];
        MC_CHECK(u->done, "stuck", "%s cut at %zu: the request never ended", p->name, n);
        bool fine = p->fr == 3 && e == 1 && n >= (size_t)(eoh - p->wire);
        if(fine) MC_CHECK(!u->err, "failed", "%s until %zu failed: %s", p->name, n, ename(u->err));
        else MC_CHECK(u->err, "short-accepted", "%s: the response ended early (%zu of %zu bytes, %s) but the request succeeded", p->name, n, L, e == 1 ? "eof" : "connection error");
        MC_CHECK(u->nbody <= strlen(exp_body(p)) && !memcmp(u->body, exp_body(p), u->nbody), "body", "%s: body %.*s", p->name, (int)u->nbody, u->body);
        mc_case(1); mc_outcome(r_hash(u, true)); mc_note(mc_hash_u(mc_hash_u(r_hash(u, true), n), rs * 4 + e));
        teardown();
    }
}
/* a strict reader of responses; 0: not for it, 1: complete, with the
   surplus; 2: more needed */
static bool tchar(int c){ return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("!#$%&'*+-.^_`|~", c)); }
static char ref_body[BODYCAP]; static size_t ref_nbody; static char ref_hdrs[2048]; static int ref_status; static bool ref_chunked;
static int ref_headers(const char *s, size_t n, size_t *pos, long *cl, bool *chunked, bool trailer){
    char *o = ref_hdrs + strlen(ref_hdrs);
    while(true){
        size_t i = *pos, k;
        if(i + 2 <= n && s[i] == '\r' && s[i+1] == '\n'){ *pos = i + 2; return 1; }
        for(k = i; k < n && tchar((unsigned char)s[k]); k++);
        if(k >= n || k == i || s[k] != ':') return 0;
        size_t ke = k++;
        while(k < n && (s[k] == ' ')) k++;
        size_t v = k;
        for(; k < n && s[k] >= 0x20 && s[k] < 0x7f; k++);
        size_t ve = k;
        if(ve > v && s[ve-1] == ' ') return 0;
        if(ve == v) return 0;
        if(k + 2 > n || s[k] != '\r' || s[k+1] != '\n') return 0;
        *pos = k + 2;
        o += sprintf(o, "%.*s=%.*s|", (int)(ke - i), s + i, (int)(ve - v), s + v);
        if(ke - i == 14 && !strncasecmp(s + i, "content-length", 14)){
            if(trailer || ve - v > 9) return 0;
            for(size_t x = v; x < ve; x++) if(s[x] < '0' || s[x] > '9') return 0;
            if(*cl >= 0 || *chunked) return 0;
            *cl = strtol(s + v, NULL, 10);
        }else if(ke - i == 17 && !strncasecmp(s + i, "transfer-encoding", 17)){
            if(trailer || *cl >= 0 || *chunked || ve - v != 7 || memcmp(s + v, "chunked", 7)) return 0;
            *chunked = true;
        }
    }
}
static int ref_read(const char *s, size_t n, http_method_e m, size_t *surplus){
    ref_nbody = 0; ref_hdrs[0] = 0; *surplus = 0;
    if(n < 14 || memcmp(s, "HTTP/1.", 7) || (s[7] != '1') || s[8] != ' ') return 0;
    for(int k = 9; k < 12; k++) if(s[k] < '0' || s[k] > '9') return 0;
    ref_status = (s[9]-'0')*100 + (s[10]-'0')*10 + s[11]-'0';
    if(ref_status < 200 || ref_status > 599 || s[12] != ' ') return 0;
    size_t i = 13;
    while(i < n && s[i] >= 0x20 && s[i] < 0x7f) i++;
    if(i + 2 > n || s[i] != '\r' || s[i+1] != '\n') return 0;
    i += 2;
    long cl = -1; bool ch = false;
    if(!ref_headers(s, n, &i, &cl, &ch, false)) return 0;
    ref_chunked = ch;
    if(m == HTTP_METHOD_HEAD || ref_status == 204 || ref_status == 304){ *surplus = n - i; ref_chunked = false; return 1; }
    if(ch){
        while(true){
            size_t k = i, sz = 0; int nd = 0;
            while(k < n && isxdigit((unsigned char)s[k])){ sz = sz * 16 + (size_t)(s[k] <= '9' ? s[k]-'0' : (s[k]|32)-'a'+10); k++; if(++nd > 6) return 0; }
            if(!nd) return 0;
            if(k < n && s[k] == ';'){ k++; size_t a = k; while(k < n && (tchar((unsigned char)s[k]))) k++; if(k == a) return 0; if(k < n && s[k] == '='){ k++; a = k; while(k < n && tchar((unsigned char)s[k])) k++; if(k == a) return 0; } }
            if(k + 2 > n || s[k] != '\r' || s[k+1] != '\n') return 0;
            i = k + 2;
            if(!sz) break;
            if(i + sz + 2 > n) return 2;
            memcpy(ref_body + ref_nbody, s + i, sz); ref_nbody += sz; i += sz;
            if(s[i] != '\r' || s[i+1] != '\n') return 0;
            i += 2;
        }
        long x = -1; bool y = false; size_t t = i;
        if(!ref_headers(s, n, &i, &x, &y, true)) return 0;
        (void)t;
        *surplus = n - i;
        return 1;
    }
    if(cl >= 0){
        size_t have = n - i < (size_t)cl ? n - i : (size_t)cl;
        memcpy(ref_body, s + i, have); ref_nbody = have;
        if(have < (size_t)cl) return 2;
        *surplus = n - i - have;
        return 1;
    }
    memcpy(ref_body, s + i, n - i); ref_nbody = n - i;
    return 1;
}
static void run_alter(void){
    static char buf[1024];
    const resp_t *p = &RESP[mc_choose((unsigned)NRESP, "response")];
    size_t L = strlen(p->wire);
    unsigned kind = mc_choose(3, "kind");     /* replace, drop, insert */
    size_t at = mc_choose((unsigned)L, "position");
    for(int b = 0; b < 256; b++){
        if(kind == 1 && b) break;
        memcpy(buf, p->wire, L); size_t n = L;
        if(kind == 0){ if((unsigned char)buf[at] == b) continue; buf[at] = (char)b; }
        if(kind == 1){ memmove(buf + at, buf + at + 1, L - at - 1); n = L - 1; }
        if(kind == 2){ memmove(buf + at + 1, buf + at, L - at); buf[at] = (char)b; n = L + 1; }
        size_t surplus = 0;
        int ref = ref_read(buf, n, p->m, &surplus);
        uint64_t h0 = 0; bool first = true;
        for(int st = 0; st < 4; st++){
            feed_t f = { .data = buf, .len = n, .end = 1, .unit = st == 1 ? 1 : st == 2 ? 2 : 0 };
            if(st == 3){ f.cut[0] = at + (kind != 1); f.cut[1] = at + 2; if(at) f.cut[1] = at; if(f.cut[0] > n) f.cut[0] = n; }
            one(p, &f, st == 2 ? 3 : BODYCAP);
            ur_t *u = &R[0];
            MC_CHECK(u->done, "stuck", "altered %s: the request never ended", p->name);
            mc_case(1);
            /* surplus bytes after the response may be noticed or not */
            bool judged = !(ref == 1 && surplus);
            uint64_t h = r_hash(u, true);
            if(judged){
                if(first) h0 = h, first = false;
                else MC_CHECK(h == h0, "cut-dependent", "altered %s (kind %u, byte %zu to %d): the result depends on how the bytes arrived", p->name, kind, at, b);
            }
            if(ref == 1 && !surplus) MC_CHECK(!u->err, "refused-valid", "altered %s (kind %u, byte %zu to %d): a valid response failed: %s", p->name, kind, at, b, ename(u->err));
            if(ref == 2) MC_CHECK(u->err, "short-accepted", "altered %s (kind %u, byte %zu to %d): a response which ended early was accepted", p->name, kind, at, b);
            if(ref == 1 && !u->err){
                MC_CHECK(u->status == ref_status, "status", "altered %s: status %d, not %d", p->name, u->status, ref_status);
                MC_CHECK(u->nbody == ref_nbody && !memcmp(u->body, ref_body, ref_nbody), "body", "altered %s (kind %u, byte %zu to %d): wrong body %.*s", p->name, kind, at, b, (int)u->nbody, u->body);
                if(judged) MC_CHECK(!strcmp(u->hdrs, ref_hdrs), "headers", "altered %s (kind %u, byte %zu to %d): headers %s, not %s", p->name, kind, at, b, u->hdrs, ref_hdrs);
            }
            mc_outcome(h);
            teardown();
        }
        mc_note(mc_hash_u(mc_hash_u(h0, at), (uint64_t)b));
    }
}
/* ---- several requests: the server answers each complete request */
static const http_method_e METH[3] = { HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_HEAD };
static struct { http_method_e m; int url, resp; const char *body; size_t nbody; bool big; int conn; } Q[NR];
static int nq_answered;        /* requests answered by the server, in order */
static bool host_is(int c, int url){
    static const char *h[4] = { "one.example", "one.example", "two.example", "one.example" }; static const char *pt[4] = { "80", "8080", "80", "80" };
    return !strcmp(C[c].host, h[url]) && !strcmp(C[c].port, pt[url]);
}
static void push(int c, const char *d, size_t n){
    ms_t *m = &C[c].s;
    if(m->len + n > sizeof(C[c].in)) mc_error("too much input");
    memcpy(C[c].in + m->len, d, n); m->len += n;
}
static int inject_conn(int c){ C[c].injected = true; return c; }
/* look at the bytes written on the connection; answer complete requests */
static void serve(int c, int next){
    while(C[c].s.outlen > C[c].seen){
        int q = next;
        const char *b = C[c].out + C[c].seen; size_t n = C[c].s.outlen - C[c].seen;
        MC_CHECK(q < NR && R[q].started, "unasked-bytes", "bytes were written for no request: %.*s", (int)(n < 40 ? n : 40), b);
        MC_CHECK(host_is(c, Q[q].url), "wrong-server", "the request for %s was sent to %s:%s", URLS[Q[q].url], C[c].host, C[c].port);
        size_t k = req_expect(b, n, Q[q].m, Q[q].url, Q[q].body, Q[q].nbody, Q[q].big);
        if(!k) return;
        C[c].seen += k;
        C[c].replies++;
        Q[q].conn = c;
        nq_answered++;
        const resp_t *p = &RESP[Q[q].resp];
        push(c, p->wire, strlen(p->wire));
        mc_log("server answers request %d with %s on connection %d", q, p->name, c);
        return;
    }
}
static int rpool[16], nrpool;
static void pick_resps(void){
    nrpool = 0;
    static const char *pool[] = { "len", "chunked", "tillclose", "204", "close", "chunkclose", "trailer", "len0" };
    for(unsigned k = 0; k < sizeof(pool)/sizeof(*pool); k++) for(int i = 0; i < NRESP; i++) if(!strcmp(RESP[i].name, pool[k])) rpool[nrpool++] = i;
}
static int find_resp(const char *name){ for(int i = 0; i < NRESP; i++) if(!strcmp(RESP[i].name, name)) return i; mc_error("no such response"); return 0; }
static void q_choose(int i){
    unsigned m = mc_choose(3, "method");
    Q[i].m = METH[m];
    Q[i].url = (int)mc_choose((unsigned)mc_opt("urls", 4), "url");
    Q[i].big = mc_opt("big", 1) && mc_choose(2, "big");
    Q[i].body = BODY[m == 1 ? 1 + mc_choose(2, "body") : 0]; Q[i].nbody = strlen(Q[i].body);
    if(Q[i].m == HTTP_METHOD_HEAD) Q[i].resp = find_resp("head");
    else Q[i].resp = rpool[mc_choose((unsigned)nrpool, "response")];
    Q[i].conn = -1;
}
static void run_reuse(void){
    int n = (int)mc_opt("reqs", 2);
    pick_resps();
    world();
    nq_answered = 0;
    unsigned unit = mc_choose(2, "unit") ? 1 : 0;
    bool linger = mc_choose(2, "linger");      /* the server keeps connections it said it would close */
    for(int i = 0; i < n; i++) q_choose(i);
    bool queued = mc_choose(2, "queued");       /* all requests at once */
    int idle = -1;
    if(!queued && n > 1) idle = (int)mc_choose(2, "idle") - 1;  /* idle timer before the second */
    if(queued) for(int i = 0; i < n; i++){ r_start(i, Q[i].m, Q[i].url, Q[i].body, Q[i].nbody, Q[i].big); r_await(&R[i]); }
    for(int i = 0; i < n; i++){
        if(!queued){
            if(i == 1 && idle == 0){
                for(int g = 0; g < 1000 && quiet_step(); g++);
                if(cur() >= 0){ MC_CHECK(TM.on, "idle", "an idle connection has no timer"); TM.on = false; TM.cb(TM.h); for(int g = 0; g < 1000 && quiet_step(); g++); MC_CHECK(cur() < 0, "idle", "the idle connection was not closed"); }
            }
            r_start(i, Q[i].m, Q[i].url, Q[i].body, Q[i].nbody, Q[i].big); r_await(&R[i]);
        }
        ur_t *u = &R[i];
        for(int guard = 0; ; guard++){
            if(guard > 100000) mc_fail("spin", "no end");
            if(r_can_read(u) && u->nout == 0){ r_read(u); continue; }
            if(quiet_step()){ int c = cur(); if(c >= 0) serve(c, nq_answered); continue; }
            if(u->done) break;
            int c = cur();
            if(c < 0) break;
            ms_t *m = &C[c].s;
            if(!link_list_isempty(&m->reads)){
                size_t room = ms_room(m);
                if(unit && room > 1) room = 1;
                if(room){ ms_deliver(m, room); continue; }
                if(Q[i].conn == c && RESP[Q[i].resp].close && (!linger || RESP[Q[i].resp].fr == 3)){ ms_eof(m); continue; }
                break;
            }
            if(m->s.eof){ c_finish(c, E_NONE); continue; }
            break;
        }
        MC_CHECK(u->done, "stuck", "request %d (%s) never ended", i, RESP[Q[i].resp].name);
        check_ok(u, &RESP[Q[i].resp]);
        if(i && Q[i].conn == Q[i-1].conn) MC_CHECK(!RESP[Q[i-1].resp].close, "reused-closed", "a connection was used again after the server said it would be closed");
        mc_case(1);
    }
    uint64_t h = 1; for(int i = 0; i < n; i++){ h = mc_hash_u(r_hash(&R[i], true), h); h = mc_hash_u(h, (uint64_t)Q[i].conn); h = mc_hash_u(h, (uint64_t)Q[i].url * 16 + (uint64_t)Q[i].m); }
    mc_note(h); mc_outcome(h);
    teardown();
}

/* ---- schedules */
enum { S_SCHED, S_CONN, S_CONNFAIL, S_DATA, S_BYTE, S_EOF, S_ERR, S_WDONE, S_END, S_TIMER, S_TCLOSE, S_READ, S_AWAIT, S_CANCEL, S_START, S_CLOSE, S_ENDERR, S_EARLY };
static struct { int what, i; } SM[64]; static unsigned nsm;
static void sm(int what, int i){ if(nsm >= 64) mc_error("menu"); SM[nsm].what = what; SM[nsm].i = i; nsm++; }
static bool early[NR];
/* the request these bytes belong to */
static int which(const char *b, size_t n){
    for(size_t i = 0; i + 11 < n; i++) if(!memcmp(b + i, "X-Req: val", 10)) return b[i + 10] - '0';
    return -1;
}
static int early_q(int c){
    if(C[c].seen > OUTCAP) return -1;
    int q = which(C[c].out + C[c].seen, C[c].s.outlen - C[c].seen);
    if(q >= 0 || link_list_isempty(&C[c].s.writes) || C[c].s.outlen > C[c].seen) return q;
    stream_write_t *w = CONTAINER_OF(C[c].s.writes.next, stream_write_t, link);
    return which(w->arraybufs[0].data, w->arraybufs[0].len);
}
static void run_sched(void){
    int n = (int)mc_opt("reqs", 2);
    pick_resps();
    world();
    nq_answered = 0; memset(early, 0, sizeof(early));
    nrpool = (int)mc_opt("resps", 4);
    for(int i = 0; i < n; i++){
        unsigned m = i == 0 ? mc_choose(2, "method") : 0;
        Q[i].m = METH[m];
        Q[i].url = i == 0 ? 0 : (int)(mc_choose(2, "url") ? 2 : 0);
        Q[i].big = i == 0 && mc_opt("big", 1) && m == 1;
        Q[i].body = BODY[m == 1 ? 1 : 0]; Q[i].nbody = strlen(Q[i].body);
        Q[i].resp = rpool[mc_choose((unsigned)nrpool, "response")];
        Q[i].conn = -1;
    }
    int started = 0; int faults = (int)mc_opt("faults", 1), cancels = (int)mc_opt("cancels", 1); bool closes = mc_opt("close", 1);
    int steps = 0;
    bool lazy = mc_opt("lazy", 0);
    size_t rsz = (size_t)mc_opt("rsize", BODYCAP);
    int served_q = 0;        /* the request the server expects next */
    while(true){
        if(++steps > 3000) mc_fail("spin", "no end");
        nsm = 0;
        int c = cur();
        ms_t *m = c >= 0 ? &C[c].s : NULL;
        bool pend = sch_pending();
        /* default order: user submits, scheduler, environment */
        bool ustart = started < n && !h_closing;
        for(int pass = 0; pass < 2; pass++){
            if(pass == (int)lazy){
                for(int i = 0; i < n; i++){
                    ur_t *u = &R[i];
                    if(!u->started) continue;
                    if(!u->awaiting && !u->done && !lazy) sm(S_AWAIT, i);
                    if(r_can_read(u) && u->nout == 0) sm(S_READ, i);
                }
                if(ustart) sm(S_START, started);
                if(lazy) for(int i = 0; i < n; i++) if(R[i].started && !R[i].awaiting && !R[i].done) sm(S_AWAIT, i);
            }else{
                if(pend) sm(S_SCHED, 0);
                if(conn) sm(S_CONN, 0);
                if(m){
                    if(!link_list_isempty(&m->writes)) sm(S_WDONE, c);
                    if(!link_list_isempty(&m->reads) && !m->s.eof){
                        size_t room = ms_room(m);
                        if(room) sm(S_DATA, c);
                        else if(served_q > 0 && Q[served_q-1].conn == c && RESP[Q[served_q-1].resp].close) sm(S_EOF, c);
                    }
                    if(m->s.canceled) sm(S_END, c);
                    else if(m->s.eof) sm(S_END, c);
                }
                if(TM.closing && TM.ccb) sm(S_TCLOSE, 0);
            }
        }
        unsigned ndef = nsm;
        if(!ndef){
            /* nothing left to do by itself */
            bool busy = false;
            for(int i = 0; i < n; i++) if(R[i].started && !R[i].done) busy = true;
            if(busy || started < n){
                MC_CHECK(h_closing || !busy, "stuck", "nothing can happen but a request has not ended");
            }
            if(!h_closing){
                if(c >= 0 && !busy) MC_CHECK(TM.on, "idle", "an idle connection has no timer");
            }
            break;
        }
        /* deviations */
        if(m){
            if(!link_list_isempty(&m->reads) && !m->s.eof && ms_room(m) > 1) sm(S_BYTE, c);
            if(faults > 0 && !m->s.canceled){ sm(S_ERR, c); if(!link_list_isempty(&m->reads) && !m->s.eof && ms_room(m) == 0) sm(S_EOF, c); }
            if(faults > 0 && m->s.canceled) sm(S_ENDERR, c);
        }
        if(conn && faults > 0) sm(S_CONNFAIL, 0);
        if(TM.on) sm(S_TIMER, 0);
        for(int i = 0; i < n; i++) if(R[i].started && !R[i].done && !R[i].canceled && cancels > 0) sm(S_CANCEL, i);
        if(closes && !h_closing) sm(S_CLOSE, 0);
        /* an answer before the request is complete, then the end */
        if(m && mc_opt("early", 1) && early_q(c) >= 0 && !m->s.eof) sm(S_EARLY, c);
        unsigned x = mc_dev(nsm, "event");
        int i = SM[x].i;
        switch(SM[x].what){
            case S_SCHED: mc_log("scheduler"); sch_run_one(); break;
            case S_CONN: conn_done(conn_cancel ? E_CANCELED : E_NONE); break;
            case S_CONNFAIL: faults--; for(int q = 0; q < n; q++) if(R[q].started && !R[q].done) R[q].injected = true; conn_done(E_CONN); break;
            case S_DATA: { size_t r = ms_room(m); mc_log("%zu bytes arrive", r); ms_deliver(m, r); break; }
            case S_BYTE: mc_log("1 byte arrives"); ms_deliver(m, 1); break;
            case S_EOF: mc_log("eof on %d", i); if(!(served_q > 0 && Q[served_q-1].conn == i && RESP[Q[served_q-1].resp].close)){ faults--; for(int q = 0; q < n; q++) if(R[q].started && !R[q].done) R[q].injected = true; } ms_eof(m); break;
            case S_ERR: faults--; inject_conn(i); for(int q = 0; q < n; q++) if(R[q].started && !R[q].done) R[q].injected = true; c_finish(i, E_CONN); break;
            case S_ENDERR: faults--; for(int q = 0; q < n; q++) if(R[q].started && !R[q].done) R[q].injected = true; c_finish(i, E_CONN); break;
            case S_WDONE: mc_log("write done"); ms_write_done(m);
                break;
            case S_END: c_finish(i, m->s.canceled ? E_CANCELED : E_NONE); break;
            case S_TIMER: mc_log("idle timer"); TM.on = false; TM.cb(TM.h); break;
            case S_TCLOSE: { uv_close_cb cb = TM.ccb; TM.ccb = NULL; cb((uv_handle_t*)TM.h); break; }
            case S_READ: mc_log("read %d", i); r_read(&R[i]); break;
            case S_AWAIT: mc_log("await %d", i); r_await(&R[i]); break;
            case S_CANCEL: mc_log("cancel %d", i); cancels--; R[i].canceled = true; R[i].r->cancel(R[i].r); break;
            case S_START: r_start(i, Q[i].m, Q[i].url, Q[i].body, Q[i].nbody, Q[i].big); R[i].rsize = rsz; started++; break;
            case S_CLOSE: mc_log("close"); h_closing = true; for(int q = 0; q < n; q++) if(R[q].started && !R[q].done) R[q].injected = true; MC_CHECK(duv_http_close(&H, h_close_cb), "close", "close promised no callback"); break;
            case S_EARLY: {
                served_q = early_q(i);
                /* "I will not read this": an answer and the end of the connection */
                mc_log("early answer to request %d", served_q);
                static const char E[] = "HTTP/1.1 413 too big\r\nConnection: close\r\nContent-Length: 2\r\n\r\nno";
                push(i, E, strlen(E)); early[served_q] = true; Q[served_q].conn = i; served_q++; nq_answered++;
                C[i].seen = (size_t)1 << 40;
                R[served_q-1].injected = true;
                break;
            }
        }
        /* the server: requests which were given up are skipped */
        c = cur();
        if(c >= 0 && C[c].s.outlen > C[c].seen){
            const char *b = C[c].out + C[c].seen; size_t k0 = C[c].s.outlen - C[c].seen;
            int q = which(b, k0);
            if(q < 0) continue;
            served_q = q;
            MC_CHECK(q < n && R[q].started, "unasked-bytes", "bytes were written for no request: %.*s", (int)(k0 < 40 ? k0 : 40), b);
            MC_CHECK(host_is(c, Q[q].url), "wrong-server", "the request for %s was sent to %s:%s", URLS[Q[q].url], C[c].host, C[c].port);
            size_t k = req_expect(b, k0, Q[q].m, Q[q].url, Q[q].body, Q[q].nbody, Q[q].big);
            if(k){ C[c].seen += k; Q[q].conn = c; served_q = q + 1; nq_answered = served_q; push(c, RESP[Q[q].resp].wire, strlen(RESP[Q[q].resp].wire)); mc_log("server answers request %d on %d", q, c); }
        }
    }
    for(int i = 0; i < n; i++) if(R[i].started){
        ur_t *u = &R[i];
        if(!u->done){ MC_CHECK(h_closing, "stuck", "request %d never ended", i); continue; }
        if(!u->err){
            if(early[i]) MC_CHECK(u->status == 413 && u->nbody == 2, "early", "wrong early answer");
            else check_ok(u, &RESP[Q[i].resp]);
        }else MC_CHECK(u->canceled || u->injected, "failed", "request %d failed without a reason: %s", i, ename(u->err));
        if(u->err == E_CANCELED) MC_CHECK(u->canceled || h_closing, "cancelled", "request %d ended as cancelled", i);
    }
    uint64_t h = 1; for(int i = 0; i < n; i++) h = mc_hash_u(h, r_hash(&R[i], true) + (uint64_t)R[i].done);
    mc_outcome(h);
    teardown();
    mc_case(1);
}
static void run(void){
    const char *m = mc_opts("mode", "cuts");
    if(!strcmp(m, "cuts")) run_cuts();
    else if(!strcmp(m, "trunc")) run_trunc();
    else if(!strcmp(m, "alter")) run_alter();
    else if(!strcmp(m, "reuse")) run_reuse();
    else run_sched();
}
int main(int argc, char **argv){
    static const mc_harness_t h = { .name = "c03_http", .run = run, .exec_timeout = 20 };
    return mc_main(argc, argv, &h);
}
