/* C01: the real pass-through stream and its scheduler on a controlled libuv,
   and the in-memory stream. */
#include "c_base.h"
#include "c_user2.h"

/* ---- libuv, as far as libduv/passthru.c and scheduler.c use it */
#define QW 16
static struct {
    uv_stream_t *st;
    bool reading, eof, rerr, writable, closing, closed, timer, timer_init;
    uv_alloc_cb alloc; uv_read_cb rcb;
    uv_timer_cb tcb; uv_timer_t *timer_h;
    struct { uv_write_t *req; uv_write_cb cb; size_t len; char b[8]; } w[QW]; int nw;
    uv_shutdown_t *sreq; uv_shutdown_cb scb;
    uv_close_cb ccb;
    char out[VSRC]; size_t nout;
    size_t pos;
    bool broken;
} G;
static int fails_left;
int __wrap_uv_read_start(uv_stream_t *s, uv_alloc_cb a, uv_read_cb r);
int __wrap_uv_read_start(uv_stream_t *s, uv_alloc_cb a, uv_read_cb r){
    if(G.closing) return UV_EINVAL;
    if(G.reading) return UV_EALREADY;
    if(G.rerr) return UV_ENOTCONN;
    if(fails_left > 0 && mc_opt("sync", 1) && mc_choose(2, "uv_read_start")){ fails_left--; V.base_failed = true; mc_log("uv_read_start fails"); return UV_ENOMEM; }
    G.st = s; G.alloc = a; G.rcb = r; G.reading = true;
    return 0;
}
int __wrap_uv_read_stop(uv_stream_t *s);
int __wrap_uv_read_stop(uv_stream_t *s){ (void)s; G.reading = false; return 0; }
int __wrap_uv_write(uv_write_t *req, uv_stream_t *s, const uv_buf_t bufs[], unsigned n, uv_write_cb cb);
int __wrap_uv_write(uv_write_t *req, uv_stream_t *s, const uv_buf_t bufs[], unsigned n, uv_write_cb cb){
    (void)s;
    MC_CHECK(!G.closing, "write-after-close", "uv_write on a closing handle");
    if(!G.writable) return UV_EPIPE;
    if(fails_left > 0 && mc_opt("sync", 1) && mc_choose(2, "uv_write")){ fails_left--; V.base_failed = true; mc_log("uv_write fails"); return UV_ENOMEM; }
    if(G.nw >= QW) mc_error("too many writes");
    for(int i = 0; i < G.nw; i++) MC_CHECK(G.w[i].req != req, "write-req", "a uv_write_t was used twice at a time");
    G.w[G.nw].req = req; G.w[G.nw].cb = cb; G.w[G.nw].len = 0;
    for(unsigned i = 0; i < n; i++){
        memcpy(G.w[G.nw].b + G.w[G.nw].len, bufs[i].base, bufs[i].len);
        G.w[G.nw].len += bufs[i].len;
    }
    G.nw++;
    return 0;
}
int __wrap_uv_shutdown(uv_shutdown_t *req, uv_stream_t *s, uv_shutdown_cb cb);
int __wrap_uv_shutdown(uv_shutdown_t *req, uv_stream_t *s, uv_shutdown_cb cb){
    (void)s;
    if(!G.writable || G.closing || G.sreq) return UV_ENOTCONN;
    G.writable = false;
    G.sreq = req; G.scb = cb;
    return 0;
}
void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb);
void __wrap_uv_close(uv_handle_t *h, uv_close_cb cb){
    (void)h;
    MC_CHECK(!G.closing, "close-twice", "uv_close on a closing handle");
    G.closing = true; G.reading = false; G.ccb = cb;
}
int __wrap_uv_timer_init(uv_loop_t *l, uv_timer_t *t);
int __wrap_uv_timer_init(uv_loop_t *l, uv_timer_t *t){ (void)l; G.timer_h = t; G.timer_init = true; return 0; }
int __wrap_uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t a, uint64_t b);
int __wrap_uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t a, uint64_t b){ (void)t; (void)a; (void)b; G.timer = true; G.tcb = cb; return 0; }
int __wrap_uv_timer_stop(uv_timer_t *t);
int __wrap_uv_timer_stop(uv_timer_t *t){ (void)t; G.timer = false; return 0; }

static size_t g_sunk(const char *src){
    MC_CHECK(G.nout <= V.written && !memcmp(G.out, src, G.nout), "written", "wrong bytes were written: %.*s", (int)G.nout, G.out);
    return G.nout;
}
static void w_done(int status){
    uv_write_t *req = G.w[0].req; uv_write_cb cb = G.w[0].cb;
    if(!status && !G.broken){ memcpy(G.out + G.nout, G.w[0].b, G.w[0].len); G.nout += G.w[0].len; }
    memmove(&G.w[0], &G.w[1], sizeof(G.w[0]) * (QW - 1)); memset(&G.w[QW - 1], 0, sizeof(G.w[0])); G.nw--;
    req->handle = G.st;
    cb(req, status);
}
enum { G_TIMER = 1, G_DATA, G_EAGAIN, G_EOF, G_RERR, G_WDONE, G_WERR, G_SHUT, G_SERR, G_CLOSE };
static duv_passthru_t P; static duv_scheduler_t SC; static uv_tcp_t TCP; static uv_loop_t LOOP;
static size_t srclen; static const char SRC[] = "abcdefgh";
static int eagain_left;
static void g_menu(void){
    menu.n = 0;
    if(G.timer) menu_add(X_OTHER, NULL, G_TIMER);
    if(G.reading && !G.closing && !G.eof && !G.rerr){
        if(G.pos < srclen) for(size_t n = srclen - G.pos < 16 ? srclen - G.pos : 16; n >= 1; n--) menu_add(X_OTHER, NULL, G_DATA + 16 * n);
        else menu_add(X_OTHER, NULL, G_EOF);
        if(eagain_left > 0) menu_add(X_OTHER, NULL, G_EAGAIN);
        if(fails_left > 0) menu_add(X_OTHER, NULL, G_RERR);
    }
    if(G.nw && !G.closing){ menu_add(X_OTHER, NULL, G_WDONE); if(fails_left > 0) menu_add(X_OTHER, NULL, G_WERR); }
    if(G.sreq && !G.nw && !G.closing){ menu_add(X_OTHER, NULL, G_SHUT); if(fails_left > 0) menu_add(X_OTHER, NULL, G_SERR); }
    if(G.closing && !G.closed) menu_add(X_OTHER, NULL, G_CLOSE);
}
static uv_buf_t g_alloc(void){
    uv_buf_t b = {0};
    G.alloc((uv_handle_t*)G.st, 65536, &b);
    MC_CHECK(b.base && b.len, "alloc", "no buffer for a read");
    return b;
}
static void g_act(size_t x){
    uv_buf_t b;
    switch(x % 16){
        case G_TIMER: mc_log("scheduler timer"); G.timer = false; G.tcb(G.timer_h); break;
        case G_DATA: {
            b = g_alloc();
            size_t n = x / 16; if(n > b.len) n = b.len;
            mc_log("%zu bytes arrive", n);
            memcpy(b.base, SRC + G.pos, n); G.pos += n;
            G.rcb(G.st, (ssize_t)n, &b);
        } break;
        case G_EAGAIN: eagain_left--; b = g_alloc(); mc_log("EAGAIN"); G.rcb(G.st, 0, &b); break;
        case G_EOF: b = g_alloc(); mc_log("end of file arrives"); G.eof = true; G.reading = false; G.rcb(G.st, UV_EOF, &b); break;
        case G_RERR: fails_left--; V.base_failed = true; b = g_alloc(); mc_log("read error"); G.rerr = true; G.rcb(G.st, UV_ECONNRESET, &b); G.reading = false; break;
        case G_WDONE: mc_log("write complete"); w_done(0); break;
        case G_WERR: fails_left--; V.base_failed = true; mc_log("write error"); G.broken = true; w_done(UV_EPIPE); break;
        case G_SHUT: case G_SERR: {
            uv_shutdown_t *r = G.sreq; G.sreq = NULL;
            if(x % 16 == G_SERR){ fails_left--; V.base_failed = true; }
            mc_log("shutdown %s", x % 16 == G_SHUT ? "complete" : "failed");
            r->handle = G.st;
            G.scb(r, x % 16 == G_SHUT ? 0 : UV_ENOTCONN);
        } break;
        case G_CLOSE: {
            mc_log("handle closed");
            while(G.nw) w_done(UV_ECANCELED);
            if(G.sreq){ uv_shutdown_t *r = G.sreq; G.sreq = NULL; r->handle = G.st; G.scb(r, UV_ECANCELED); }
            G.closed = true;
            G.ccb((uv_handle_t*)&TCP);
        } break;
        default: break;
    }
}
static uint64_t v_hash(uint64_t h){
    /* P.heapbufs is the only pointer which depends on the history */
    static duv_passthru_t t; memcpy(&t, &P, sizeof(t));
    t.heapbufs = NULL; t.e.msg = (dstr_t){0}; memset(t.arraybufs, 0, sizeof(t.arraybufs));
    h = mc_hash(h, &t, sizeof(t));
    static usr2_t u; memcpy(&u, &V, sizeof(u));
    for(int i = 0; i < VW; i++){ if(u.wr[i].heapbufs) u.wr[i].heapbufs = NULL; if(!u.wstate[i]) memset(&u.wr[i], 0, sizeof(u.wr[i])); }
    h = mc_hash(h, &u, sizeof(u));
    h = mc_hash(h, &G, sizeof(G));
    h = mc_hash(h, &SC, sizeof(SC));
    return mc_hash_u(h, (uint64_t)fails_left * 8 + (uint64_t)eagain_left);
}
static void run_passthru(void){
    memset(&G, 0, sizeof(G)); memset(&P, 0, sizeof(P)); memset(&SC, 0, sizeof(SC)); memset(&TCP, 0, sizeof(TCP));
    G.writable = true; G.st = (uv_stream_t*)&TCP;
    fails_left = (int)mc_opt("fails", 1); eagain_left = (int)mc_opt("eagain", 1);
    srclen = mc_choose((unsigned)mc_opt("len", 3), "bytes");
    if(is_error(duv_scheduler_init(&SC, &LOOP))) mc_error("scheduler");
    stream_i *s = duv_passthru_init_tcp(&P, &SC, &TCP);
    v_init(s, SRC, srclen, g_sunk);
    for(int i = 0; i < (int)mc_opt("pre", 0); i++){ V.writes_left++; v_write(1); }
    for(int step = 0; step < 500; step++){
        g_menu();
        if(!menu.n) v_stuck();
        if(V.done){
            MC_CHECK(G.closed, "close-missing", "the final callback came before the handle was closed");
            if(V.cancels_left > 0){ s->cancel(s); V.cancels_left = 0; }
            for(int k = 0; G.timer && k < 10; k++){ mc_log("scheduler timer"); G.timer = false; G.tcb(G.timer_h); }
            MC_CHECK(!G.timer, "late-timer", "the scheduler never comes to rest after the final callback");
            mc_outcome(mc_hash_u((uint64_t)(uintptr_t)V.err, (uint64_t)V.wanswered * 64 + V.pos));
            return;
        }
        if(mc_seen(v_hash(5))) break;
        v_menu();
        if(!menu.n) break;
        act_t a = menu.a[mc_choose(menu.n, "next")];
        if(a.what == X_OTHER) g_act(a.n); else v_act(&a);
    }
    if(!V.done){ DROP_VAR(&P.e); free(P.heapbufs); }
}
/* ---- dstr_stream */
static dstr_stream_t D;
static char sink[VSRC]; static dstr_t sinkd;
static size_t d_sunk(const char *src){
    MC_CHECK(sinkd.len <= V.written && !memcmp(sink, src, sinkd.len), "written", "wrong bytes were written: %.*s", (int)sinkd.len, sink);
    return sinkd.len;
}
static void run_dstr(void){
    scheduler_i *sc = sch_init();
    memset(&D, 0, sizeof(D)); memset(sink, 0, sizeof(sink));
    srclen = mc_choose((unsigned)mc_opt("len", 5), "bytes");
    size_t room = 1 + mc_choose((unsigned)mc_opt("room", 3), "room"); if(room == 3) room = VSRC;
    dstr_t src; DSTR_WRAP(src, (char*)(uintptr_t)SRC, srclen, true);
    sinkd = (dstr_t){ .data = sink, .size = room, .fixed_size = true };
    stream_i *s = dstr_stream(&D, sc, src, &sinkd);
    v_init(s, SRC, srclen, d_sunk);
    V.sizes = 2; V.maxout = 2; V.room = room;
    for(int step = 0; step < 500; step++){
        menu.n = 0;
        if(sch_pending()) menu_add(X_SCHED, NULL, 0);
        if(!menu.n) v_stuck();
        if(V.done){
            if(V.cancels_left > 0){ s->cancel(s); V.cancels_left = 0; while(sch_pending()) sch_run_one(); }
            mc_outcome(mc_hash_u((uint64_t)(uintptr_t)V.err, (uint64_t)V.wanswered * 64 + V.pos));
            return;
        }
        uint64_t h = hash_masked(3, &D, sizeof(D), &D.e);
        h = mc_hash(h, &V, sizeof(V)); h = mc_hash(h, &sinkd, sizeof(sinkd)); h = mc_hash(h, &sch.list, sizeof(sch.list));
        if(mc_seen(h)) break;
        v_menu();
        if(!menu.n) break;
        act_t a = menu.a[mc_choose(menu.n, "next")];
        if(a.what == X_SCHED) sch_run_one(); else v_act(&a);
    }
    if(!V.done) DROP_VAR(&D.e);
}
static void run(void){ if(!strcmp(mc_opts("mode", "passthru"), "dstr")) run_dstr(); else run_passthru(); }
int main(int argc, char **argv){
    static const mc_harness_t H = { .name = "c01_passthru", .run = run, .set_bits = 24 };
    return mc_main(argc, argv, &H);
}
