/* C01: the real stream wrappers between a controlled base and a controlled
   user: every order of reads, deliveries, cancellations, failures, awaits and
   scheduler turns, and every way of cutting the bytes. */
#include "c_base.h"
#include "libhttp/libhttp.h"

#define NB 3
static mb_t B[NB];
static int nb;
static int fails_left;
static bool silent;

/* state of the wrapper under test */
static void *WP; static size_t WN; static derr_t *WE;
static bool detached; static int detach_calls; static int cancels_at_detach;
static bool foreign_done;

static ms_t S;
static bool use_s;
enum { S_DATA = 1, S_EOF, S_END, S_FAIL, S_WRITTEN, S_SHUT };
static void s_menu(void){
    if(!use_s || S.s.awaited || !S.await_cb) return;
    if(!link_list_isempty(&S.reads) && !S.s.eof){
        size_t room = ms_room(&S);
        for(size_t n = room; n >= 1; n--) menu_add(X_OTHER, NULL, S_DATA + 16 * n);
        if(!room && S.pos == S.len) menu_add(X_OTHER, NULL, S_EOF);
    }
    if(!link_list_isempty(&S.writes)) menu_add(X_OTHER, NULL, S_WRITTEN);
    if(S.shutdown_cb) menu_add(X_OTHER, NULL, S_SHUT);
    if(S.s.canceled || (S.s.eof && S.shutdown_done)) menu_add(X_OTHER, NULL, S_END);
    if(fails_left > 0) menu_add(X_OTHER, NULL, S_FAIL);
}
static void s_act(size_t x){
    switch(x % 16){
        case S_DATA: mc_log("base delivers %zu bytes", x / 16); ms_deliver(&S, x / 16); break;
        case S_EOF: mc_log("base: end of file"); ms_eof(&S); break;
        case S_WRITTEN: mc_log("base: write done"); ms_write_done(&S); break;
        case S_SHUT: mc_log("base: shutdown done"); ms_shutdown_done(&S); break;
        case S_END: mc_log("base: final callback %s", S.s.canceled ? "canceled" : "ok"); ms_finish(&S, S.s.canceled ? E_CANCELED : E_NONE); break;
        case S_FAIL: mc_log("base fails"); fails_left--; U.base_failed = true; ms_finish(&S, E_CONN); break;
        default: break;
    }
}
static void env_menu(bool base_sizes){
    menu.n = 0;
    if(sch_pending()) menu_add(X_SCHED, NULL, 0);
    s_menu();
    for(int i = 0; i < nb; i++) mb_menu(&B[i], fails_left > 0, base_sizes);
    menu.nenv = menu.n;
}
static void do_act(act_t *a){
    switch(a->what){
        case X_SCHED: mc_log("scheduler turn"); sch_run_one(); break;
        case X_DATA: mc_log("base %d delivers %zu bytes", a->b->id, a->n); mb_deliver(a->b, a->n); break;
        case X_EOF: mc_log("base %d: end of file", a->b->id); mb_eof(a->b); break;
        case X_END: mc_log("base %d: final callback %s", a->b->id, a->n ? "canceled" : "ok"); mb_finish(a->b, a->n ? E_CANCELED : E_NONE); break;
        case X_FAIL: fails_left--; if(!detached) U.base_failed = true; mc_log("base %d fails", a->b->id); mb_finish(a->b, E_CONN); break;
        case X_READ: u_read((int)a->n); break;
        case X_CANCEL: u_cancel(); break;
        case X_AWAIT: u_await(); break;
        case X_OTHER: s_act(a->n); break;
        default: break;
    }
}
/* an environment in which only benign things are left to happen and none can:
   what must have happened by now */
static void check_stuck(void){
    if(silent) return;
    bool env = sch_pending();
    for(int i = 0; i < nb; i++){
        mb_t *b = &B[i];
        if(b->r.awaited || !b->await_cb) continue;
        if(!link_list_isempty(&b->reads) && !b->r.eof) env = true;
        if(b->r.canceled || b->r.eof) env = true;
    }
    if(use_s && !S.s.awaited && S.await_cb){
        if(!link_list_isempty(&S.reads) && !S.s.eof) env = true;
        if(S.s.canceled || S.shutdown_cb || !link_list_isempty(&S.writes) || (S.s.eof && S.shutdown_done)) env = true;
    }
    if(env) return;
    if(U.done) return;
    if(U.awaiting){
        if(U.canceled) mc_fail("never-finishes", "nothing is left to happen, but the canceled stream never gave its final callback");
        if(U.eof) mc_fail("never-finishes", "nothing is left to happen, but the stream which reached its end never gave its final callback");
        if(U.base_failed) mc_fail("never-finishes", "nothing is left to happen, but the stream whose base failed never gave its final callback");
    }
    if(u_out() && !U.canceled && !U.base_failed && !U.expect_bad) mc_fail("read-stuck", "nothing is left to happen, but a read was never answered");
    if(u_out() && U.awaiting && U.expect_bad) mc_fail("never-finishes", "nothing is left to happen, but a read of a malformed text was never answered");
}
static uint64_t mask_hash(uint64_t h){ return WE ? hash_masked(h, WP, WN, WE) : mc_hash(h, WP, WN); }
static void explore(bool base_sizes){
    for(int step = 0; step < 2000; step++){
        uint64_t h = mask_hash(99);
        h = u_hash(h);
        for(int i = 0; i < nb; i++) h = mb_hash(h, &B[i]);
        if(use_s) h = mc_hash(h, &S, sizeof(S));
        h = mc_hash(h, &sch.list, sizeof(sch.list));
        h = mc_hash_u(h, (uint64_t)fails_left * 16 + (uint64_t)detached * 8 + (uint64_t)silent * 4 + (uint64_t)detach_calls * 32 + (uint64_t)foreign_done);
        check_stuck();
        if(U.done){
            /* nothing may happen any more: let everything run out */
            while(sch_pending()) sch_run_one();
            if(mc_opt("late", 1) && U.cancels_left > 0){
                int before = 0; for(int i = 0; i < nb; i++) before += B[i].ncancel;
                U.s->cancel(U.s); U.cancels_left = 0;
                while(sch_pending()) sch_run_one();
                int after = 0; for(int i = 0; i < nb; i++) after += B[i].ncancel;
                if(detached) MC_CHECK(before == after, "cancel-detached", "a late cancel reached the detached connection");
            }
            mc_outcome(mc_hash_u((uint64_t)(uintptr_t)U.err, U.pos * 4 + U.eof * 2 + U.canceled));
            break;
        }
        if(mc_seen(h)) return;
        env_menu(base_sizes);
        u_menu();
        if(!menu.n) return;
        unsigned c = mc_choose(menu.n, "next");
        act_t a = menu.a[c];
        do_act(&a);
    }
}
static void u_init(rstream_i *s, const char *want, size_t n){
    memset(&U, 0, sizeof(U));
    U.s = s; U.want = want; U.nwant = n;
    U.maxout = (int)mc_opt("out", 2); U.sizes = (int)mc_opt("sizes", 2);
    U.cancels_left = (int)mc_opt("cancels", 1); U.incb = (unsigned)mc_opt("incb", 1);
    fails_left = (int)mc_opt("fails", 1);
    use_s = false;
    detached = false; detach_calls = 0; foreign_done = false; silent = false;
}
static const char TEXT[] = "abcdefghij";

/* ---- limit */
static limit_rstream_t L;
static int dmode;   /* 0: detach, 1: refuse and cancel */
static void foreign_await(rstream_i *s, derr_t e, link_t *reads){
    (void)s; DROP_VAR(&e);
    MC_CHECK(link_list_isempty(reads), "detached-reads", "the detached connection still had a read of the wrapper");
    foreign_done = true;
}
static bool base_detach(rstream_i *b){
    MC_CHECK(!detach_calls++, "detach-twice", "try_detach was called twice");
    MC_CHECK(!U.done, "detach-late", "try_detach after the final callback");
    if(b->awaited || b->eof || dmode){
        if(!b->awaited){ b->cancel(b); U.base_failed = true; }
        return false;
    }
    mc_log("detached");
    detached = true;
    b->await(b, foreign_await);
    if(b->canceled) return true;
    cancels_at_detach = CONTAINER_OF(b, mb_t, r)->ncancel;
    return true;
}
static bool limit_detach(limit_rstream_t *l){ return base_detach(l->base); }
static void bases(int n){ nb = n; for(int i = 0; i < NB; i++){ memset(&B[i], 0, sizeof(B[i])); } }
static void run_limit(void){
    scheduler_i *s = sch_init();
    size_t have = mc_choose((unsigned)mc_opt("len", 5), "bytes"), lim = mc_choose((unsigned)mc_opt("len", 5), "limit");
    dmode = (int)mc_choose(2, "detach");
    bases(1);
    mb_init(&B[0], TEXT, have);
    memset(&L, 0, sizeof(L));
    rstream_i *r = limit_rstream(&L, s, &B[0].r, lim, limit_detach);
    u_init(r, TEXT, have < lim ? have : lim);
    U.expect_bad = have < lim;
    WP = &L; WN = sizeof(L); WE = &L.e;
    explore(true);
    if(!U.done) DROP_VAR(&L.e);
}
/* ---- chunked */
static chunked_rstream_t C;
static bool chunked_detach(chunked_rstream_t *c){ return base_detach(c->base); }
static int nhdr;
static void chunk_hdr(chunked_rstream_t *c, const http_pair_t h){
    (void)c;
    MC_CHECK(!U.eof, "hdr-after-eof", "a trailer header after the end");
    MC_CHECK(h.key.len == 1 && h.key.data[0] == 'A' + nhdr && h.value.len == 1 && h.value.data[0] == '1' + nhdr, "hdr", "wrong trailer header");
    nhdr++;
}
static const struct { const char *t; const char *body; int hdrs; bool bad; } CT[] = {
    {"3\r\nabc\r\n0\r\n\r\n", "abc", 0, false},
    {"0\r\n\r\n", "", 0, false},
    {"1\r\na\r\n2\r\n\r\n\r\n0\r\n\r\n", "a\r\n", 0, false},
    {"2;x=y\r\nab\r\n0\r\nA: 1\r\nB: 2\r\n\r\n", "ab", 2, false},
    {"0A\r\n0123456789\r\n000\r\nA:1\r\n\r\n", "0123456789", 1, false},
    {"1\r\na\r\n1\r\nb\r\n1\r\nc\r\n0\r\n\r\n", "abc", 0, false},
    /* malformed or cut */
    {"3\r\nabc\r\n0\r\n", "abc", 0, true},
    {"3\r\nab", "ab", 0, true},
    {"3\r\nabcd\r\n0\r\n\r\n", "abc", 0, true},
    {"3\r\nabc", "abc", 0, true},
    {"", "", 0, true},
    {"x\r\n", "", 0, true},
    {"-1\r\na\r\n", "", 0, true},
    {"1\r\na\r\n\r\n", "a", 0, true},
    {"1\r\na\r\n0\r\nA: 1\r\n", "a", 1, true},
    {"11111111111111111\r\nabc\r\n0\r\n\r\n", "", 0, true},
    {"1\r\na\n0\r\n\r\n", "a", 0, true},
    {"2\r\nab\r\n0\r\n A: 1\r\n\r\n", "ab", 0, true},
};
static void run_chunked(void){
    scheduler_i *s = sch_init();
    unsigned t = mc_choose(sizeof(CT) / sizeof(*CT), "text");
    dmode = (int)mc_choose(2, "detach");
    bases(1);
    mb_init(&B[0], CT[t].t, strlen(CT[t].t));
    /* leave C._buf alone except for its first bytes */
    memset(&C, 0, sizeof(C));
    nhdr = 0;
    rstream_i *r = chunked_rstream(&C, s, &B[0].r, chunked_detach, chunk_hdr);
    u_init(r, CT[t].body, strlen(CT[t].body));
    U.expect_bad = CT[t].bad;
    WP = &C; WN = sizeof(C); WE = &C.e;
    explore(mc_opt("allcuts", 0));
    if(U.eof) MC_CHECK(nhdr == CT[t].hdrs, "hdrs", "%d trailer headers instead of %d", nhdr, CT[t].hdrs);
    if(!U.done) DROP_VAR(&C.e);
}
/* ---- concat */
static rstream_concat_t K;
static void run_concat(void){
    scheduler_i *s = sch_init();
    bases((int)mc_opt("bases", 2));
    size_t tot = 0;
    rstream_i *bs[NB];
    for(int i = 0; i < nb; i++){
        size_t n = mc_choose((unsigned)mc_opt("len", 3), "bytes");
        bs[i] = mb_init(&B[i], TEXT + tot, n); B[i].id = i;
        tot += n;
    }
    memset(&K, 0, sizeof(K));
    rstream_i *r = _rstream_concat(&K, s, bs, (size_t)nb);
    u_init(r, TEXT, tot);
    WP = &K; WN = sizeof(K); WE = &K.e;
    explore(true);
    if(U.done) for(int i = 0; i < nb; i++) MC_CHECK(B[i].r.awaited, "base-not-awaited", "the final callback came before that of base %d", i);
    if(!U.done) DROP_VAR(&K.e);
}
/* ---- dstr_rstream */
static dstr_rstream_t D;
static void run_dstr(void){
    scheduler_i *s = sch_init();
    size_t n = mc_choose((unsigned)mc_opt("len", 6), "bytes");
    bases(0);
    dstr_t d; DSTR_WRAP(d, (char*)(uintptr_t)TEXT, n, true);
    memset(&D, 0, sizeof(D));
    rstream_i *r = dstr_rstream(&D, s, d);
    u_init(r, TEXT, n);
    U.sizes = 3; U.maxout = 3;
    WP = &D; WN = sizeof(D); WE = NULL;
    explore(false);
}
/* ---- borrow */
static borrow_rstream_t W;
static bool prev_called; static bool prev;
static void prev_await(stream_i *s, derr_t e, link_t *reads, link_t *writes){
    (void)s;
    MC_CHECK(!prev_called, "prev-twice", "the previous await callback was called twice");
    MC_CHECK(!is_error(e) && link_list_isempty(reads) && link_list_isempty(writes), "prev-reads", "the previous await callback got somebody else's reads");
    prev_called = true;
}
static void run_borrow(void){
    scheduler_i *s = sch_init();
    size_t n = mc_choose((unsigned)mc_opt("len", 5), "bytes");
    prev = mc_choose(2, "awaited before"); prev_called = false;
    bases(0);
    stream_i *b = ms_init(&S, TEXT, n);
    if(prev) b->await(b, prev_await);
    memset(&W, 0, sizeof(W));
    rstream_i *r = borrow_rstream(&W, s, b);
    u_init(r, TEXT, n);
    use_s = true;
    WP = &W; WN = sizeof(W); WE = &W.e;
    explore(false);
    if(U.done) MC_CHECK(prev_called == prev, "prev-not-called", "the previous await callback was not called");
    if(!U.done) DROP_VAR(&W.e);
}
/* ---- reader: stream_read_all() */
static stream_reader_t R; static bool r_done; static derr_type_t r_err;
static void r_cb(stream_reader_t *r, derr_t e){
    (void)r;
    MC_CHECK(!r_done, "reader-twice", "the reader's callback came twice");
    r_done = true; r_err = e.type; DROP_VAR(&e);
}
static void run_reader(void){
    sch_init();
    size_t n = mc_choose((unsigned)mc_opt("len", 6), "bytes"), cap = mc_choose(4, "room");
    static const size_t CAPS[4] = { 0, 1, 3, 64 };
    bases(1); u_init(NULL, TEXT, n);
    B[0].id = 0; mb_init(&B[0], TEXT, n);
    static char mem[80]; memset(mem, 0, sizeof(mem));
    dstr_t out = {0}; if(CAPS[cap]) if(is_error(dstr_new(&out, CAPS[cap]))) mc_error("nomem");
    memset(&R, 0, sizeof(R)); r_done = false;
    bool canceled = false;
    stream_read_all(&R, &B[0].r, &out, r_cb);
    for(int step = 0; step < 100; step++){
        if(r_done){
            if(mc_choose(2, "late cancel")) MC_CHECK(!stream_reader_cancel(&R), "late-cancel", "cancel() after the end promises a callback");
            break;
        }
        menu.n = 0;
        mb_menu(&B[0], fails_left > 0, true);
        if(!canceled) menu_add(X_CANCEL, NULL, 0);
        MC_CHECK(menu.n, "reader-stuck", "nothing is left to happen, but the reader never gave its callback");
        act_t a = menu.a[mc_choose(menu.n, "next")];
        if(a.what == X_CANCEL){ canceled = true; mc_log("cancel"); MC_CHECK(stream_reader_cancel(&R), "cancel-false", "cancel() of a running reader promises no callback"); }
        else do_act(&a);
    }
    if(r_done && !r_err) MC_CHECK(!canceled && B[0].pos == n && out.len == n && !memcmp(out.data, TEXT, n), "reader-bytes", "success with %zu of %zu bytes%s", out.len, n, canceled ? ", canceled" : "");
    if(r_done && r_err == E_CANCELED) MC_CHECK(canceled, "reader-canceled", "canceled by nobody");
    else if(r_done && r_err) MC_CHECK(r_err == E_CONN && U.base_failed, "reader-error", "error %s", ename(r_err));
    mc_outcome(mc_hash_u((uint64_t)(uintptr_t)r_err, out.len));
    dstr_free(&out);
}

static void run(void){
    const char *m = mc_opts("mode", "limit");
    if(!strcmp(m, "limit")) run_limit();
    else if(!strcmp(m, "chunked")) run_chunked();
    else if(!strcmp(m, "concat")) run_concat();
    else if(!strcmp(m, "dstr")) run_dstr();
    else if(!strcmp(m, "borrow")) run_borrow();
    else if(!strcmp(m, "reader")) run_reader();
    else mc_error("mode?");
}
int main(int argc, char **argv){
    static const mc_harness_t H = { .name = "c01_streams", .run = run, .set_bits = 24 };
    return mc_main(argc, argv, &H);
}
