/* Controlled streams for the stream checks: a base which does everything the
   contract in libduv/stream.h allows, a scheduler which runs one item at a
   time, and a user who reads, cancels and awaits at any moment and checks
   every callback. */
#include "mc/mc.h"
#include "libduv/libduv.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

static const char *ename(derr_type_t t){ return t ? error_to_dstr(t).data : "OK"; }

/* ---- scheduler */
static struct { scheduler_i iface; link_t list; int n; } sch;
static void sch_schedule(scheduler_i *i, schedulable_t *s){
    (void)i;
    if(!link_list_isempty(&s->link)) return;
    link_list_append(&sch.list, &s->link);
}
static __attribute__((unused)) scheduler_i *sch_init(void){
    memset(&sch, 0, sizeof(sch));
    sch.iface.schedule = sch_schedule;
    link_init(&sch.list);
    return &sch.iface;
}
static __attribute__((unused)) bool sch_pending(void){ return !link_list_isempty(&sch.list); }
static __attribute__((unused)) void sch_run_one(void){
    link_t *l = link_list_pop_first(&sch.list);
    schedulable_t *s = CONTAINER_OF(l, schedulable_t, link);
    s->cb(s);
}

/* ---- model rstream */
typedef struct {
    rstream_i r;
    const char *data; size_t len, pos;
    int end;                /* 0: eof after the data, 1: silence, 2: error */
    link_t reads;
    rstream_await_cb await_cb;
    int ncancel;
    bool errored;
    derr_type_t etype;
    bool free_sizes;
    int id;
} mb_t;
DEF_CONTAINER_OF(mb_t, r, rstream_i)
static bool mb_read(rstream_i *i, rstream_read_t *rd, dstr_t buf, rstream_read_cb cb){
    mb_t *b = CONTAINER_OF(i, mb_t, r);
    if(!stream_read_checks(i, buf)) return false;
    rstream_read_prep(rd, buf, cb);
    link_list_append(&b->reads, &rd->link);
    return true;
}
static void mb_cancel(rstream_i *i){
    mb_t *b = CONTAINER_OF(i, mb_t, r);
    b->ncancel++;
    if(i->awaited) return;
    i->canceled = true;
}
static rstream_await_cb mb_await(rstream_i *i, rstream_await_cb cb){
    mb_t *b = CONTAINER_OF(i, mb_t, r);
    if(i->awaited) return NULL;
    rstream_await_cb out = b->await_cb;
    b->await_cb = cb;
    return out;
}
static __attribute__((unused)) rstream_i *mb_init(mb_t *b, const char *data, size_t len){
    *b = (mb_t){ .r = { .read = mb_read, .cancel = mb_cancel, .await = mb_await }, .data = data, .len = len };
    link_init(&b->reads);
    return &b->r;
}
static __attribute__((unused)) void mb_eof(mb_t *b){
    b->r.eof = true;
    link_t *l;
    while((l = link_list_pop_first(&b->reads))){
        rstream_read_t *rd = CONTAINER_OF(l, rstream_read_t, link);
        rd->buf.len = 0;
        rd->cb(&b->r, rd, rd->buf);
    }
}
static __attribute__((unused)) void mb_deliver(mb_t *b, size_t n){
    link_t *l = link_list_pop_first(&b->reads);
    rstream_read_t *rd = CONTAINER_OF(l, rstream_read_t, link);
    memcpy(rd->buf.data, b->data + b->pos, n);
    b->pos += n;
    rd->buf.len = n;
    rd->cb(&b->r, rd, rd->buf);
}
static __attribute__((unused)) void mb_finish(mb_t *b, derr_type_t t){
    link_t reads = {0};
    link_list_append_list(&reads, &b->reads);
    b->r.awaited = true;
    derr_t e = E_OK; e.type = t;
    b->await_cb(&b->r, e, &reads);
}
static __attribute__((unused)) size_t mb_room(mb_t *b){
    rstream_read_t *rd = CONTAINER_OF(b->reads.next, rstream_read_t, link);
    size_t n = rd->buf.size, left = b->len - b->pos;
    return n < left ? n : left;
}

/* ---- menu of what may happen next */
enum { X_SCHED = 1, X_DATA, X_EOF, X_FAIL, X_END, X_READ, X_CANCEL, X_AWAIT, X_OTHER };
typedef struct { int what; mb_t *b; size_t n; } act_t;
static struct { act_t a[128]; unsigned n, nenv; } menu;
static void menu_add(int what, mb_t *b, size_t n){
    if(menu.n >= 128) mc_error("menu too small");
    menu.a[menu.n++] = (act_t){ what, b, n };
}
/* what a base may do now; faults: errors are still allowed */
static __attribute__((unused)) void mb_menu(mb_t *b, bool faults, bool all_sizes){
    if(b->r.awaited || !b->await_cb) return;
    bool reading = !link_list_isempty(&b->reads);
    if(!b->r.eof && reading && !b->errored){
        size_t room = mb_room(b);
        if(room){
            menu_add(X_DATA, b, room);
            for(size_t n = 1; n < room; n++) if(all_sizes || n <= 2 || n == room - 1) menu_add(X_DATA, b, n);
        }else if(b->pos == b->len && b->end == 0) menu_add(X_EOF, b, 0);
    }
    if(b->r.canceled) menu_add(X_END, b, 1);
    else if(b->r.eof) menu_add(X_END, b, 0);
    if(faults && !b->r.eof) menu_add(X_FAIL, b, 0);
}
static __attribute__((unused)) uint64_t mb_hash(uint64_t h, mb_t *b){ return mc_hash(h, b, sizeof(*b)); }

/* ---- the user */
#define UR 3
typedef struct {
    rstream_i *s;
    const char *want; size_t nwant, pos;    /* expected bytes */
    rstream_read_t rd[UR];
    char mem[UR][16];
    size_t size[UR];
    int state[UR];                          /* 0 idle, >0: order of submission */
    int order, answered;
    bool canceled, eof, awaiting, done;
    derr_type_t err;
    int maxout;                             /* reads at once */
    int sizes;                              /* number of different read sizes */
    bool expect_bad;                        /* the source is malformed: error expected at the end */
    bool base_failed;
    bool prefix_only;                       /* an error may come earlier than the end of want */
    int cancels_left;
    unsigned incb;
} usr_t;
static usr_t U;
static const size_t USIZE[3] = { 2, 1, 16 };

static void u_read_cb(rstream_i *s, rstream_read_t *rd, dstr_t buf);
static int u_out(void){ int n = 0; for(int i = 0; i < UR; i++) n += U.state[i] != 0; return n; }
static bool u_can_read(void){ return !U.canceled && !U.eof && !U.done && u_out() < U.maxout && !U.s->canceled && !U.s->eof && !U.s->awaited; }
static void u_read(int szi){
    int i = 0; while(U.state[i]) i++;
    U.size[i] = USIZE[szi];
    dstr_t buf; DSTR_WRAP(buf, U.mem[i], 0, false); buf.size = U.size[i];
    buf.fixed_size = true;
    U.state[i] = ++U.order;
    U.rd[i].data = &U;
    mc_log("user reads %zu (#%d)", U.size[i], U.state[i]);
    bool ok = U.s->read(U.s, &U.rd[i], buf, u_read_cb);
    MC_CHECK(ok, "read-refused", "a read on an open stream was refused");
}
static void u_cancel(void){
    U.canceled = true; U.cancels_left--;
    mc_log("user cancels");
    U.s->cancel(U.s);
    MC_CHECK(U.s->canceled || U.s->awaited, "cancel-flag", "the stream is not marked canceled after cancel()");
}
static void u_in_cb(void){
    /* the user may act from within a callback */
    if(!U.incb) return;
    unsigned n = 1, r = 0, c = 0;
    if(u_can_read()) r = n++;
    if(U.cancels_left > 0 && !U.canceled) c = n++;
    if(n == 1) return;
    unsigned x = mc_choose(n, "in callback");
    if(x && x == r) u_read(0); else if(x && x == c) u_cancel();
}
static void u_read_cb(rstream_i *s, rstream_read_t *rd, dstr_t buf){
    int i = (int)(rd - U.rd);
    MC_CHECK(!U.done, "cb-after-await", "a read callback after the final callback");
    MC_CHECK(i >= 0 && i < UR && rd == &U.rd[i] && U.state[i], "read-twice", "a read callback for a read which was not pending");
    MC_CHECK(s == U.s, "cb-stream", "a read callback with the wrong stream");
    MC_CHECK(U.state[i] == U.answered + 1, "read-order", "read #%d was answered before read #%d", U.state[i], U.answered + 1);
    U.answered = U.state[i];
    U.state[i] = 0;
    MC_CHECK(buf.data == U.mem[i] && buf.len <= U.size[i], "read-buf", "the buffer handed back is not the buffer handed in");
    MC_CHECK(buf.size == U.size[i], "read-buf-size", "the buffer handed back has another size: %zu not %zu", buf.size, U.size[i]);
    mc_log("read #%d answered: %zu bytes", U.answered, buf.len);
    if(!buf.len){
        MC_CHECK(U.pos == U.nwant && !U.expect_bad, "early-eof", "end of stream after %zu of %zu bytes%s", U.pos, U.nwant, U.expect_bad ? " of a malformed text" : "");
        MC_CHECK(s->eof, "eof-flag", "the stream is not marked eof when its end is reported");
        U.eof = true;
    }else{
        MC_CHECK(!U.eof, "data-after-eof", "data after the end of the stream");
        MC_CHECK(U.pos + buf.len <= U.nwant && memcmp(U.want + U.pos, buf.data, buf.len) == 0, "bytes", "wrong bytes at %zu: %.*s", U.pos, (int)buf.len, buf.data);
        U.pos += buf.len;
    }
    u_in_cb();
}
static void u_await_cb(rstream_i *s, derr_t e, link_t *reads){
    MC_CHECK(!U.done, "await-twice", "the final callback came twice");
    U.done = true; U.err = e.type;
    mc_log("final callback: %s", ename(e.type));
    DROP_VAR(&e);
    MC_CHECK(s == U.s && s->awaited, "await-flag", "the stream is not marked awaited in its final callback");
    link_t *l;
    while((l = link_list_pop_first(reads))){
        rstream_read_t *rd = CONTAINER_OF(l, rstream_read_t, link);
        int i = (int)(rd - U.rd);
        MC_CHECK(i >= 0 && i < UR && rd == &U.rd[i] && U.state[i], "await-reads", "the final callback returned a read which was not pending");
        MC_CHECK(rd->cb == u_read_cb, "await-cb", "an unfinished read was returned with another callback than the user's");
        MC_CHECK(rd->buf.data == U.mem[i] && rd->buf.size == U.size[i], "await-buf", "an unfinished read was returned with another buffer");
        MC_CHECK(U.state[i] == U.answered + 1, "await-order", "unfinished reads were returned out of order");
        U.answered = U.state[i];
        U.state[i] = 0;
        MC_CHECK(U.err, "await-unfinished", "unfinished reads were returned without an error");
    }
    MC_CHECK(!u_out(), "read-lost", "a read was neither answered nor returned");
    if(!U.err) MC_CHECK(U.eof && !s->canceled, "await-ok", "success was reported %s", U.eof ? "for a canceled stream" : "before the end of the stream");
    else if(U.err == E_CANCELED) MC_CHECK(U.canceled, "await-canceled", "E_CANCELED but nobody canceled");
    else MC_CHECK(U.base_failed || U.expect_bad, "await-error", "error %s without a reason", ename(U.err));
}
static __attribute__((unused)) void u_await(void){
    U.awaiting = true;
    mc_log("user awaits");
    rstream_await_cb old = U.s->await(U.s, u_await_cb);
    MC_CHECK(!old, "await-first", "the first await returned another callback");
}
static __attribute__((unused)) void u_menu(void){
    /* reads after a refusal are not of interest */
    if(u_can_read()) for(int k = 0; k < U.sizes; k++) menu_add(X_READ, NULL, (size_t)k);
    if(!U.awaiting) menu_add(X_AWAIT, NULL, 0);
    if(U.cancels_left > 0 && !U.canceled) menu_add(X_CANCEL, NULL, 0);
}
static __attribute__((unused)) uint64_t u_hash(uint64_t h){ return mc_hash(h, &U, sizeof(U)); }
static __attribute__((unused)) uint64_t hash_masked(uint64_t h, const void *p, size_t n, const derr_t *e){
    /* everything but the text of the error */
    char tmp[16384];
    if(n > sizeof(tmp)) mc_error("state too big");
    memcpy(tmp, p, n);
    derr_t *x = (derr_t*)(void*)(tmp + ((const char*)e - (const char*)p));
    derr_type_t t = x->type;
    memset(x, 0, sizeof(*x)); x->type = t;
    return mc_hash(h, tmp, n);
}

/* ---- model stream (both directions) */
typedef struct {
    stream_i s;
    const char *data; size_t len, pos;
    link_t reads, writes;
    stream_await_cb await_cb;
    stream_shutdown_cb shutdown_cb;
    bool shutdown_done;
    int ncancel;
    int id;
    char *out; size_t outlen, outcap;    /* bytes of completed writes */
    size_t inflight;                    /* bytes of the writes submitted */
    uint64_t whash;                     /* content of the submitted writes */
} ms_t;
DEF_CONTAINER_OF(ms_t, s, stream_i)
static bool ms_read(stream_i *i, stream_read_t *rd, dstr_t buf, stream_read_cb cb){
    ms_t *b = CONTAINER_OF(i, ms_t, s);
    if(!stream_read_checks(i, buf)) return false;
    stream_read_prep(rd, buf, cb);
    link_list_append(&b->reads, &rd->link);
    return true;
}
static bool ms_write(stream_i *i, stream_write_t *w, const dstr_t bufs[], unsigned int n, stream_write_cb cb){
    ms_t *b = CONTAINER_OF(i, ms_t, s);
    if(!stream_write_checks(i, bufs, n)) return false;
    stream_write_init_nocopy(w, cb);
    w->nbufs = n;
    if(n > 4) mc_error("too many buffers");
    for(unsigned k = 0; k < n; k++){ w->arraybufs[k] = bufs[k]; b->inflight += bufs[k].len; }
    link_list_append(&b->writes, &w->link);
    return true;
}
static void ms_shutdown(stream_i *i, stream_shutdown_cb cb){
    ms_t *b = CONTAINER_OF(i, ms_t, s);
    if(i->is_shutdown) return;
    i->is_shutdown = true;
    b->shutdown_cb = cb;
}
static void ms_cancel(stream_i *i){
    ms_t *b = CONTAINER_OF(i, ms_t, s);
    b->ncancel++;
    if(i->awaited) return;
    i->canceled = true;
}
static stream_await_cb ms_await(stream_i *i, stream_await_cb cb){
    ms_t *b = CONTAINER_OF(i, ms_t, s);
    if(i->awaited) return NULL;
    stream_await_cb out = b->await_cb;
    b->await_cb = cb;
    return out;
}
static __attribute__((unused)) stream_i *ms_init(ms_t *b, const char *data, size_t len){
    *b = (ms_t){ .s = { .read = ms_read, .write = ms_write, .shutdown = ms_shutdown, .cancel = ms_cancel, .await = ms_await }, .data = data, .len = len };
    link_init(&b->reads); link_init(&b->writes);
    return &b->s;
}
static __attribute__((unused)) void ms_eof(ms_t *b){
    b->s.eof = true;
    link_t *l;
    while((l = link_list_pop_first(&b->reads))){
        stream_read_t *rd = CONTAINER_OF(l, stream_read_t, link);
        rd->buf.len = 0;
        rd->cb(&b->s, rd, rd->buf);
    }
}
static __attribute__((unused)) size_t ms_room(ms_t *b){
    stream_read_t *rd = CONTAINER_OF(b->reads.next, stream_read_t, link);
    size_t n = rd->buf.size, left = b->len - b->pos;
    return n < left ? n : left;
}
static __attribute__((unused)) void ms_deliver(ms_t *b, size_t n){
    link_t *l = link_list_pop_first(&b->reads);
    stream_read_t *rd = CONTAINER_OF(l, stream_read_t, link);
    memcpy(rd->buf.data, b->data + b->pos, n);
    b->pos += n;
    rd->buf.len = n;
    rd->cb(&b->s, rd, rd->buf);
}
static __attribute__((unused)) void ms_write_done(ms_t *b){
    link_t *l = link_list_pop_first(&b->writes);
    stream_write_t *w = CONTAINER_OF(l, stream_write_t, link);
    for(unsigned k = 0; k < w->nbufs; k++){
        size_t n = w->arraybufs[k].len;
        if(b->outlen + n > b->outcap) mc_error("output too big");
        memcpy(b->out + b->outlen, w->arraybufs[k].data, n);
        b->outlen += n; b->inflight -= n;
    }
    w->cb(&b->s, w);
}
static __attribute__((unused)) void ms_shutdown_done(ms_t *b){
    stream_shutdown_cb cb = b->shutdown_cb;
    b->shutdown_cb = NULL; b->shutdown_done = true;
    cb(&b->s);
}
static __attribute__((unused)) void ms_finish(ms_t *b, derr_type_t t){
    link_t reads = {0}, writes = {0};
    link_list_append_list(&reads, &b->reads);
    link_list_append_list(&writes, &b->writes);
    b->s.awaited = true;
    derr_t e = E_OK; e.type = t;
    b->await_cb(&b->s, e, &reads, &writes);
}
