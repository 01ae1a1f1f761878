/* A user of a bidirectional stream who reads, writes, shuts down, cancels and
   awaits at any moment and checks every callback. */
#define VR 2
#define VW 12
#ifndef VSRC
#define VSRC 64
#endif
#ifndef VMEM
#define VMEM 16
#endif
#ifndef VCH
#define VCH mc_choose
#endif
#ifndef VUSERS
#define VUSERS 1
#endif
typedef struct usr2_t {
    stream_i *s; char name;
    struct usr2_t *peer;                    /* who writes what we read, if not fixed */
    size_t unit;                            /* bytes per piece */
    size_t rsize[3];
    char txt[VSRC + 1];
    const char *want; size_t nwant, pos;
    stream_read_t rd[VR]; char mem[VR][VMEM]; size_t size[VR]; int rstate[VR];
    int rorder, ranswered;
    stream_write_t wr[VW]; int wstate[VW]; size_t woff[VW], wlen[VW];
    int worder, wanswered; int wsubmitted;
    size_t written, wfinished;              /* bytes submitted, bytes whose write was answered */
    int writes_left, maxout, sizes, cancels_left; bool big;
    bool canceled, eof, awaiting, done, shut, shut_cb;
    int worder_at_shut;
    derr_type_t err;
    bool base_failed; size_t room;
    unsigned incb;
    size_t (*sunk)(const char *src);        /* bytes which reached the other side; checks them, too */
} usr2_t;
static usr2_t VS[VUSERS], *vp = VS;
#define V (*vp)
#define VTXT (V.txt)
static void v_read_cb(stream_i *s, stream_read_t *rd, dstr_t buf);
static void v_write_cb(stream_i *s, stream_write_t *w);
static void v_shutdown_cb(stream_i *s);
static int v_rout(void){ int n = 0; for(int i = 0; i < VR; i++) n += V.rstate[i] != 0; return n; }
static int v_wout(void){ int n = 0; for(int i = 0; i < VW; i++) n += V.wstate[i] != 0; return n; }
static bool v_can_read(void){ return !V.canceled && !V.eof && !V.done && v_rout() < V.maxout && !V.s->canceled && !V.s->eof && !V.s->awaited; }
static bool v_can_write(void){ return !V.canceled && !V.shut && !V.done && V.writes_left > 0 && v_wout() < VW && !V.s->canceled && !V.s->awaited; }
static void v_read(int szi){
    int i = 0; while(V.rstate[i]) i++;
    V.size[i] = V.rsize[szi];
    dstr_t buf; DSTR_WRAP(buf, V.mem[i], 0, false); buf.size = V.size[i]; buf.fixed_size = true;
    V.rstate[i] = ++V.rorder;
    mc_log("user %c reads %zu (#%d)", V.name, V.size[i], V.rstate[i]);
    bool ok = V.s->read(V.s, &V.rd[i], buf, v_read_cb);
    MC_CHECK(ok, "read-refused", "a read on an open stream was refused");
}
static void v_write(unsigned n){
    int i = 0; while(V.wstate[i]) i++;
    dstr_t bufs[8]; memset(bufs, 0, sizeof(bufs));
    V.woff[i] = V.written;
    for(unsigned k = 0; k < n; k++){
        DSTR_WRAP(bufs[k], VTXT + V.written, k == 1 ? 0 : V.unit, true);
        V.written += bufs[k].len;
    }
    if(V.written > VSRC) mc_error("too much written");
    V.wlen[i] = V.written - V.woff[i];
    V.wstate[i] = ++V.worder;
    V.writes_left--;
    if(V.room && V.written > V.room) V.base_failed = true;
    mc_log("user %c writes %zu bytes in %u pieces (#%d)", V.name, V.wlen[i], n, V.wstate[i]);
    bool ok = V.s->write(V.s, &V.wr[i], bufs, n, v_write_cb);
    MC_CHECK(ok, "write-refused", "a write on an open stream was refused");
    /* the array of pieces is ours again */
    memset(bufs, 0x5a, sizeof(bufs));
}
static void v_shutdown(void){
    V.shut = true; V.worder_at_shut = V.worder;
    mc_log("user %c shuts down", V.name);
    V.s->shutdown(V.s, v_shutdown_cb);
}
static void v_cancel(void){
    V.canceled = true; V.cancels_left--;
    mc_log("user %c cancels", V.name);
    V.s->cancel(V.s);
    MC_CHECK(V.s->canceled || V.s->awaited, "cancel-flag", "the stream is not marked canceled after cancel()");
}
static void v_in_cb(void){
    if(!V.incb) return;
    unsigned n = 1, r = 0, w = 0, c = 0, d = 0;
    if((V.incb & 1) && v_can_read()) r = n++;
    if((V.incb & 2) && v_can_write()) w = n++;
    if((V.incb & 4) && V.cancels_left > 0 && !V.canceled) c = n++;
    if((V.incb & 8) && !V.shut && !V.canceled) d = n++;
    if(n == 1) return;
    unsigned x = VCH(n, "in callback");
    if(!x) return;
    if(x == r) v_read(0); else if(x == w) v_write(1); else if(x == c) v_cancel(); else if(x == d) v_shutdown();
}
static void v_read_cb(stream_i *s, stream_read_t *rd, dstr_t buf){
    vp = s->data;
    int i = (int)(rd - V.rd);
    MC_CHECK(!V.done, "cb-after-await", "a read callback after the final callback");
    MC_CHECK(i >= 0 && i < VR && rd == &V.rd[i] && V.rstate[i], "read-twice", "a read callback for a read which was not pending");
    MC_CHECK(s == V.s, "cb-stream", "a read callback with the wrong stream");
    MC_CHECK(V.rstate[i] == V.ranswered + 1, "read-order", "read #%d was answered before read #%d", V.rstate[i], V.ranswered + 1);
    V.ranswered = V.rstate[i]; V.rstate[i] = 0;
    MC_CHECK(buf.data == V.mem[i] && buf.len <= V.size[i] && buf.size == V.size[i], "read-buf", "the buffer handed back is not the buffer handed in");
    mc_log("%c: read #%d answered: %zu bytes", V.name, V.ranswered, buf.len);
    if(V.peer) V.nwant = V.peer->written;
    if(!buf.len){
        if(V.peer) MC_CHECK(V.peer->shut, "early-eof", "end of stream, but the peer did not end it");
        MC_CHECK(V.pos == V.nwant, "early-eof", "end of stream after %zu of %zu bytes", V.pos, V.nwant);
        MC_CHECK(s->eof, "eof-flag", "the stream is not marked eof when its end is reported");
        V.eof = true;
    }else{
        MC_CHECK(!V.eof, "data-after-eof", "data after the end of the stream");
        MC_CHECK(V.pos + buf.len <= V.nwant && memcmp(V.want + V.pos, buf.data, buf.len) == 0, "bytes", "wrong bytes at %zu: %.*s", V.pos, (int)buf.len, buf.data);
        V.pos += buf.len;
    }
    v_in_cb();
}
static void v_write_cb(stream_i *s, stream_write_t *w){
    vp = s->data;
    int i = (int)(w - V.wr);
    MC_CHECK(!V.done, "cb-after-await", "a write callback after the final callback");
    MC_CHECK(i >= 0 && i < VW && w == &V.wr[i] && V.wstate[i], "write-twice", "a write callback for a write which was not pending");
    MC_CHECK(s == V.s, "cb-stream", "a write callback with the wrong stream");
    MC_CHECK(V.wstate[i] == V.wanswered + 1, "write-order", "write #%d was answered before write #%d", V.wstate[i], V.wanswered + 1);
    V.wanswered = V.wstate[i]; V.wstate[i] = 0;
    V.wfinished = V.woff[i] + V.wlen[i];
    mc_log("%c: write #%d answered", V.name, V.wanswered);
    MC_CHECK(V.sunk(VTXT) >= V.wfinished, "write-early", "a write was answered before its bytes were handed on");
    v_in_cb();
}
static void v_shutdown_cb(stream_i *s){
    vp = s->data;
    MC_CHECK(!V.done, "cb-after-await", "a shutdown callback after the final callback");
    MC_CHECK(s == V.s && V.shut && !V.shut_cb, "shutdown-twice", "an unexpected shutdown callback");
    V.shut_cb = true;
    mc_log("%c: shutdown answered", V.name);
    MC_CHECK(V.wanswered >= V.worder_at_shut, "shutdown-early", "the shutdown was answered before the writes before it");
    v_in_cb();
}
static void v_await_cb(stream_i *s, derr_t e, link_t *reads, link_t *writes){
    vp = s->data;
    MC_CHECK(!V.done, "await-twice", "the final callback came twice");
    V.done = true; V.err = e.type;
    mc_log("%c: final callback: %s", V.name, ename(e.type));
    DROP_VAR(&e);
    MC_CHECK(s == V.s && s->awaited, "await-flag", "the stream is not marked awaited in its final callback");
    link_t *l;
    while((l = link_list_pop_first(reads))){
        stream_read_t *rd = CONTAINER_OF(l, stream_read_t, link);
        int i = (int)(rd - V.rd);
        MC_CHECK(i >= 0 && i < VR && rd == &V.rd[i] && V.rstate[i], "await-reads", "the final callback returned a read which was not pending");
        MC_CHECK(rd->cb == v_read_cb, "await-cb", "an unfinished read was returned with another callback than the user's");
        MC_CHECK(rd->buf.data == V.mem[i] && rd->buf.size == V.size[i], "await-buf", "an unfinished read was returned with another buffer");
        MC_CHECK(V.rstate[i] == V.ranswered + 1, "await-order", "unfinished reads were returned out of order");
        V.ranswered = V.rstate[i]; V.rstate[i] = 0;
        MC_CHECK(V.err, "await-unfinished", "unfinished reads were returned without an error");
    }
    while((l = link_list_pop_first(writes))){
        stream_write_t *w = CONTAINER_OF(l, stream_write_t, link);
        int i = (int)(w - V.wr);
        MC_CHECK(i >= 0 && i < VW && w == &V.wr[i] && V.wstate[i], "await-writes", "the final callback returned a write which was not pending");
        MC_CHECK(w->cb == v_write_cb, "await-cb", "an unfinished write was returned with another callback than the user's");
        MC_CHECK(V.wstate[i] == V.wanswered + 1, "await-order", "unfinished writes were returned out of order");
        V.wanswered = V.wstate[i]; V.wstate[i] = 0;
        MC_CHECK(V.err, "await-unfinished", "unfinished writes were returned without an error");
    }
    MC_CHECK(!v_rout(), "read-lost", "a read was neither answered nor returned");
    MC_CHECK(!v_wout(), "write-lost", "a write was neither answered nor returned");
    V.sunk(VTXT);
    if(!V.err) MC_CHECK(V.eof && V.shut_cb && !V.canceled, "await-ok", "success was reported before the end of the stream");
    else if(V.err == E_CANCELED) MC_CHECK(V.canceled, "await-canceled", "E_CANCELED but nobody canceled");
    else MC_CHECK(V.base_failed, "await-error", "error %s without a reason", ename(V.err));
}
static void v_await(void){
    V.awaiting = true;
    mc_log("user %c awaits", V.name);
    stream_await_cb old = V.s->await(V.s, v_await_cb);
    MC_CHECK(!old, "await-first", "the first await returned another callback");
}
enum { Y_READ = 100, Y_WRITE, Y_SHUT, Y_CANCEL, Y_AWAIT, Y_BURST };
static void v_menu(void){
    if(v_can_read()) for(int k = 0; k < V.sizes; k++) menu_add(Y_READ, NULL, (size_t)k);
    if(v_can_write()){ menu_add(Y_WRITE, NULL, 1); if(V.big) menu_add(Y_WRITE, NULL, 6); }
    if(!V.shut && !V.canceled && !V.done) menu_add(Y_SHUT, NULL, 0);
    if(!V.awaiting) menu_add(Y_AWAIT, NULL, 0);
    if(V.cancels_left > 0 && !V.canceled) menu_add(Y_CANCEL, NULL, 0);
}
static void v_act(act_t *a){
    switch(a->what){
        case Y_READ: v_read((int)a->n); break;
        case Y_WRITE: v_write((unsigned)a->n); break;
        case Y_SHUT: v_shutdown(); break;
        case Y_CANCEL: v_cancel(); break;
        case Y_AWAIT: v_await(); break;
        default: mc_error("action?");
    }
}
static __attribute__((unused)) void v_stuck(void){
    /* called when nothing is left to happen */
    if(V.done) return;
    if(V.awaiting){
        if(V.canceled) mc_fail("never-finishes", "nothing is left to happen, but the canceled stream never gave its final callback");
        if(V.base_failed) mc_fail("never-finishes", "nothing is left to happen, but the failed stream never gave its final callback");
        if(V.eof && V.shut_cb) mc_fail("never-finishes", "nothing is left to happen, but the finished stream never gave its final callback");
    }
    if(V.canceled || V.base_failed) return;
    if(v_rout()) mc_fail("read-stuck", "nothing is left to happen, but a read was never answered");
    if(v_wout()) mc_fail("write-stuck", "nothing is left to happen, but a write was never answered");
    if(V.shut && !V.shut_cb) mc_fail("shutdown-stuck", "nothing is left to happen, but the shutdown was never answered");
}
static void v_init(stream_i *s, const char *want, size_t n, size_t (*sunk)(const char*)){
    memset(&V, 0, sizeof(V));
    for(int i = 0; i < VSRC; i++) VTXT[i] = (char)(i % (256 - 'A' - (vp - VS)) + 'A' + (vp - VS));
    V.unit = 1; V.rsize[0] = 2; V.rsize[1] = 1; V.rsize[2] = VMEM;
    V.name = (char)('A' + (vp - VS));
    s->data = vp; V.s = s; V.want = want; V.nwant = n; V.sunk = sunk;
    V.maxout = (int)mc_opt("out", 1); V.sizes = (int)mc_opt("sizes", 1); V.writes_left = (int)mc_opt("writes", 2);
    V.cancels_left = (int)mc_opt("cancels", 1); V.incb = (unsigned)mc_opt("incb", 15); V.big = mc_opt("big", 0);
}
