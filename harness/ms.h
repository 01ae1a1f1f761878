// A growing buffer and an in-memory stream_i, whose other end is a model.
#ifndef MC_MS_H
#define MC_MS_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "libduv/libduv.h"
#include "mc/mc.h"

// ---------------------------------------------------------------- growing buf
typedef struct { char *p; size_t n, cap; } buf_t;
static void b_add(buf_t *b, const void *p, size_t n){
    if(b->n + n + 1 > b->cap){
        b->cap = (b->n + n + 1) * 2 + 256;
        b->p = realloc(b->p, b->cap);
    }
    memcpy(b->p + b->n, p, n); b->n += n; b->p[b->n] = 0;
}
static void b_drop(buf_t *b, size_t n){
    memmove(b->p, b->p + n, b->n - n); b->n -= n; if(b->p) b->p[b->n] = 0;
}
static void b_free(buf_t *b){ free(b->p); *b = (buf_t){0}; }
__attribute__((format(printf, 2, 3)))
static void b_fmt(buf_t *b, const char *fmt, ...){
    char tmp[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(tmp, sizeof(tmp), fmt, ap);
    va_end(ap);
    if(n >= (int)sizeof(tmp)) mc_error("b_fmt overflow");
    b_add(b, tmp, (size_t)n);
}

// ------------------------------------------------------------------- stream
typedef struct {
    stream_i iface;
    link_t reads, writes;
    stream_await_cb await_cb;
    stream_shutdown_cb shutdown_cb;
    buf_t in;       // towards the code under test
    buf_t out;      // from the code under test
    bool broken;    // the peer is gone: no more traffic, error
    bool peer_eof;
} ms_t;
DEF_CONTAINER_OF(ms_t, iface, stream_i)

static bool ms_read(stream_i *s, stream_read_t *r, dstr_t buf, stream_read_cb cb){
    if(!stream_read_checks(s, buf)) return false;
    ms_t *m = CONTAINER_OF(s, ms_t, iface);
    stream_read_prep(r, buf, cb);
    link_list_append(&m->reads, &r->link);
    return true;
}
static bool ms_write(stream_i *s, stream_write_t *w, const dstr_t bufs[],
        unsigned int nbufs, stream_write_cb cb){
    if(!stream_write_checks(s, bufs, nbufs)) return false;
    ms_t *m = CONTAINER_OF(s, ms_t, iface);
    derr_t e = stream_write_init(w, bufs, nbufs, cb);
    if(is_error(e)) mc_error("stream_write_init");
    link_list_append(&m->writes, &w->link);
    return true;
}
static void ms_shutdown(stream_i *s, stream_shutdown_cb cb){
    ms_t *m = CONTAINER_OF(s, ms_t, iface);
    if(s->is_shutdown) return;
    s->is_shutdown = true;
    m->shutdown_cb = cb;
}
static void ms_cancel(stream_i *s){ s->canceled = true; }
static stream_await_cb ms_await(stream_i *s, stream_await_cb cb){
    ms_t *m = CONTAINER_OF(s, ms_t, iface);
    if(s->awaited) return NULL;
    stream_await_cb out = m->await_cb;
    m->await_cb = cb;
    return out;
}
static void ms_init(ms_t *m){
    *m = (ms_t){ .iface = {
        .read = ms_read, .write = ms_write, .shutdown = ms_shutdown,
        .cancel = ms_cancel, .await = ms_await,
    } };
}
static void ms_free(ms_t *m){ b_free(&m->in); b_free(&m->out); }
static void ms_done(ms_t *m, derr_t e){
    link_t reads = {0}, writes = {0};
    link_list_append_list(&reads, &m->reads);
    link_list_append_list(&writes, &m->writes);
    m->iface.awaited = true;
    if(m->await_cb) m->await_cb(&m->iface, e, &reads, &writes);
    else DROP_VAR(&e);
}
// one step; returns true if anything happened
static bool ms_pump(ms_t *m){
    stream_i *s = &m->iface;
    if(s->awaited) return false;
    // like the real streams, nothing ends before somebody waits for the end
    if((s->canceled || m->broken) && !m->await_cb) return false;
    if(s->canceled){
        derr_t e = { .type = E_CANCELED };
        ms_done(m, e);
        return true;
    }
    if(m->broken){
        derr_t e = E_OK;
        TRACE_ORIG(&e, E_CONN, "connection broken");
        ms_done(m, e);
        return true;
    }
    link_t *l;
    if((l = link_list_pop_first(&m->writes))){
        stream_write_t *w = CONTAINER_OF(l, stream_write_t, link);
        dstr_t *bufs = get_bufs_ptr(w);
        for(unsigned i = 0; i < w->nbufs; i++) b_add(&m->out, bufs[i].data, bufs[i].len);
        stream_write_free(w);
        w->cb(s, w);
        return true;
    }
    if(m->shutdown_cb){
        stream_shutdown_cb cb = m->shutdown_cb;
        m->shutdown_cb = NULL;
        m->peer_eof = true; // the peer hangs up in answer
        m->in.n = 0;
        cb(s);
        return true;
    }
    if(m->in.n && (l = link_list_pop_first(&m->reads))){
        stream_read_t *r = CONTAINER_OF(l, stream_read_t, link);
        size_t n = MIN(m->in.n, r->buf.size);
        memcpy(r->buf.data, m->in.p, n);
        r->buf.len = n;
        b_drop(&m->in, n);
        r->cb(s, r, r->buf);
        return true;
    }
    if(m->peer_eof && !m->in.n && !s->eof && (l = link_list_pop_first(&m->reads))){
        s->eof = true;
        do {
            stream_read_t *r = CONTAINER_OF(l, stream_read_t, link);
            r->buf.len = 0;
            r->cb(s, r, r->buf);
        } while((l = link_list_pop_first(&m->reads)));
        return true;
    }
    if(s->eof && s->is_shutdown && m->await_cb){
        ms_done(m, E_OK);
        return true;
    }
    return false;
}
#endif
