/* Shared by the IMAP harnesses: a canonical text form ("dump") of parsed
 * commands and responses, an independent framing lexer, and a driver which
 * feeds the real readers in pieces placed against a guard page. */
#ifndef D_IMAP_H
#define D_IMAP_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <libdstr/libdstr.h>
#include <libimap/libimap.h>
#include "../mc/mc.h"

typedef struct { char *b; size_t n, cap; } str_t;
static void s_raw(str_t *s, const void *p, size_t n){
    if(s->n + n + 1 > s->cap){
        s->cap = (s->n + n + 1) * 2 + 256;
        s->b = realloc(s->b, s->cap);
        if(!s->b) mc_error("nomem");
    }
    if(n) memcpy(s->b + s->n, p, n);
    s->n += n;
    s->b[s->n] = 0;
}
__attribute__((format(printf, 2, 3)))
static void s_f(str_t *s, const char *fmt, ...){
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if(n >= (int)sizeof(buf)) mc_error("s_f too long");
    s_raw(s, buf, (size_t)n);
}
static inline void s_q(str_t *s, const char *p, size_t n){
    s_raw(s, "\"", 1);
    for(size_t i = 0; i < n; i++){
        unsigned char c = (unsigned char)p[i];
        if(c == '"' || c == '\\' || c < 32 || c >= 127) s_f(s, "\\%02x", c);
        else s_raw(s, &p[i], 1);
    }
    s_raw(s, "\"", 1);
}
static inline bool s_eq(const str_t *a, const str_t *b){
    return a->n == b->n && (!a->n || !memcmp(a->b, b->b, a->n));
}
static inline void s_free(str_t *s){ free(s->b); *s = (str_t){0}; }
static inline const char *s_c(const str_t *s){ return s->b ? s->b : ""; }

static void d_str(str_t *s, const ie_dstr_t *d){
    if(!d){ s_f(s, "NIL"); return; }
    s_q(s, d->dstr.data, d->dstr.len);
}
static void d_list(str_t *s, const ie_dstr_t *d){
    s_f(s, "(");
    for(; d; d = d->next){ d_str(s, d); if(d->next) s_f(s, " "); }
    s_f(s, ")");
}
static void d_mbx(str_t *s, const ie_mailbox_t *m){
    if(!m) s_f(s, "nombx");
    else if(m->inbox) s_f(s, "INBOX");
    else s_q(s, m->dstr.data, m->dstr.len);
}
static void d_set(str_t *s, const ie_seq_set_t *q){
    if(!q){ s_f(s, "noset"); return; }
    for(; q; q = q->next) s_f(s, "%u:%u%s", q->n1, q->n2, q->next ? "," : "");
}
static void d_time(str_t *s, imap_time_t t){
    s_f(s, "%d-%d-%dT%d:%d:%dZ%d:%d", t.year, t.month, t.day, t.hour, t.min, t.sec, t.z_hour, t.z_min);
}
#define D_FLAGS(f) do{ \
    if(f){ \
        if((f)->answered) s_f(s, " ans"); \
        if((f)->flagged) s_f(s, " flg"); \
        if((f)->deleted) s_f(s, " del"); \
        if((f)->seen) s_f(s, " seen"); \
        if((f)->draft) s_f(s, " draft"); \
        s_f(s, " kw"); d_list(s, (f)->keywords); \
        s_f(s, " ext"); d_list(s, (f)->extensions); \
    } else s_f(s, " kw() ext()"); \
}while(0)
static void d_params(str_t *s, const ie_select_params_t *p){
    for(; p; p = p->next){
        if(p->type == IE_SELECT_PARAM_CONDSTORE) s_f(s, " condstore");
        else{
            s_f(s, " qresync %u %lu ", p->arg.qresync.uidvld, (unsigned long)p->arg.qresync.last_modseq);
            d_set(s, p->arg.qresync.known_uids); s_f(s, " ");
            d_set(s, p->arg.qresync.seq_keys); s_f(s, " ");
            d_set(s, p->arg.qresync.uid_vals);
        }
    }
}
static void d_key(str_t *s, const ie_search_key_t *k){
    if(!k){ s_f(s, "nokey"); return; }
    static const char *names[] = {
        "ALL","ANSWERED","DELETED","FLAGGED","NEW","OLD","RECENT","SEEN","UNANSWERED","UNDELETED",
        "UNFLAGGED","UNSEEN","DRAFT","UNDRAFT","SUBJECT","BCC","BODY","CC","FROM","KEYWORD","TEXT","TO",
        "UNKEYWORD","HEADER","BEFORE","ON","SINCE","SENTBEFORE","SENTON","SENTSINCE","LARGER","SMALLER",
        "UID","SEQ","NOT","GROUP","OR","AND","MODSEQ"};
    if(k->type == IE_SEARCH_AND){
        d_key(s, k->param.pair.a); s_f(s, " & "); d_key(s, k->param.pair.b);
        return;
    }
    s_f(s, "%s", names[k->type]);
    switch(k->type){
        case IE_SEARCH_SUBJECT: case IE_SEARCH_BCC: case IE_SEARCH_BODY: case IE_SEARCH_CC:
        case IE_SEARCH_FROM: case IE_SEARCH_KEYWORD: case IE_SEARCH_TEXT: case IE_SEARCH_TO:
        case IE_SEARCH_UNKEYWORD: s_f(s, " "); d_str(s, k->param.dstr); break;
        case IE_SEARCH_HEADER: s_f(s, " "); d_str(s, k->param.header.name);
            s_f(s, " "); d_str(s, k->param.header.value); break;
        case IE_SEARCH_BEFORE: case IE_SEARCH_ON: case IE_SEARCH_SINCE: case IE_SEARCH_SENTBEFORE:
        case IE_SEARCH_SENTON: case IE_SEARCH_SENTSINCE: s_f(s, " "); d_time(s, k->param.date); break;
        case IE_SEARCH_LARGER: case IE_SEARCH_SMALLER: s_f(s, " %u", k->param.num); break;
        case IE_SEARCH_UID: case IE_SEARCH_SEQ_SET: s_f(s, " "); d_set(s, k->param.seq_set); break;
        case IE_SEARCH_NOT: case IE_SEARCH_GROUP: s_f(s, "("); d_key(s, k->param.key); s_f(s, ")"); break;
        case IE_SEARCH_OR: s_f(s, "("); d_key(s, k->param.pair.a); s_f(s, "|"); d_key(s, k->param.pair.b);
            s_f(s, ")"); break;
        case IE_SEARCH_MODSEQ:
            if(k->param.modseq.ext){
                s_f(s, " "); d_str(s, k->param.modseq.ext->entry_name);
                s_f(s, " %d", (int)k->param.modseq.ext->entry_type);
            }
            s_f(s, " %lu", (unsigned long)k->param.modseq.modseq);
            break;
        default: break;
    }
}
static void d_sect(str_t *s, const ie_sect_t *x){
    s_f(s, "[");
    if(x){
        for(const ie_sect_part_t *p = x->sect_part; p; p = p->next) s_f(s, "%u.", p->n);
        if(x->sect_txt){
            static const char *n[] = {"MIME","TEXT","HEADER","FIELDS","NOTFIELDS"};
            s_f(s, "%s", n[x->sect_txt->type]);
            if(x->sect_txt->type >= IE_SECT_HDR_FLDS) d_list(s, x->sect_txt->headers);
        }
    }
    s_f(s, "]");
}
static void d_attrs(str_t *s, const ie_fetch_attrs_t *f){
    if(!f){ s_f(s, "noattrs"); return; }
    s_f(s, "{");
    if(f->envelope) s_f(s, "env ");
    if(f->flags) s_f(s, "flags ");
    if(f->intdate) s_f(s, "date ");
    if(f->uid) s_f(s, "uid ");
    if(f->rfc822) s_f(s, "rfc822 ");
    if(f->rfc822_header) s_f(s, "hdr ");
    if(f->rfc822_size) s_f(s, "size ");
    if(f->rfc822_text) s_f(s, "text ");
    if(f->body) s_f(s, "body ");
    if(f->bodystruct) s_f(s, "struct ");
    if(f->modseq) s_f(s, "modseq ");
    for(const ie_fetch_extra_t *x = f->extras; x; x = x->next){
        s_f(s, "%s", x->peek ? "PEEK" : "B");
        d_sect(s, x->sect);
        if(x->partial) s_f(s, "<%u.%u>", x->partial->a, x->partial->b);
        s_f(s, " ");
    }
    s_f(s, "}");
}
static const char *cmd_names[] = {
    "ERROR","PLUS_REQ","CAPA","NOOP","LOGOUT","STARTTLS","LOGIN","SELECT","EXAMINE","CREATE","DELETE",
    "RENAME","SUB","UNSUB","LIST","LSUB","STATUS","APPEND","CHECK","CLOSE","EXPUNGE","SEARCH","FETCH",
    "STORE","COPY","ENABLE","UNSELECT","IDLE","IDLE_DONE","XKEYSYNC","XKEYSYNC_DONE","XKEYADD"};

static void d_cmd(str_t *s, const imap_cmd_t *c){
    s_f(s, "%s ", cmd_names[c->type]);
    d_str(s, c->tag);
    s_f(s, " ");
    const imap_cmd_arg_t *a = &c->arg;
    switch(c->type){
        /* the text of an error is informational: only its presence counts */
        case IMAP_CMD_ERROR: s_f(s, "%s", a->error ? "msg" : "NOMSG"); break;
        case IMAP_CMD_IDLE_DONE: s_f(s, "%s", a->idle_done ? "err" : "ok"); break;
        case IMAP_CMD_PLUS_REQ: d_str(s, a->plus); break;
        case IMAP_CMD_LOGIN: d_str(s, a->login->user); s_f(s, " "); d_str(s, a->login->pass); break;
        case IMAP_CMD_SELECT: d_mbx(s, a->select->m); d_params(s, a->select->params); break;
        case IMAP_CMD_EXAMINE: d_mbx(s, a->examine->m); d_params(s, a->examine->params); break;
        case IMAP_CMD_CREATE: d_mbx(s, a->create); break;
        case IMAP_CMD_DELETE: d_mbx(s, a->delete); break;
        case IMAP_CMD_SUB: d_mbx(s, a->sub); break;
        case IMAP_CMD_UNSUB: d_mbx(s, a->unsub); break;
        case IMAP_CMD_RENAME: d_mbx(s, a->rename->old); s_f(s, " "); d_mbx(s, a->rename->new); break;
        case IMAP_CMD_LIST: d_mbx(s, a->list->m); s_f(s, " "); d_str(s, a->list->pattern); break;
        case IMAP_CMD_LSUB: d_mbx(s, a->lsub->m); s_f(s, " "); d_str(s, a->lsub->pattern); break;
        case IMAP_CMD_STATUS: d_mbx(s, a->status->m); s_f(s, " %u", a->status->status_attr); break;
        case IMAP_CMD_APPEND: d_mbx(s, a->append->m); D_FLAGS(a->append->flags); s_f(s, " ");
            if(a->append->time.year) d_time(s, a->append->time);
            s_f(s, " "); d_str(s, a->append->content); break;
        case IMAP_CMD_EXPUNGE: if(a->uid_expunge) d_set(s, a->uid_expunge); break;
        case IMAP_CMD_SEARCH: s_f(s, "%d ", a->search->uid_mode); d_str(s, a->search->charset);
            s_f(s, " "); d_key(s, a->search->search_key); break;
        case IMAP_CMD_FETCH: s_f(s, "%d ", a->fetch->uid_mode); d_set(s, a->fetch->seq_set); s_f(s, " ");
            d_attrs(s, a->fetch->attr);
            for(const ie_fetch_mods_t *m = a->fetch->mods; m; m = m->next){
                if(m->type == IE_FETCH_MOD_VANISHED) s_f(s, " vanished");
                else s_f(s, " chgsince %lu", (unsigned long)m->arg.chgsince);
            }
            break;
        case IMAP_CMD_STORE: s_f(s, "%d ", a->store->uid_mode); d_set(s, a->store->seq_set);
            for(const ie_store_mods_t *m = a->store->mods; m; m = m->next)
                s_f(s, " unchgsince %lu", (unsigned long)m->arg.unchgsince);
            s_f(s, " %d %d", a->store->sign, a->store->silent); D_FLAGS(a->store->flags); break;
        case IMAP_CMD_COPY: s_f(s, "%d ", a->copy->uid_mode); d_set(s, a->copy->seq_set); s_f(s, " ");
            d_mbx(s, a->copy->m); break;
        case IMAP_CMD_ENABLE: d_list(s, a->enable); break;
        case IMAP_CMD_XKEYSYNC: d_list(s, a->xkeysync); break;
        case IMAP_CMD_XKEYSYNC_DONE: d_str(s, a->xkeysync_done); break;
        case IMAP_CMD_XKEYADD: d_str(s, a->xkeyadd); break;
        default: break;
    }
    s_f(s, "\n");
}
static void d_code(str_t *s, const ie_st_code_t *c){
    if(!c){ s_f(s, "nocode"); return; }
    static const char *n[] = {"ALERT","PARSE","RO","RW","TRYCREATE","UIDNEXT","UIDVLD","UNSEEN","PERMFLAGS",
        "CAPA","ATOM","UIDNOSTICK","APPENDUID","COPYUID","NOMODSEQ","HIMODSEQ","MODIFIED","CLOSED"};
    s_f(s, "[%s", n[c->type]);
    switch(c->type){
        case IE_ST_CODE_UIDNEXT: s_f(s, " %u", c->arg.uidnext); break;
        case IE_ST_CODE_UIDVLD: s_f(s, " %u", c->arg.uidvld); break;
        case IE_ST_CODE_UNSEEN: s_f(s, " %u", c->arg.unseen); break;
        case IE_ST_CODE_PERMFLAGS: D_FLAGS(c->arg.pflags);
            if(c->arg.pflags && c->arg.pflags->asterisk) s_f(s, " *");
            break;
        case IE_ST_CODE_CAPA: d_list(s, c->arg.capa); break;
        case IE_ST_CODE_ATOM: s_f(s, " "); d_str(s, c->arg.atom.name); s_f(s, " "); d_str(s, c->arg.atom.text);
            break;
        case IE_ST_CODE_APPENDUID: s_f(s, " %u %u", c->arg.appenduid.uidvld, c->arg.appenduid.uid); break;
        case IE_ST_CODE_COPYUID: s_f(s, " %u ", c->arg.copyuid.uidvld); d_set(s, c->arg.copyuid.uids_in);
            s_f(s, " "); d_set(s, c->arg.copyuid.uids_out); break;
        case IE_ST_CODE_HIMODSEQ: s_f(s, " %lu", (unsigned long)c->arg.himodseq); break;
        case IE_ST_CODE_MODIFIED: s_f(s, " "); d_set(s, c->arg.modified); break;
        default: break;
    }
    s_f(s, "]");
}
static void d_listresp(str_t *s, const ie_list_resp_t *l){
    if(l->mflags){
        if(l->mflags->noinferiors) s_f(s, "noinf ");
        s_f(s, "sel%d ", (int)l->mflags->selectable);
        d_list(s, l->mflags->extensions);
    }else s_f(s, "sel0 ()");
    s_f(s, " %02x ", (unsigned char)l->sep);
    d_mbx(s, l->m);
}
static void d_resp(str_t *s, const imap_resp_t *r){
    static const char *n[] = {"PLUS","ST","CAPA","LIST","LSUB","STATUS","FLAGS","SEARCH","EXISTS","EXPUNGE",
        "RECENT","FETCH","ENABLED","VANISHED","XKEYSYNC"};
    s_f(s, "%s ", n[r->type]);
    const imap_resp_arg_t *a = &r->arg;
    switch(r->type){
        case IMAP_RESP_PLUS: d_code(s, a->plus->code); s_f(s, " "); d_str(s, a->plus->text); break;
        case IMAP_RESP_STATUS_TYPE: d_str(s, a->status_type->tag);
            s_f(s, " %d ", (int)a->status_type->status); d_code(s, a->status_type->code); s_f(s, " ");
            d_str(s, a->status_type->text); break;
        case IMAP_RESP_CAPA: d_list(s, a->capa); break;
        case IMAP_RESP_LIST: d_listresp(s, a->list); break;
        case IMAP_RESP_LSUB: d_listresp(s, a->lsub); break;
        case IMAP_RESP_STATUS:{
            const ie_status_attr_resp_t *sa = &a->status->sa;
            d_mbx(s, a->status->m); s_f(s, " %u", sa->attrs);
            if(sa->attrs & 1) s_f(s, " m%u", sa->messages);
            if(sa->attrs & 2) s_f(s, " r%u", sa->recent);
            if(sa->attrs & 4) s_f(s, " n%u", sa->uidnext);
            if(sa->attrs & 8) s_f(s, " v%u", sa->uidvld);
            if(sa->attrs & 16) s_f(s, " u%u", sa->unseen);
            if(sa->attrs & 32) s_f(s, " h%lu", (unsigned long)sa->himodseq);
        }   break;
        case IMAP_RESP_FLAGS: D_FLAGS(a->flags); break;
        case IMAP_RESP_SEARCH:
            if(a->search){
                for(const ie_nums_t *q = a->search->nums; q; q = q->next) s_f(s, "%u ", q->num);
                if(a->search->modseq_present) s_f(s, "ms%lu", (unsigned long)a->search->modseqnum);
            }
            break;
        case IMAP_RESP_EXISTS: s_f(s, "%u", a->exists); break;
        case IMAP_RESP_EXPUNGE: s_f(s, "%u", a->expunge); break;
        case IMAP_RESP_RECENT: s_f(s, "%u", a->recent); break;
        case IMAP_RESP_FETCH:{
            const ie_fetch_resp_t *f = a->fetch;
            s_f(s, "%u", f->seq_num);
            if(f->flags){
                s_f(s, " flags"); D_FLAGS(f->flags);
                if(f->flags->recent) s_f(s, " recent");
            }
            if(f->uid) s_f(s, " uid%u", f->uid);
            if(f->intdate.year){ s_f(s, " "); d_time(s, f->intdate); }
            if(f->rfc822){ s_f(s, " rfc822 "); d_str(s, f->rfc822); }
            if(f->modseq) s_f(s, " ms%lu", (unsigned long)f->modseq);
            for(const ie_fetch_resp_extra_t *x = f->extras; x; x = x->next){
                s_f(s, " B"); d_sect(s, x->sect);
                if(x->offset) s_f(s, "<%u>", x->offset->num);
                d_str(s, x->content);
            }
        }   break;
        case IMAP_RESP_ENABLED: d_list(s, a->enabled); break;
        case IMAP_RESP_VANISHED: s_f(s, "%d ", a->vanished->earlier); d_set(s, a->vanished->uids); break;
        case IMAP_RESP_XKEYSYNC:
            if(!a->xkeysync) s_f(s, "OK");
            else if(a->xkeysync->created){ s_f(s, "CREATED "); d_str(s, a->xkeysync->created); }
            else{ s_f(s, "DELETED "); d_str(s, a->xkeysync->deleted); }
            break;
    }
    s_f(s, "\n");
}

/* ---- feeding the readers ---- */
static char *g_page; /* end of the writable area, followed by a guard page */
static size_t g_room;
static void feed_init(void){
    g_room = 1 << 16;
    char *p = mmap(NULL, g_room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED || mprotect(p + g_room, 4096, PROT_NONE)) mc_error("mmap");
    g_page = p + g_room;
}
static dstr_t guarded(const char *p, size_t n){
    if(n > g_room) mc_error("too long");
    memcpy(g_page - n, p, n);
    return (dstr_t){ .data = g_page - n, .len = n, .size = n, .fixed_size = true };
}
/* 0: none, 1: available, 2: on, 3: what the program offers to its users */
static extensions_t exts_of(int on){
    if(on == 3) return (extensions_t){ .idle = EXT_STATE_ON };
    extension_state_e s = on == 2 ? EXT_STATE_ON : on ? EXT_STATE_OFF : EXT_STATE_DISABLED;
    return (extensions_t){ s, s, s, s, s, s, s };
}
/* cuts: ascending offsets strictly inside the text; returns the dump; one
   line per object.  *stop: how many bytes had been fed when it failed */
static str_t read_cmds(const char *t, size_t n, const size_t *cuts, int ncuts, int on, bool *failed){
    str_t out = {0};
    extensions_t exts = exts_of(on);
    imap_cmd_reader_t r;
    derr_t e = imap_cmd_reader_init(&r, &exts);
    if(is_error(e)) mc_error("reader init");
    *failed = false;
    size_t at = 0;
    for(int i = 0; i <= ncuts && !*failed; i++){
        size_t to = i < ncuts ? cuts[i] : n;
        if(to <= at) continue;
        link_t l = {0}, *lk;
        e = imap_cmd_read(&r, guarded(t + at, to - at), &l);
        while((lk = link_list_pop_first(&l))){
            imap_cmd_t *c = CONTAINER_OF(lk, imap_cmd_t, link);
            d_cmd(&out, c);
            imap_cmd_free(c);
        }
        if(is_error(e)){
            s_f(&out, "!%s\n", error_to_dstr(e.type).data);
            DROP_VAR(&e);
            *failed = true;
        }
        at = to;
    }
    imap_cmd_reader_free(&r);
    return out;
}
static str_t read_resps(const char *t, size_t n, const size_t *cuts, int ncuts, int on, bool *failed){
    str_t out = {0};
    extensions_t exts = exts_of(on);
    imap_resp_reader_t r;
    derr_t e = imap_resp_reader_init(&r, &exts);
    if(is_error(e)) mc_error("reader init");
    *failed = false;
    size_t at = 0;
    for(int i = 0; i <= ncuts && !*failed; i++){
        size_t to = i < ncuts ? cuts[i] : n;
        if(to <= at) continue;
        link_t l = {0}, *lk;
        e = imap_resp_read(&r, guarded(t + at, to - at), &l);
        while((lk = link_list_pop_first(&l))){
            imap_resp_t *c = CONTAINER_OF(lk, imap_resp_t, link);
            d_resp(&out, c);
            imap_resp_free(c);
        }
        if(is_error(e)){
            s_f(&out, "!%s\n", error_to_dstr(e.type).data);
            DROP_VAR(&e);
            *failed = true;
        }
        at = to;
    }
    imap_resp_reader_free(&r);
    return out;
}

/* independent framing: where the line which starts at 'at' ends (after its
   CRLF), with quoted strings and literals understood; 0 when it never does.
   plain: bytes which may not appear raw outside a literal are an error (0) */
static inline size_t frame_text(const char *t, size_t n, size_t at){
    /* a line of free text: nothing in it is quoted and nothing is a literal */
    for(size_t i = at; i < n; i++){
        if(!t[i] || t[i] == '\n') return 0;
        if(t[i] == '\r') return i + 1 < n && t[i+1] == '\n' ? i + 2 : 0;
    }
    return 0;
}
static inline size_t frame(const char *t, size_t n, size_t at){
    size_t i = at;
    while(i < n){
        char c = t[i];
        if(c == 0) return 0;
        if(c == '"'){
            for(i++; i < n && t[i] != '"'; i++){
                if(t[i] == '\r' || t[i] == '\n' || !t[i]) return 0;
                if(t[i] == '\\') i++;
            }
            if(i >= n) return 0;
            i++;
            continue;
        }
        if(c == '{'){
            size_t j = i + 1, v = 0;
            while(j < n && t[j] >= '0' && t[j] <= '9') v = v * 10 + (size_t)(t[j++] - '0');
            if(j < n && t[j] == '+') j++;
            if(j + 2 < n + 1 && j > i + 1 && t[j] == '}' && j + 2 < n && t[j+1] == '\r' && t[j+2] == '\n'){
                if(j + 3 + v > n) return 0;
                i = j + 3 + v;
                continue;
            }
        }
        if(c == '\r') return i + 1 < n && t[i+1] == '\n' ? i + 2 : 0;
        if(c == '\n') return 0;
        i++;
    }
    return 0;
}
/* LITERAL+ announcements to plain ones, as the server of this program (which
   does not offer LITERAL+) expects them; literals only */
static inline str_t unplus(const char *t, size_t n){
    str_t out = {0};
    size_t i = 0;
    while(i < n){
        if(t[i] == '"'){
            size_t j = i + 1;
            while(j < n && t[j] != '"') j += t[j] == '\\' ? 2 : 1;
            j = j + 1 > n ? n : j + 1;
            s_raw(&out, t + i, j - i);
            i = j;
            continue;
        }
        if(t[i] == '{'){
            size_t j = i + 1, v = 0;
            while(j < n && t[j] >= '0' && t[j] <= '9') v = v * 10 + (size_t)(t[j++] - '0');
            if(j > i + 1 && j + 3 < n && t[j] == '+' && t[j+1] == '}' && t[j+2] == '\r' && t[j+3] == '\n'){
                s_f(&out, "{%zu}\r\n", v);
                if(j + 4 + v > n) v = n - j - 4;
                s_raw(&out, t + j + 4, v);
                i = j + 4 + v;
                continue;
            }
        }
        s_raw(&out, t + i, 1);
        i++;
    }
    return out;
}
/* every single cut, byte by byte, and (when small) every pair of cuts */
/* a text which ends the session does so however it is cut; of what came before
   the end in the same packet, nothing need be reported */
static size_t before_end(const str_t *a){
    size_t i = a->n;
    if(i && a->b[i-1] == '\n') i--;
    while(i && a->b[i-1] != '\n') i--;
    return i < a->n && a->b[i] == '!' ? i : SIZE_MAX;
}
static bool same_read(const str_t *a, const str_t *b){
    size_t x = before_end(a), y = before_end(b);
    if(x == SIZE_MAX || y == SIZE_MAX) return s_eq(a, b);
    if(a->n - x != b->n - y || memcmp(a->b + x, b->b + y, a->n - x)) return false;
    size_t k = x < y ? x : y;
    return k == 0 || !memcmp(a->b, b->b, k);
}
static void check_cuts(bool iscmd, const char *t, size_t n, int on, const str_t *whole, int depth){
    bool f;
    size_t cuts[512];
    if(n > 512) mc_error("text too long: %zu", n);
    for(size_t i = 1; i < n; i++) cuts[i-1] = i;
    str_t g = iscmd ? read_cmds(t, n, cuts, (int)n - 1, on, &f) : read_resps(t, n, cuts, (int)n - 1, on, &f);
    if(!same_read(&g, whole)) mc_fail("cuts", "byte by byte, [%.300s] is read as %s, at once as %s", t, s_c(&g), s_c(whole));
    s_free(&g);
    for(size_t i = 1; depth > 0 && i < n; i++){
        for(size_t j = i; j < (depth > 1 ? n : i + 1); j++){
            cuts[0] = i; cuts[1] = j;
            g = iscmd ? read_cmds(t, n, cuts, j > i ? 2 : 1, on, &f) : read_resps(t, n, cuts, j > i ? 2 : 1, on, &f);
            if(!same_read(&g, whole)) mc_fail("cuts", "cut at %zu and %zu, [%.300s] is read as %s, at once as %s", i, j, t, s_c(&g), s_c(whole));
            s_free(&g);
        }
    }
}
#endif
