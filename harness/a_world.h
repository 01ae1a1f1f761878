// The world around the mail store: an IMAP server model for the upstream
// side, IMAP client models for the downstream side, in-memory streams, and a
// real sc_t with a real imap_server_t, imap_client_t, dn_t, up_t, imaildir_t
// and dirmgr_t for every session.
#ifndef A_WORLD_H
#define A_WORLD_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <ctype.h>
#include <setjmp.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <ftw.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>

#include "libcitm/libcitm.h"
#include "libduv/fake_stream.h"
#include "libcitm/fake_citm.h"
#include "mc/mc.h"

#define F_ANS 1u
#define F_FLAG 2u
#define F_SEEN 4u
#define F_DRAFT 8u
#define F_DEL 16u
#define F_RECENT 32u

#define MAXMSG 64
#define MAXSESS 12
#define MAXVIEW 64
#define MAXLOG 256

#include "harness/ms.h"

// ------------------------------------------------------------- server model
typedef struct {
    unsigned uid; unsigned fl; unsigned long modseq; int content;
} smsg_t;
typedef struct { unsigned uid; unsigned long modseq; } svan_t;
#define NMB 10
typedef struct {
    char name[300];
    unsigned uidvld, uidnext; unsigned long himodseq;
    smsg_t m[MAXMSG]; int n;
    svan_t van[MAXMSG]; int nvan;
    bool exists;
} smbox_t;

// message contents; the id is the identity of the message
typedef struct {
    buf_t body;         // as stored on the server
    buf_t plain;        // as the client should see it
    bool not4me;
    bool ghost;         // expunged before some open connection heard of it
    char date[40];      // INTERNALDATE
} content_t;

typedef enum { EF_STORE, EF_EXPUNGE, EF_COPY, EF_APPEND } ef_type_e;
typedef struct {
    ef_type_e type; int content; int mbox; char sign; unsigned fl; int step; int sess;
} effect_t;

typedef enum { IN_STORE, IN_EXPUNGE, IN_COPY, IN_APPEND, IN_SEEN } in_type_e;
typedef struct {
    in_type_e type; int mbox; int cont[MAXVIEW]; int ncont; char sign; unsigned fl;
    int step; int sess; int answer; // 0 none 1 OK 2 NO/BAD 3 lost
    int dst; const char *dname;
} intent_t;

// server's per-connection view of a message
typedef struct { unsigned uid; unsigned long modseq; int content; } sview_t;

typedef enum { OP_NONE, OP_SELECT, OP_EXAMINE, OP_STORE, OP_EXPUNGE, OP_COPY,
    OP_FETCH, OP_CLOSE, OP_IDLE, OP_NOOP, OP_LOGOUT, OP_SEARCH, OP_STATUS,
    OP_APPEND, OP_DONE, OP_LIST, OP_CHECK } cop_e;

typedef struct {
    unsigned uid;       // 0 unknown
    bool flknown; unsigned fl;
    bool gotbody; char date[40]; int content;  // -1 unknown
    bool fetched;  // mentioned by the current command's FETCH responses
} cview_t;

typedef struct {
    int id;
    bool used;
    // downstream
    ms_t dn;
    citm_conn_t dnconn;
    bool greeted;
    bool bye;
    int mbox;           // selected (as the client knows), -1 none
    int oldmb;          // selected before the SELECT in flight
    bool examine;
    cview_t v[MAXVIEW]; int nv;
    unsigned uidvld, uidnext;
    unsigned nexists;
    cop_e op; char tag[16]; int intent; int selmbox; bool selexamine; bool uidmode;
    const char *selname;    // given by name (may not exist)
    int fetchcount;
    bool sawexists;
    bool idling;
    int status;     // of the last completed command: 1 OK 2 NO 3 BAD
    char stline[256];
    int ncmd;
    unsigned searchres[MAXVIEW]; int nsearch; bool gotsearch;
    unsigned st_messages, st_unseen, st_uidnext, st_uidvld, st_recent; bool gotstatus;
    // upstream
    ms_t up;
    citm_conn_t upconn;
    int umbox; bool uexamine; sview_t uv[MAXVIEW]; int nuv; bool uidle; char uidletag[80];
    bool stale;
    bool upgone;        // the server dropped it
    bool excused;       // a fault hit this session: it may end
    bool mayend;        // the proxy may end this session (UIDVALIDITY reset)
    bool ugreeted;
    buf_t held;         // response bytes not delivered yet (split responses)
    // code under test
    imap_server_t *s; imap_client_t *c; sc_t *sc;
    bool sc_done;
    int ended_step;
} sess_t;

// ------------------------------------------------------------------- globals
static smbox_t mb[NMB]; static int nmb;
static content_t conts[MAXMSG]; static int nconts;
static sess_t ss[MAXSESS]; static int nsess;
static bool local[NMB][MAXMSG];     // a client was given that message from that mailbox
static char gone[32][300]; static int ngone;   // deleted or renamed away
static bool good_name(const char *n);
static void add_gone(const char *n){
    for(int i = 0; i < ngone; i++) if(!strcmp(gone[i], n)) return;
    if(ngone < 32) snprintf(gone[ngone++], 300, "%s", n);
}
static effect_t effs[MAXLOG]; static int neffs;
static intent_t ints[MAXLOG]; static int nints;
static int stepno;
static char dirpath[512];
static bool dm_open;
static dirmgr_t dm;
static manual_scheduler_t msched;
static scheduler_i *sched;
static imaildir_hooks_i hooks;
static time_t vtime;
static keypair_t *kp; static link_t keylist;
// learned (uidvld, uid) -> content
typedef struct { int mbox; unsigned uidvld, uid; int content; } learned_t;
static learned_t learned[512]; static int nlearned;
typedef struct { int mbox; unsigned uidvld, floor; } floor_t;
static floor_t floors[128]; static int nfloors;
static int dlcount[MAXMSG];     // downloads of a content per mailbox 0
static bool dlseen[MAXMSG];     // content shown complete to a client (mailbox 0)
static int nfaults;             // drops, crashes, NOs so far
static int nresets;             // UIDVALIDITY resets so far
static bool crashed_ever;

time_t __wrap_time(time_t *t);
time_t __wrap_time(time_t *t){ if(t) *t = vtime; return vtime; }

#define T(...) mc_log(__VA_ARGS__)
static void tdata(const char *pfx, int id, const char *p, size_t n){
    char tmp[400]; size_t k = 0;
    for(size_t i = 0; i < n && k < sizeof(tmp) - 8; i++){
        unsigned char c = (unsigned char)p[i];
        if(c == '\r') continue;
        if(c == '\n'){ tmp[k++] = '|'; continue; }
        tmp[k++] = (char)(c < 32 || c > 126 ? '?' : c);
    }
    tmp[k] = 0;
    T("%s%d %s%s", pfx, id, tmp, n > k + 100 ? "..." : "");
}

// ------------------------------------------------------------------ contents
static int new_content(bool not4me){
    if(nconts == MAXMSG) mc_error("too many messages");
    content_t *c = &conts[nconts];
    *c = (content_t){0};
    c->not4me = not4me;
    if(not4me) b_fmt(&c->body, "NOT4ME m%d\r\n", nconts);
    else b_fmt(&c->body, "Subject: m%d\r\nFrom: a@b\r\n\r\nbody of m%d\r\n", nconts, nconts);
    b_add(&c->plain, c->body.p, c->body.n);
    snprintf(c->date, sizeof(c->date), "11-Jun-2021 01:41:%02d +0000", nconts);
    return nconts++;
}
static int content_by_plain(const char *p, size_t n){
    for(int i = 0; i < nconts; i++){
        if(conts[i].plain.n == n && !memcmp(conts[i].plain.p, p, n)) return i;
    }
    return -1;
}
static derr_t hk_process(imaildir_hooks_i *h, const dstr_t *mailbox,
        const string_builder_t *path, const dstr_t *content, size_t *len, bool *not4me){
    derr_t e = E_OK;
    (void)h; (void)mailbox;
    *not4me = false; *len = 0;
    for(int i = 0; i < nconts; i++){
        content_t *c = &conts[i];
        if(c->body.n != content->len || memcmp(c->body.p, content->data, content->len)) continue;
        if(c->not4me){ *not4me = true; return e; }
        dstr_t d; DSTR_WRAP(d, c->plain.p, c->plain.n, false);
        PROP(&e, dstr_write_path(path, &d) );
        *len = c->plain.n;
        return e;
    }
    mc_fail("content-corrupt", "a message body reached the store altered");
}

// -------------------------------------------------------------- server model
static void mb_add(int b, int content, unsigned fl){
    smbox_t *m = &mb[b];
    if(m->n == MAXMSG) mc_error("mailbox full");
    m->m[m->n++] = (smsg_t){ m->uidnext++, fl, ++m->himodseq, content };
}
static int mb_find(int b, unsigned uid){
    for(int i = 0; i < mb[b].n; i++) if(mb[b].m[i].uid == uid) return i;
    return -1;
}
static int mb_find_content(int b, int content){
    for(int i = 0; i < mb[b].n; i++) if(mb[b].m[i].content == content) return i;
    return -1;
}
static void mb_del(int b, int i){
    smbox_t *m = &mb[b];
    if(m->nvan == MAXMSG) mc_error("vanished full");
    m->van[m->nvan++] = (svan_t){ m->m[i].uid, ++m->himodseq };
    for(int k = 0; k < nsess; k++){
        sess_t *x = &ss[k];
        if(!x->used || x->umbox != b) continue;
        bool knows = false;
        for(int j = 0; j < x->nuv; j++) knows |= x->uv[j].uid == m->m[i].uid;
        if(!knows) conts[m->m[i].content].ghost = true;
    }
    memmove(&m->m[i], &m->m[i+1], sizeof(m->m[0]) * (size_t)(m->n - i - 1));
    m->n--;
}
static void fl_fmt(buf_t *o, unsigned fl){
    const char *sep = "";
    b_fmt(o, "(");
    if(fl & F_ANS){ b_fmt(o, "%s\\Answered", sep); sep = " "; }
    if(fl & F_FLAG){ b_fmt(o, "%s\\Flagged", sep); sep = " "; }
    if(fl & F_SEEN){ b_fmt(o, "%s\\Seen", sep); sep = " "; }
    if(fl & F_DRAFT){ b_fmt(o, "%s\\Draft", sep); sep = " "; }
    if(fl & F_DEL){ b_fmt(o, "%s\\Deleted", sep); sep = " "; }
    b_fmt(o, ")");
}
static unsigned fl_parse(const char *p, const char *end){
    unsigned fl = 0;
    while(p < end){
        if(!strncasecmp(p, "\\Answered", 9)) fl |= F_ANS;
        if(!strncasecmp(p, "\\Flagged", 8)) fl |= F_FLAG;
        if(!strncasecmp(p, "\\Seen", 5)) fl |= F_SEEN;
        if(!strncasecmp(p, "\\Draft", 6)) fl |= F_DRAFT;
        if(!strncasecmp(p, "\\Deleted", 8)) fl |= F_DEL;
        if(!strncasecmp(p, "\\Recent", 7)) fl |= F_RECENT;
        p++;
    }
    return fl;
}

// lines of the response being built
static buf_t rsp; static size_t rsp_end[64]; static int rsp_n;
static void eol(void){
    b_add(&rsp, "\r\n", 2);
    if(rsp_n == 64) mc_error("too many response lines");
    rsp_end[rsp_n++] = rsp.n;
}

static int uv_find(sess_t *x, unsigned uid){
    for(int i = 0; i < x->nuv; i++) if(x->uv[i].uid == uid) return i;
    return -1;
}
static void uv_del(sess_t *x, int i){
    memmove(&x->uv[i], &x->uv[i+1], sizeof(x->uv[0]) * (size_t)(x->nuv - i - 1));
    x->nuv--;
}
static void srv_fetch_line(sess_t *x, int vi){
    smbox_t *m = &mb[x->umbox];
    int i = mb_find(x->umbox, x->uv[vi].uid);
    b_fmt(&rsp, "* %d FETCH (UID %u FLAGS ", vi + 1, m->m[i].uid);
    fl_fmt(&rsp, m->m[i].fl);
    b_fmt(&rsp, " MODSEQ (%lu))", m->m[i].modseq);
    x->uv[vi].modseq = m->m[i].modseq;
    eol();
}
// everything other connections did
static void srv_flush(sess_t *x){
    if(x->umbox < 0) return;
    smbox_t *m = &mb[x->umbox];
    const char *sep = "* VANISHED ";
    for(int i = 0; i < x->nuv; i++){
        if(mb_find(x->umbox, x->uv[i].uid) >= 0) continue;
        b_fmt(&rsp, "%s%u", sep, x->uv[i].uid); sep = ",";
        uv_del(x, i--);
    }
    if(*sep == ',') eol();
    int old = x->nuv;
    for(int i = 0; i < m->n; i++){
        if(uv_find(x, m->m[i].uid) >= 0) continue;
        x->uv[x->nuv++] = (sview_t){ m->m[i].uid, m->m[i].modseq, m->m[i].content };
    }
    if(x->nuv != old){
        b_fmt(&rsp, "* %d EXISTS", x->nuv); eol();
        b_fmt(&rsp, "* 0 RECENT"); eol();
    }
    for(int i = 0; i < old; i++){
        int k = mb_find(x->umbox, x->uv[i].uid);
        if(m->m[k].modseq != x->uv[i].modseq) srv_fetch_line(x, i);
    }
}

// uid set membership; "*" is the largest uid in the session
static bool in_set(const char *set, size_t n, unsigned uid, unsigned max){
    const char *p = set, *end = set + n;
    while(p < end){
        unsigned a, b; char *q;
        if(*p == '*'){ a = max; p++; }else{ a = (unsigned)strtoul(p, &q, 10); p = q; }
        b = a;
        if(p < end && *p == ':'){
            p++;
            if(*p == '*'){ b = max; p++; }else{ b = (unsigned)strtoul(p, &q, 10); p = q; }
        }
        if(a > b){ unsigned t = a; a = b; b = t; }
        if(uid >= a && uid <= b) return true;
        if(p < end && *p == ',') p++;
        else break;
    }
    return false;
}
static void log_effect(ef_type_e t, int c, int b, char sign, unsigned fl, int sess){
    if(neffs == MAXLOG) mc_error("effects full");
    effs[neffs++] = (effect_t){ t, c, b, sign, fl, stepno, sess };
}

static void check_effect(effect_t *f);

// next complete command: its length, or 0
static size_t srv_have_cmd(sess_t *x, bool *need_plus){
    buf_t *o = &x->up.out;
    size_t p = 0;
    *need_plus = false;
    for(;;){
        char *nl = o->n > p ? memchr(o->p + p, '\n', o->n - p) : NULL;
        if(!nl) return 0;
        size_t e = (size_t)(nl - o->p) + 1;
        // literal at the end of the line?
        size_t q = e - 1;
        if(q && o->p[q-1] == '\r') q--;
        if(q && o->p[q-1] == '}'){
            size_t b = q - 1;
            while(b && o->p[b] != '{') b--;
            size_t n = strtoul(o->p + b + 1, NULL, 10);
            bool plus = o->p[q-2] == '+';
            if(o->n < e + n){ *need_plus = !plus; return 0; }
            p = e + n;
            continue;
        }
        return e;
    }
}

static const char *skip(const char *p){ while(*p == ' ') p++; return p; }
static const char *word(const char *p, char *out, size_t cap){
    p = skip(p);
    size_t n = 0;
    bool q = (*p == '"');
    if(q) p++;
    while(*p && *p != '\r' && *p != '\n' && (q ? *p != '"' : *p != ' ')){
        if(n + 1 < cap) out[n++] = *p;
        p++;
    }
    if(q && *p == '"') p++;
    out[n] = 0;
    return p;
}
static int mbox_by_name(const char *n){
    if(!strcasecmp(n, "INBOX")) return 0;
    for(int i = 0; i < nmb; i++) if(mb[i].exists && !strcmp(n, mb[i].name)) return i;
    return -1;
}
// b is a child (or grandchild) of a
static bool inferior(const char *a, const char *b){
    size_t n = strlen(a);
    return !strncmp(a, b, n) && b[n] == '/';
}
static unsigned next_vld = 300;
static int mb_new(const char *name){
    // a mailbox which had that name before, or a new one
    int d = -1;
    for(int i = 0; i < nmb && d < 0; i++) if(!mb[i].exists && !strcmp(mb[i].name, name)) d = i;
    if(d < 0){ if(nmb == NMB) mc_error("too many mailboxes"); d = nmb++; memset(&mb[d], 0, sizeof(mb[d])); }
    snprintf(mb[d].name, sizeof(mb[d].name), "%s", name);
    memset(local[d], 0, sizeof(local[d]));
    mb[d].exists = true; mb[d].n = mb[d].nvan = 0; mb[d].himodseq = 1; mb[d].uidnext = 1;
    mb[d].uidvld = next_vld += 10;
    return d;
}

static void srv_tagged(const char *tag, const char *txt){ b_fmt(&rsp, "%s %s", tag, txt); eol(); }

static void srv_drop(sess_t *x, bool count){
    x->up.broken = true;
    x->upgone = true;
    x->excused = true;
    x->up.in.n = 0;     // undelivered bytes are lost
    x->held.n = 0;
    if(count) nfaults++;
}

// the server's answer to one command is left in rsp
static void srv_exec(sess_t *x, const char *cmd, size_t cmdlen, bool say_no){
    char tag[64], verb[32], arg[256];
    const char *p = word(cmd, tag, sizeof(tag));
    rsp.n = 0; rsp_n = 0;
    if(!strcmp(tag, "DONE")){
        if(!x->uidle) mc_fail("proto-done", "DONE outside IDLE sent to the server");
        x->uidle = false;
        srv_flush(x);
        srv_tagged(x->uidletag, "OK idle done");
        return;
    }
    if(x->uidle) mc_fail("proto-idle", "a command was sent to the server during IDLE: %.60s", cmd);
    p = word(p, verb, sizeof(verb));
    bool uid = false;
    if(!strcasecmp(verb, "UID")){ uid = true; p = word(p, verb, sizeof(verb)); }
    if(!strcasecmp(verb, "ENABLE")){
        b_fmt(&rsp, "* ENABLED CONDSTORE QRESYNC"); eol();
        srv_tagged(tag, "OK enabled");
    }else if(!strcasecmp(verb, "SELECT") || !strcasecmp(verb, "EXAMINE")){
        p = word(p, arg, sizeof(arg));
        if(x->umbox >= 0){ b_fmt(&rsp, "* OK [CLOSED] closed"); eol(); }
        x->umbox = -1; x->nuv = 0;
        int b = mbox_by_name(arg);
        if(b < 0 || !mb[b].exists || say_no){ srv_tagged(tag, "NO no such mailbox"); return; }
        smbox_t *m = &mb[b];
        x->umbox = b; x->uexamine = !strcasecmp(verb, "EXAMINE");
        unsigned qv = 0; unsigned long qm = 0;
        const char *q = strstr(p, "(QRESYNC (");
        if(q && q < cmd + cmdlen) sscanf(q, "(QRESYNC (%u %lu", &qv, &qm);
        b_fmt(&rsp, "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)"); eol();
        b_fmt(&rsp, "* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft \\*)] ok"); eol();
        b_fmt(&rsp, "* %d EXISTS", m->n); eol();
        b_fmt(&rsp, "* 0 RECENT"); eol();
        b_fmt(&rsp, "* OK [UIDVALIDITY %u] ok", m->uidvld); eol();
        b_fmt(&rsp, "* OK [UIDNEXT %u] ok", m->uidnext); eol();
        b_fmt(&rsp, "* OK [HIGHESTMODSEQ %lu] ok", m->himodseq); eol();
        for(int i = 0; i < m->n; i++)
            x->uv[x->nuv++] = (sview_t){ m->m[i].uid, m->m[i].modseq, m->m[i].content };
        if(qv == m->uidvld){
            const char *sep = "* VANISHED (EARLIER) ";
            for(int i = 0; i < m->nvan; i++){
                if(m->van[i].modseq <= qm) continue;
                b_fmt(&rsp, "%s%u", sep, m->van[i].uid); sep = ",";
            }
            if(*sep == ',') eol();
            for(int i = 0; i < x->nuv; i++) if(x->uv[i].modseq > qm) srv_fetch_line(x, i);
        }
        srv_tagged(tag, x->uexamine ? "OK [READ-ONLY] examined" : "OK [READ-WRITE] selected");
    }else if(!strcasecmp(verb, "UNSELECT") || !strcasecmp(verb, "CLOSE")){
        if(x->umbox < 0){ srv_tagged(tag, "BAD not selected"); return; }
        if(!strcasecmp(verb, "CLOSE") && !x->uexamine) mc_fail("proto-close", "CLOSE sent to the server");
        x->umbox = -1; x->nuv = 0;
        srv_tagged(tag, "OK unselected");
    }else if(!strcasecmp(verb, "NOOP") || !strcasecmp(verb, "CHECK")){
        srv_flush(x);
        srv_tagged(tag, "OK noop");
    }else if(!strcasecmp(verb, "IDLE")){
        if(x->umbox < 0){ srv_tagged(tag, "BAD not selected"); return; }
        x->uidle = true;
        snprintf(x->uidletag, sizeof(x->uidletag), "%s", tag);
        b_fmt(&rsp, "+ idling"); eol();
        srv_flush(x);
    }else if(!strcasecmp(verb, "FETCH")){
        if(!uid) mc_fail("proto-seq", "FETCH by sequence number sent to the server");
        if(x->umbox < 0){ srv_tagged(tag, "BAD not selected"); return; }
        smbox_t *m = &mb[x->umbox];
        p = word(p, arg, sizeof(arg));
        unsigned max = x->nuv ? x->uv[x->nuv-1].uid : 0;
        bool body = memmem(p, (size_t)(cmd + cmdlen - p), "BODY.PEEK[]", 11);
        if(!body && memmem(p, (size_t)(cmd + cmdlen - p), "BODY[", 5))
            mc_fail("upstream-seen", "a non-peek FETCH was sent to the server");
        bool intd = memmem(p, (size_t)(cmd + cmdlen - p), "INTERNALDATE", 12);
        unsigned long since = 0; bool van = false;
        char *cs = memmem(p, (size_t)(cmd + cmdlen - p), "(CHANGEDSINCE ", 14);
        if(cs){ since = strtoul(cs + 14, NULL, 10); van = memmem(cs, (size_t)(cmd + cmdlen - cs), "VANISHED", 8); }
        if(van){
            const char *sep = "* VANISHED (EARLIER) ";
            for(int i = 0; i < m->nvan; i++){
                if(m->van[i].modseq <= since) continue;
                if(!in_set(arg, strlen(arg), m->van[i].uid, max)) continue;
                b_fmt(&rsp, "%s%u", sep, m->van[i].uid); sep = ",";
                int k = uv_find(x, m->van[i].uid);
                if(k >= 0) uv_del(x, k);
            }
            if(*sep == ',') eol();
        }
        for(int i = 0; i < x->nuv; i++){
            if(!in_set(arg, strlen(arg), x->uv[i].uid, max)) continue;
            int k = mb_find(x->umbox, x->uv[i].uid);
            if(k < 0) continue;
            if(cs && m->m[k].modseq <= since) continue;
            if(!body){ srv_fetch_line(x, i); continue; }
            content_t *c = &conts[m->m[k].content];
            b_fmt(&rsp, "* %d FETCH (UID %u FLAGS ", i + 1, m->m[k].uid);
            fl_fmt(&rsp, m->m[k].fl);
            b_fmt(&rsp, " MODSEQ (%lu)", m->m[k].modseq);
            x->uv[i].modseq = m->m[k].modseq;
            if(intd) b_fmt(&rsp, " INTERNALDATE \"%s\"", conts[m->m[k].content].date);
            b_fmt(&rsp, " BODY[] {%zu}\r\n", c->body.n);
            b_add(&rsp, c->body.p, c->body.n);
            b_fmt(&rsp, ")");
            eol();
            if(x->umbox == 0){
                int same = 0;   // a copy of it is another message
                for(int q = 0; q < m->n; q++) same += m->m[q].content == m->m[k].content;
                if(dlseen[m->m[k].content] && !nresets && same == 1)
                    mc_fail("redownload", "message m%d was downloaded again", m->m[k].content);
                dlcount[m->m[k].content]++;
            }
        }
        srv_flush(x);
        srv_tagged(tag, "OK fetched");
    }else if(!strcasecmp(verb, "STORE")){
        if(!uid) mc_fail("proto-seq", "STORE by sequence number sent to the server");
        if(x->umbox < 0){ srv_tagged(tag, "BAD not selected"); return; }
        if(x->uexamine){
            mc_fail("store-in-examine", "STORE sent in a read-only upstream session");
        }
        if(say_no){ srv_flush(x); srv_tagged(tag, "NO store refused"); return; }
        smbox_t *m = &mb[x->umbox];
        p = skip(word(p, arg, sizeof(arg)));
        if(*p == '(') mc_error("STORE modifiers not modelled");
        char sign = *p == '+' || *p == '-' ? *p++ : '=';
        bool silent = memmem(p, 16, ".SILENT", 7);
        unsigned fl = fl_parse(p, cmd + cmdlen);
        unsigned max = x->nuv ? x->uv[x->nuv-1].uid : 0;
        for(int i = 0; i < x->nuv; i++){
            if(!in_set(arg, strlen(arg), x->uv[i].uid, max)) continue;
            int k = mb_find(x->umbox, x->uv[i].uid);
            if(k < 0) continue;
            smsg_t *g = &m->m[k];
            unsigned nf = sign == '+' ? g->fl | fl : sign == '-' ? g->fl & ~fl : fl;
            if(nf != g->fl){ g->fl = nf; g->modseq = ++m->himodseq; }
            log_effect(EF_STORE, g->content, x->umbox, sign, fl, x->id);
            check_effect(&effs[neffs-1]);
            if(!silent) srv_fetch_line(x, i);
            else {
                b_fmt(&rsp, "* %d FETCH (UID %u MODSEQ (%lu))", i + 1, g->uid, g->modseq); eol();
                x->uv[i].modseq = g->modseq;
            }
        }
        srv_flush(x);
        srv_tagged(tag, "OK stored");
    }else if(!strcasecmp(verb, "EXPUNGE")){
        if(!uid) mc_fail("proto-expunge", "plain EXPUNGE sent to the server");
        if(x->umbox < 0){ srv_tagged(tag, "BAD not selected"); return; }
        if(x->uexamine) mc_fail("expunge-in-examine", "UID EXPUNGE sent in a read-only upstream session");
        if(say_no){ srv_flush(x); srv_tagged(tag, "NO expunge refused"); return; }
        p = word(p, arg, sizeof(arg));
        unsigned max = x->nuv ? x->uv[x->nuv-1].uid : 0;
        for(int i = 0; i < x->nuv; i++){
            if(!in_set(arg, strlen(arg), x->uv[i].uid, max)) continue;
            int k = mb_find(x->umbox, x->uv[i].uid);
            if(k < 0 || !(mb[x->umbox].m[k].fl & F_DEL)) continue;
            log_effect(EF_EXPUNGE, mb[x->umbox].m[k].content, x->umbox, 0, 0, x->id);
            check_effect(&effs[neffs-1]);
            mb_del(x->umbox, k);
        }
        srv_flush(x);
        char t[64]; snprintf(t, sizeof(t), "OK [HIGHESTMODSEQ %lu] expunged", mb[x->umbox].himodseq);
        srv_tagged(tag, t);
    }else if(!strcasecmp(verb, "COPY")){
        if(!uid) mc_fail("proto-seq", "COPY by sequence number sent to the server");
        if(x->umbox < 0){ srv_tagged(tag, "BAD not selected"); return; }
        char dst[64];
        p = word(p, arg, sizeof(arg));
        p = word(p, dst, sizeof(dst));
        int d = mbox_by_name(dst);
        for(int i = 0; i < nints; i++) if(ints[i].type == IN_COPY && ints[i].dname && !ints[i].answer && !strcmp(ints[i].dname, dst)) ints[i].dst = d;
        if(say_no || d < 0 || !mb[d].exists){ srv_flush(x); srv_tagged(tag, "NO copy refused"); return; }
        unsigned max = x->nuv ? x->uv[x->nuv-1].uid : 0;
        buf_t s1 = {0}, s2 = {0};
        int nold = mb[x->umbox].n; (void)nold;
        for(int i = 0; i < x->nuv; i++){
            if(!in_set(arg, strlen(arg), x->uv[i].uid, max)) continue;
            int k = mb_find(x->umbox, x->uv[i].uid);
            if(k < 0) continue;
            smsg_t g = mb[x->umbox].m[k];
            b_fmt(&s1, "%s%u", s1.n ? "," : "", g.uid);
            b_fmt(&s2, "%s%u", s2.n ? "," : "", mb[d].uidnext);
            mb_add(d, g.content, g.fl);
            log_effect(EF_COPY, g.content, d, 0, 0, x->id);
            check_effect(&effs[neffs-1]);
        }
        srv_flush(x);
        if(s1.n){
            b_fmt(&rsp, "%s OK [COPYUID %u %s %s] copied", tag, mb[d].uidvld, s1.p, s2.p); eol();
        }else srv_tagged(tag, "OK nothing to copy");
        b_free(&s1); b_free(&s2);
    }else if(!strcasecmp(verb, "APPEND")){
        p = word(p, arg, sizeof(arg));
        int d = mbox_by_name(arg);
        const char *lit = memchr(p, '{', (size_t)(cmd + cmdlen - p));
        if(!lit) mc_error("APPEND without literal");
        unsigned fl = 0;
        if(*skip(p) == '('){ const char *q = memchr(p, ')', (size_t)(lit - p)); fl = fl_parse(p, q); }
        size_t n = strtoul(lit + 1, NULL, 10);
        const char *body = (const char*)memchr(lit, '\n', (size_t)(cmd + cmdlen - lit)) + 1;
        // whose append is this?
        intent_t *in = NULL;
        for(int i = nints - 1; i >= 0; i--) if(ints[i].type == IN_APPEND && ints[i].sess == x->id && !ints[i].answer){ in = &ints[i]; break; }
        if(!in) mc_fail("append-unasked", "APPEND sent to the server, which no client asked for");
        if(in->dname && !strcmp(in->dname, arg)) in->dst = d;
        if(d != in->dst) mc_fail("append-mbox", "APPEND sent to the wrong mailbox %s", arg);
        if(in->fl != fl) mc_fail("append-flags", "APPEND with other flags than asked for");
        if(say_no || d < 0 || !mb[d].exists){ srv_flush(x); srv_tagged(tag, "NO append refused"); return; }
        content_t *c = &conts[in->cont[0]];
        c->body.n = 0; b_add(&c->body, body, n);
        MC_CHECK(n >= 36 && !memcmp(body, "-----BEGIN SPLINTERMAIL MESSAGE-----", 36), "append-plain", "APPEND sent in the clear");
        unsigned u = mb[d].uidnext;
        mb_add(d, in->cont[0], fl);
        log_effect(EF_APPEND, in->cont[0], d, 0, fl, x->id);
        srv_flush(x);
        b_fmt(&rsp, "%s OK [APPENDUID %u %u] appended", tag, mb[d].uidvld, u); eol();
    }else if(!strcasecmp(verb, "STATUS")){
        p = word(p, arg, sizeof(arg));
        int d = mbox_by_name(arg);
        if(d < 0 || !mb[d].exists){ srv_tagged(tag, "NO no such mailbox"); return; }
        int unseen = 0;
        for(int i = 0; i < mb[d].n; i++) unseen += !(mb[d].m[i].fl & F_SEEN);
        b_fmt(&rsp, "* STATUS \"%s\" (MESSAGES %d RECENT 0 UIDNEXT %u UIDVALIDITY %u UNSEEN %d)",
            mb[d].name, mb[d].n, mb[d].uidnext, mb[d].uidvld, unseen); eol();
        srv_flush(x);
        srv_tagged(tag, "OK status");
    }else if(!strcasecmp(verb, "LIST")){
        for(int i = 0; i < nmb; i++) if(mb[i].exists){ b_fmt(&rsp, "* LIST () \"/\" \"%s\"", mb[i].name); eol(); }
        srv_flush(x);
        srv_tagged(tag, "OK list");
    }else if(!strcasecmp(verb, "DELETE") || !strcasecmp(verb, "CREATE")){
        bool del = !strcasecmp(verb, "DELETE");
        p = word(p, arg, sizeof(arg));
        int d = mbox_by_name(arg);
        if(del && x->umbox >= 0 && x->umbox == d) mc_fail("delete-selected", "a client could DELETE the mailbox it has selected");
        if(say_no || d == 0 || (d > 0) != del){ srv_flush(x); srv_tagged(tag, "NO cannot"); return; }
        if(del){
            mb[d].exists = false; mb[d].n = mb[d].nvan = 0;
            if(good_name(arg)) add_gone(arg);
            for(int i = 0; i < nsess; i++) if(&ss[i] != x && ss[i].umbox == d) srv_drop(&ss[i], false);
        }else mb_new(arg);
        srv_flush(x);
        srv_tagged(tag, "OK done");
    }else if(!strcasecmp(verb, "RENAME")){
        char to[300];
        p = word(p, arg, sizeof(arg));
        p = word(p, to, sizeof(to));
        int d = mbox_by_name(arg);
        if(x->umbox >= 0 && d >= 0 && (x->umbox == d || (d && inferior(arg, mb[x->umbox].name)))) mc_fail("rename-selected", "a client could RENAME the mailbox it has selected");
        bool bad = say_no || d < 0 || mbox_by_name(to) >= 0 || inferior(arg, to);
        for(int i = 0; i < nmb && !bad; i++) if(mb[i].exists && d && inferior(arg, mb[i].name)){
            char t[700]; snprintf(t, sizeof(t), "%s%s", to, mb[i].name + strlen(arg));
            bad |= mbox_by_name(t) >= 0;
        }
        if(bad){ srv_flush(x); srv_tagged(tag, "NO cannot rename"); return; }
        if(!d){
            // INBOX: its messages move, the mailbox stays
            int k = mb_new(to);
            for(int i = 0; i < mb[0].n; i++) mb_add(k, mb[0].m[i].content, mb[0].m[i].fl);
            while(mb[0].n) mb_del(0, 0);
        }else{
            for(int i = 0; i < nmb; i++) if(i != d && mb[i].exists && inferior(arg, mb[i].name)){
                char t[700]; snprintf(t, sizeof(t), "%s%s", to, mb[i].name + strlen(arg));
                add_gone(mb[i].name);
                memset(local[i], 0, sizeof(local[i]));
                snprintf(mb[i].name, sizeof(mb[i].name), "%.299s", t);
            }
            if(good_name(arg)) add_gone(arg);
            memset(local[d], 0, sizeof(local[d]));
            snprintf(mb[d].name, sizeof(mb[d].name), "%s", to);
        }
        srv_flush(x);
        srv_tagged(tag, "OK renamed");
    }else if(!strcasecmp(verb, "SUBSCRIBE") || !strcasecmp(verb, "UNSUBSCRIBE")){
        srv_flush(x);
        srv_tagged(tag, "OK subscribed");
    }else{
        mc_fail("proto-unknown", "unexpected command to the server: %.80s", cmd);
    }
}

// push server changes to connections in IDLE
static void srv_idle_push(void){
    for(int i = 0; i < nsess; i++){
        sess_t *x = &ss[i];
        if(!x->used || x->upgone || !x->uidle || x->held.n) continue;
        rsp.n = 0; rsp_n = 0;
        srv_flush(x);
        if(rsp.n){ tdata("  S", x->id, rsp.p, rsp.n); b_add(&x->up.in, rsp.p, rsp.n); }
    }
}

// ------------------------------------------------------------- client model
static bool content_in(const int *a, int n, int c){
    for(int i = 0; i < n; i++) if(a[i] == c) return true;
    return false;
}
static void check_effect(effect_t *f){
    if(f->type == EF_COPY){
        int want = 0, got = 0;
        for(int i = 0; i < nints; i++)
            if(ints[i].type == IN_COPY && ints[i].dst == f->mbox && content_in(ints[i].cont, ints[i].ncont, f->content)) want++;
        for(int i = 0; i < neffs; i++)
            if(effs[i].type == EF_COPY && effs[i].mbox == f->mbox && effs[i].content == f->content) got++;
        if(!want) mc_fail("copy-other", "message m%d was copied upstream but no client asked for that", f->content);
        if(got > want) mc_soft(nfaults ? "copy-twice-after-break" : "copy-twice", "message m%d was copied %d times for %d COPY commands", f->content, got, want);
        return;
    }
    for(int i = 0; i < nints; i++){
        intent_t *in = &ints[i];
        if(in->mbox != f->mbox || !content_in(in->cont, in->ncont, f->content)) continue;
        if(f->type == EF_STORE){
            if(in->type == IN_STORE && in->sign == f->sign && in->fl == f->fl) return;
            if(in->type == IN_SEEN && f->sign == '+' && f->fl == F_SEEN) return;
            if(in->type == IN_EXPUNGE && f->sign == '+' && f->fl == F_DEL) return;
        }
        if(f->type == EF_EXPUNGE && in->type == IN_EXPUNGE) return;
    }
    if(f->type == EF_STORE)
        mc_fail("store-other", "message m%d got STORE %cFLAGS %x upstream, but no client asked for that", f->content, f->sign, f->fl);
    mc_fail("expunge-other", "message m%d was expunged upstream, but no client asked for that", f->content);
}
static int add_intent(sess_t *x, in_type_e t){
    if(nints == MAXLOG) mc_error("intents full");
    ints[nints] = (intent_t){ .type = t, .mbox = x->mbox, .step = stepno, .sess = x->id };
    return nints++;
}

static int max_learned(int b, unsigned vld){
    unsigned m = 0;
    for(int i = 0; i < nlearned; i++) if(learned[i].mbox == b && learned[i].uidvld == vld && learned[i].uid > m) m = learned[i].uid;
    return (int)m;
}
static int lookup_uid(int b, unsigned vld, unsigned uid){
    for(int i = 0; i < nlearned; i++) if(learned[i].mbox == b && learned[i].uidvld == vld && learned[i].uid == uid) return learned[i].content;
    return -1;
}
static void learn(sess_t *x, cview_t *v){
    int b = x->mbox >= 0 ? x->mbox : x->selmbox;
    if(!v->uid || v->content < 0 || b < 0) return;
    for(int i = 0; i < nlearned; i++){
        learned_t *l = &learned[i];
        if(l->mbox != b || l->uidvld != x->uidvld) continue;
        if(l->uid == v->uid && l->content != v->content)
            mc_fail("uid-reused", "UID %u (UIDVALIDITY %u) denoted message m%d and now denotes m%d", v->uid, x->uidvld, l->content, v->content);
        if(l->content == v->content && l->uid != v->uid && b == 0 && !nresets && !*mc_opts("tree", ""))
            mc_fail("uid-changed", "message m%d had UID %u and now has UID %u", v->content, l->uid, v->uid);
        if(l->uid == v->uid) return;
    }
    int max = max_learned(b, x->uidvld);
    if((int)v->uid <= max)
        mc_fail("uid-order", "new message m%d got UID %u, not above the earlier %d", v->content, v->uid, max);
    for(int i = 0; i < nfloors; i++)
        if(floors[i].mbox == b && floors[i].uidvld == x->uidvld && v->uid < floors[i].floor)
            mc_fail("uid-below-uidnext", "new message m%d got UID %u after UIDNEXT %u was announced", v->content, v->uid, floors[i].floor);
    if(nlearned == 512) mc_error("learned full");
    learned[nlearned++] = (learned_t){ b, x->uidvld, v->uid, v->content };
}

// one complete response of the client connection, or 0
static size_t cl_have(buf_t *o){
    size_t p = 0;
    for(;;){
        char *nl = o->n > p ? memchr(o->p + p, '\n', o->n - p) : NULL;
        if(!nl) return 0;
        size_t e = (size_t)(nl - o->p) + 1, q = e - 1;
        if(q && o->p[q-1] == '\r') q--;
        if(q && o->p[q-1] == '}'){
            size_t b = q - 1;
            while(b && o->p[b] != '{') b--;
            p = e + strtoul(o->p + b + 1, NULL, 10);
            if(o->n <= p) return 0;
            continue;
        }
        return e;
    }
}
static void (*fetch_hook)(sess_t *x, unsigned n, const char *p, const char *end);
static void cl_fetch(sess_t *x, unsigned n, const char *p, const char *end){
    if(fetch_hook){ fetch_hook(x, n, p, end); return; }
    MC_CHECK(n >= 1 && n <= (unsigned)x->nv, "fetch-seq",
        "client %d was sent FETCH %u but has %d messages", x->id, n, x->nv);
    cview_t *v = &x->v[n-1];
    if(x->op == OP_FETCH && !v->fetched){ v->fetched = true; x->fetchcount++; }
    // flat parse of attributes
    p++;
    while(p < end){
        p = skip(p);
        if(!strncmp(p, "UID ", 4)){
            unsigned uid = (unsigned)strtoul(p + 4, (char**)&p, 10);
            MC_CHECK(!v->uid || v->uid == uid, "seq-mismatch",
                "client %d sees UID %u as message %u, the proxy uses that number for UID %u", x->id, v->uid, n, uid);
            v->uid = uid;
            int i = (int)n - 1;
            MC_CHECK(i == 0 || !x->v[i-1].uid || x->v[i-1].uid < uid, "uid-not-ascending",
                "client %d: message %u has UID %u, the one before %u", x->id, n, uid, x->v[i-1].uid);
            MC_CHECK(i + 1 >= x->nv || !x->v[i+1].uid || x->v[i+1].uid > uid, "uid-not-ascending",
                "client %d: message %u has UID %u, the next one %u", x->id, n, uid, x->v[i+1].uid);
        }else if(!strncmp(p, "FLAGS (", 7)){
            const char *q = memchr(p, ')', (size_t)(end - p));
            v->fl = fl_parse(p + 7, q); v->flknown = true;
            p = q + 1;
        }else if(!strncmp(p, "BODY[", 5)){
            const char *q = memchr(p, '{', (size_t)(end - p));
            const char *q2 = memchr(p, '"', (size_t)(end - p));
            size_t len; const char *b;
            if(q && (!q2 || q < q2)){
                len = strtoul(q + 1, NULL, 10);
                b = (const char*)memchr(q, '\n', (size_t)(end - q)) + 1;
                p = b + len;
            }else{
                b = q2 + 1;
                const char *z = memchr(b, '"', (size_t)(end - b));
                len = (size_t)(z - b); p = z + 1;
            }
            int c = content_by_plain(b, len);
            MC_CHECK(c >= 0 && !conts[c].not4me, "content-wrong",
                "client %d was given a message body which no message has: %.*s", x->id, (int)MIN(len, 60), b);
            MC_CHECK(v->content < 0 || v->content == c, "content-moved",
                "client %d sees m%d as message %u, now the proxy delivers m%d for it", x->id, v->content, n, c);
            v->content = c; v->gotbody = true;
            int lb = x->mbox >= 0 ? x->mbox : x->selmbox;
            if(lb == 0) dlseen[c] = true;
            if(lb >= 0) local[lb][c] = true;
        }else if(!strncmp(p, "RFC822.SIZE ", 12)){
            unsigned sz = (unsigned)strtoul(p + 12, (char**)&p, 10);
            if(v->content >= 0) MC_CHECK(sz == conts[v->content].plain.n, "size-wrong", "RFC822.SIZE %u of m%d", sz, v->content);
        }else if(!strncmp(p, "INTERNALDATE ", 13)){
            const char *q = strchr(p + 14, '"');
            snprintf(v->date, sizeof(v->date), "%.*s", (int)(q - p - 14), p + 14);
            p = q + 1;
        }else if(*p == ')'){
            break;
        }else{
            mc_error("client cannot parse FETCH: %.80s", p);
        }
    }
    if(v->content >= 0 && v->date[0] && conts[v->content].body.n && *conts[v->content].body.p != '-'){
        const char *want = conts[v->content].date;
        MC_CHECK(!strcmp(v->date, want), "date-wrong", "client %d is told that m%d is of %s, it is of %s", x->id, v->content, v->date, want);
    }
    if(v->uid && v->content < 0){
        int c = lookup_uid(x->mbox >= 0 ? x->mbox : x->selmbox, x->uidvld, v->uid);
        if(c >= 0 && x->mbox >= 0) v->content = c;
    }
    learn(x, v);
}
static void cl_answer(sess_t *x);

static void cl_resp(sess_t *x, const char *r, size_t len){
    const char *end = r + len;
    if(*r == '+'){
        if(x->op == OP_IDLE){ x->idling = true; return; }
        if(x->op == OP_APPEND){
            content_t *c = &conts[ints[x->intent].cont[0]];
            b_add(&x->dn.in, c->plain.p, c->plain.n);
            b_add(&x->dn.in, "\r\n", 2);
            return;
        }
        if(x->op == OP_SEARCH) return;  // the literal is on its way
        mc_fail("client-plus", "client %d got an unexpected continuation request", x->id);
    }
    if(*r == '*'){
        const char *p = skip(r + 1);
        if(isdigit((unsigned char)*p)){
            char *q;
            unsigned n = (unsigned)strtoul(p, &q, 10);
            p = skip(q);
            bool active = x->op != OP_NONE;
            if(!strncmp(p, "EXISTS", 6)){
                MC_CHECK(active, "unsolicited", "client %d got an untagged EXISTS outside any command", x->id);
                x->sawexists = true;
                MC_CHECK((int)n >= x->nv, "exists-shrinks", "client %d got EXISTS %u but knows %d messages", x->id, n, x->nv);
                MC_CHECK(n < MAXVIEW, "exists-huge", "client %d got EXISTS %u", x->id, n);
                while(x->nv < (int)n) x->v[x->nv++] = (cview_t){ .content = -1 };
            }else if(!strncmp(p, "RECENT", 6)){
            }else if(!strncmp(p, "EXPUNGE", 7)){
                MC_CHECK(active, "unsolicited", "client %d got an untagged EXPUNGE outside any command", x->id);
                MC_CHECK(n >= 1 && (int)n <= x->nv, "expunge-seq",
                    "client %d got EXPUNGE %u but knows %d messages", x->id, n, x->nv);
                MC_CHECK(x->uidmode || (x->op != OP_FETCH && x->op != OP_STORE && x->op != OP_SEARCH),
                    "expunge-forbidden", "client %d got EXPUNGE during FETCH, STORE or SEARCH", x->id);
                memmove(&x->v[n-1], &x->v[n], sizeof(x->v[0]) * (size_t)(x->nv - (int)n));
                x->nv--;
            }else if(!strncmp(p, "FETCH ", 6)){
                cl_fetch(x, n, p + 6, end);
            }else mc_error("client cannot parse: %.60s", r);
            return;
        }
        if(!strncmp(p, "OK", 2)){
            if(!x->greeted){ x->greeted = true; return; }
            const char *c = strstr(p, "[UIDVALIDITY ");
            if(c) x->uidvld = (unsigned)strtoul(c + 13, NULL, 10);
            c = strstr(p, "[UIDNEXT ");
            if(c) x->uidnext = (unsigned)strtoul(c + 9, NULL, 10);
            return;
        }
        if(!strncmp(p, "BYE", 3)){ x->bye = true; return; }
        if(!strncmp(p, "SEARCH", 6)){
            p += 6; x->nsearch = 0; x->gotsearch = true;
            while(p < end && *p == ' '){ MC_CHECK(x->nsearch < MAXVIEW, "search-many", "client %d: SEARCH found more messages than there are", x->id); x->searchres[x->nsearch++] = (unsigned)strtoul(p, (char**)&p, 10); }
            return;
        }
        if(!strncmp(p, "STATUS", 6)){
            const char *q;
            x->gotstatus = true;
            if((q = strstr(p, "MESSAGES "))) x->st_messages = (unsigned)strtoul(q + 9, NULL, 10);
            if((q = strstr(p, "UNSEEN "))) x->st_unseen = (unsigned)strtoul(q + 7, NULL, 10);
            if((q = strstr(p, "UIDNEXT "))) x->st_uidnext = (unsigned)strtoul(q + 8, NULL, 10);
            if((q = strstr(p, "UIDVALIDITY "))) x->st_uidvld = (unsigned)strtoul(q + 12, NULL, 10);
            return;
        }
        if(!strncmp(p, "FLAGS", 5) || !strncmp(p, "LIST", 4) || !strncmp(p, "CAPABILITY", 10)) return;
        mc_fail("client-unknown", "client %d got an unexpected response: %.60s", x->id, r);
    }
    // tagged
    size_t tl = strlen(x->tag);
    if(x->op == OP_NONE || strncmp(r, x->tag, tl) || r[tl] != ' ')
        mc_fail("client-tag", "client %d got a completion for no command of its own: %.60s", x->id, r);
    r += tl + 1;
    x->status = !strncmp(r, "OK", 2) ? 1 : !strncmp(r, "NO", 2) ? 2 : !strncmp(r, "BAD", 3) ? 3 : 0;
    MC_CHECK(x->status, "client-status", "client %d: bad completion: %.60s", x->id, r);
    snprintf(x->stline, sizeof(x->stline), "%.*s", (int)MIN(len, 200), r);
    cl_answer(x);
}
static void cl_answer(sess_t *x){
    intent_t *in = x->intent >= 0 ? &ints[x->intent] : NULL;
    if(in) in->answer = x->status == 1 ? 1 : 2;
    switch(x->op){
        case OP_SELECT: case OP_EXAMINE:
            if(x->status == 1 && x->selname){
                x->selmbox = mbox_by_name(x->selname);
                if(x->selmbox < 0 && !x->mayend) mc_fail("select-nothing", "SELECT of the nonexistent mailbox %s was answered OK", x->selname);
            }
            if(x->status == 1){ x->mbox = x->selmbox; x->examine = x->selexamine; }
            else { x->nv = 0; x->mbox = -1; }
            break;
        case OP_CLOSE:
            if(x->status == 1){ x->mbox = -1; x->nv = 0; }
            break;
        case OP_IDLE: x->idling = false; break;
        case OP_LOGOUT: x->excused = true; break;
        default: break;
    }
    if(in && x->status == 1){
        for(int i = 0; i < in->ncont; i++){
            int c = in->cont[i];
            bool eff = false;
            for(int k = 0; k < neffs; k++){
                effect_t *f = &effs[k];
                if(f->content != c || f->step < in->step) continue;
                if(in->type == IN_STORE && f->type == EF_STORE && f->sign == in->sign && f->fl == in->fl) eff = true;
                if(in->type == IN_COPY && f->type == EF_COPY && f->mbox == in->dst) eff = true;
                if(in->type == IN_APPEND && f->type == EF_APPEND && f->mbox == in->dst) eff = true;
            }
            if(in->type == IN_APPEND){
                MC_CHECK(eff, "append-ok", "APPEND of m%d was answered OK but not done", c);
                continue;
            }
            int k = mb_find_content(in->mbox, c);
            if(k < 0) continue; // gone meanwhile
            unsigned sfl = mb[in->mbox].m[k].fl;
            if(in->type == IN_STORE){
                bool already = in->sign == '+' ? (sfl & in->fl) == in->fl : in->sign == '-' ? !(sfl & in->fl) : sfl == in->fl;
                MC_CHECK(eff || already, "store-ok", "STORE on m%d was answered OK but did not happen", c);
                MC_CHECK(!x->examine, "store-ok-examine", "STORE was answered OK in a read-only mailbox");
            }
            if(in->type == IN_COPY) MC_CHECK(eff, "copy-ok", "COPY of m%d was answered OK but did not happen", c);
        }
    }
    x->op = OP_NONE;
    x->intent = -1;
}
static void cl_pump(sess_t *x){
    size_t n;
    while((n = cl_have(&x->dn.out))){
        if(mc_verbose()) tdata("    c", x->id, x->dn.out.p, n);
        buf_t one = {0};
        b_add(&one, x->dn.out.p, n);
        b_drop(&x->dn.out, n);
        cl_resp(x, one.p, one.n);
        b_free(&one);
    }
}

// ----------------------------------------------------------------- sessions
static const keypair_t *kd_mykey(keydir_i *k){ (void)k; return kp; }
static link_t *kd_keys(keydir_i *k){ (void)k; return &keylist; }
static dirmgr_t *kd_dirmgr(keydir_i *k){ (void)k; return &dm; }
static derr_t kd_synced(keydir_i *k, const dstr_t m){ (void)k; (void)m; derr_t e = E_OK; return e; }
static keydir_i kd = { .mykey = kd_mykey, .peers = kd_keys, .all_keys = kd_keys, .dirmgr = kd_dirmgr, .mailbox_synced = kd_synced };

static void conn_free(citm_conn_t *c){ (void)c; }
static void on_sc_done(sc_t *sc, void *data){
    (void)sc;
    sess_t *x = data;
    x->sc_done = true;
    x->ended_step = stepno;
}
static bool do_open_dir(void){
    dstr_t d; DSTR_WRAP(d, dirpath, strlen(dirpath), true);
    static dstr_t ds; ds = d;
    string_builder_t path = SBD(ds);
    hooks = (imaildir_hooks_i){ .process_msg = hk_process };
    derr_t e = dirmgr_init(&dm, path, &hooks);
    if(is_error(e)){ DUMP(e); DROP_VAR(&e); return false; }
    dm_open = true;
    return true;
}
static void connect_sess(void){
    if(nsess == MAXSESS) mc_error("too many sessions");
    if(!dm_open && !do_open_dir()) mc_fail("open-dir", "the mail directory cannot be opened");
    sess_t *x = &ss[nsess];
    memset(x, 0, sizeof(*x));
    x->id = nsess++;
    x->used = true; x->mbox = -1; x->umbox = -1; x->intent = -1;
    ms_init(&x->dn); ms_init(&x->up);
    x->dnconn = (citm_conn_t){ .stream = &x->dn.iface, .security = IMAP_SEC_INSECURE, .free = conn_free };
    x->upconn = (citm_conn_t){ .stream = &x->up.iface, .security = IMAP_SEC_INSECURE, .free = conn_free };
    derr_t e = imap_server_new(&x->s, sched, &x->dnconn);
    if(is_error(e)) mc_error("imap_server_new");
    e = imap_client_new(&x->c, sched, &x->upconn);
    if(is_error(e)) mc_error("imap_client_new");
    e = sc_malloc(&x->sc);
    if(is_error(e)) mc_error("sc_malloc");
    b_fmt(&x->up.in, "* OK hello\r\n");
    sc_start(x->sc, sched, &kd, x->s, x->c, on_sc_done, x);
    T("== session %d connects", x->id);
}
// the session's code under test has finished: release it
static void reap(sess_t *x){
    if(!x->used || !x->sc_done) return;
    sc_free(x->sc);
    x->sc = NULL; x->s = NULL; x->c = NULL;
    x->used = false;
    if(x->intent >= 0 && !ints[x->intent].answer) ints[x->intent].answer = 3;
    T("== session %d ended", x->id);
    if(x->mayend && x->op != OP_NONE) nfaults++;    // its command is lost
    if(!x->excused && !x->mayend && x->op != OP_LOGOUT && !x->bye)
        mc_fail("session-broke", "session %d was closed although neither side's connection failed", x->id);
    if(!x->excused && !x->mayend && x->op != OP_LOGOUT)
        mc_fail("session-bye", "session %d was ended by the proxy although nothing failed", x->id);
    x->umbox = -1; x->upgone = true;
    ms_free(&x->dn); ms_free(&x->up); b_free(&x->held);
    x->dn = x->up = (ms_t){0};
}
static bool live(sess_t *x){ return x->used && !x->upgone && !x->dn.broken && !x->excused; }
static bool idle_client(sess_t *x){ return live(x) && x->greeted && x->op == OP_NONE; }

static bool settle_code(void){
    bool any = false, prog;
    int n = 0;
    do {
        prog = false;
        manual_scheduler_run(&msched);
        for(int i = 0; i < nsess; i++){
            if(!ss[i].used) continue;
            while(ms_pump(&ss[i].dn)){ prog = true; manual_scheduler_run(&msched); }
            while(ms_pump(&ss[i].up)){ prog = true; manual_scheduler_run(&msched); }
            cl_pump(&ss[i]);
            if(ss[i].dn.in.n && ss[i].dn.reads.next && ss[i].dn.reads.next != &ss[i].dn.reads) prog = true;
        }
        any |= prog;
        if(++n > 20000) mc_fail("livelock", "the proxy never comes to rest");
    } while(prog);
    for(int i = 0; i < nsess; i++) reap(&ss[i]);
    return any;
}

__attribute__((format(printf, 3, 4)))
static void cl_send(sess_t *x, cop_e op, const char *fmt, ...){
    char line[512];
    va_list ap; va_start(ap, fmt); vsnprintf(line, sizeof(line), fmt, ap); va_end(ap);
    stepno++;
    x->op = op; x->status = 0; x->fetchcount = 0; x->sawexists = false;
    x->gotsearch = false; x->gotstatus = false;
    for(int i = 0; i < x->nv; i++) x->v[i].fetched = false;
    snprintf(x->tag, sizeof(x->tag), "a%d", ++x->ncmd);
    x->selname = NULL;
    if(op == OP_SELECT || op == OP_EXAMINE){ x->oldmb = x->mbox; x->nv = 0; x->mbox = -1; x->uidvld = x->uidnext = 0; }
    if(mc_verbose() || 1) T("    C%d %s %s", x->id, x->tag, line);
    b_fmt(&x->dn.in, "%s %s\r\n", x->tag, line);
}

#endif
