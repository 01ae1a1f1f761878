#define A_MAIL_LIB
#pragma GCC diagnostic ignored "-Wformat-overflow"
#pragma GCC diagnostic ignored "-Wformat-truncation"
#pragma GCC diagnostic ignored "-Wunused-function"
// D03: FETCH takes a message apart.  Messages are generated together with
// the list of what their parts are; a client asks for every part, with every
// suffix, and for the structure; each answer must be the exact bytes.
#include "harness/a_mail.c"
#include "harness/d03_ref.h"
#include <ftw.h>
#include <fcntl.h>
#include <sys/syscall.h>

static sess_t *X;
#define PERBOX 50

// ------------------------------------------------------------ the world
static int add_msg(const char *text, size_t n){
    int c = new_content(false);
    conts[c].body.n = conts[c].plain.n = 0;
    b_add(&conts[c].body, text, n); b_add(&conts[c].plain, text, n);
    snprintf(conts[c].date, sizeof(conts[c].date), "11-Jun-2021 01:41:00 +0000");     // (texts may be the same)
    mb_add(0, c, 0);
    return c;
}
static bool b_has(const buf_t *b, const char *s){ return b->n && memmem(b->p, b->n, s, strlen(s)); }
static const char *shown(const char *p, size_t n){
    static char o[6][1400]; static int k; char *q = o[k = (k + 1) % 6], *s = q;
    for(size_t i = 0; i < n && q < s + 1300; i++){ unsigned char c = (unsigned char)p[i]; if(c == '\n') q += sprintf(q, "\\n"); else if(c == '\r') q += sprintf(q, "\\r"); else if(c < 32 || c > 126) q += sprintf(q, "\\x%02x", c); else *q++ = (char)c; }
    *q = 0; return s;
}
// the attributes of the FETCH responses to the current command
typedef struct { unsigned seq; char name[300]; bool nil, str; buf_t val; } att_t;
static att_t atts[400]; static int natts;
static void canon_name(const char *p, const char *e, char *o){     // upper case, unquoted
    char *z = o + 290;
    for(; p < e && o < z; p++) if(*p != '"') *o++ = (char)toupper((unsigned char)*p);
    *o = 0;
}
// one value in canonical form: strings as "..", bare words as they are
static const char *value(const char *p, const char *e, buf_t *o, int depth, bool *isstr, bool *isnil){
    if(isstr) *isstr = *isnil = false;
    if(p >= e) mc_fail("fetch-syntax", "a FETCH response ends early");
    if(*p == '('){
        b_add(o, "(", 1); p++;
        for(bool first = true;; first = false){
            while(p < e && *p == ' ') p++;
            if(p >= e) mc_fail("fetch-syntax", "an open parenthesis in a FETCH response");
            if(*p == ')') break;
            if(!first) b_add(o, " ", 1);
            p = value(p, e, o, depth + 1, NULL, NULL);
        }
        b_add(o, ")", 1);
        return p + 1;
    }
    if(*p == '"'){
        if(isstr) *isstr = true; else b_add(o, "\"", 1);
        for(p++; p < e && *p != '"'; p++){ if(*p == '\\') p++; b_add(o, p, 1); }
        if(!isstr) b_add(o, "\"", 1);
        MC_CHECK(p < e, "fetch-syntax", "an open quote in a FETCH response");
        return p + 1;
    }
    if(*p == '{'){
        char *q; size_t n = strtoul(p + 1, &q, 10);
        MC_CHECK(q + 3 <= e && !memcmp(q, "}\r\n", 3) && n <= (size_t)(e - q - 3), "fetch-syntax", "a bad literal in a FETCH response");
        if(isstr) *isstr = true; else b_add(o, "\"", 1);
        b_add(o, q + 3, n);
        if(!isstr) b_add(o, "\"", 1);
        return q + 3 + n;
    }
    const char *s = p;
    while(p < e && *p != ' ' && *p != ')' && *p != '(' && *p != '\r') p++;
    MC_CHECK(p > s, "fetch-syntax", "unexpected \"%.20s\" in a FETCH response", s);
    if(p - s == 3 && !strncasecmp(s, "NIL", 3)){ if(isnil) *isnil = true; b_add(o, "NIL", 3); } else b_add(o, s, (size_t)(p - s));
    return p;
}
static void on_fetch(sess_t *x, unsigned n, const char *p, const char *end){
    MC_CHECK(n >= 1 && n <= (unsigned)x->nv, "fetch-seq", "FETCH response for message %u of %d", n, x->nv);
    if(!x->v[n-1].fetched){ x->v[n-1].fetched = true; x->fetchcount++; }
    if(x->mbox < 0 || x->v[n-1].content < 0) return;      // (the mailbox is being opened)
    MC_CHECK(*p == '(', "fetch-syntax", "FETCH response without a list");
    p++;
    for(;;){
        while(*p == ' ') p++;
        if(*p == ')') break;
        const char *s = p; int br = 0;
        while(p < end && (*p != ' ' || br)){ if(*p == '[') br++; if(*p == ']') br--; p++; }
        if(natts == (int)(sizeof(atts) / sizeof(*atts))) mc_error("too many attributes");
        att_t *a = &atts[natts++];
        a->seq = n; a->val.n = 0;
        canon_name(s, p, a->name);
        p = value(p + 1, end, &a->val, 0, &a->str, &a->nil);
    }
}
static void fetch(const char *fmt, ...){
    va_list ap; va_start(ap, fmt); static char t[60000]; vsnprintf(t, sizeof(t), fmt, ap); va_end(ap);
    stepno = 0; neffs = nints = 0; natts = 0;
    X->op = OP_FETCH; X->status = 0; X->fetchcount = 0; X->intent = -1;
    for(int i = 0; i < X->nv; i++) X->v[i].fetched = false;
    snprintf(X->tag, sizeof(X->tag), "a%d", ++X->ncmd % 100000);
    T("    C %s %.300s", X->tag, t);
    b_fmt(&X->dn.in, "%s ", X->tag); b_add(&X->dn.in, t, strlen(t)); b_add(&X->dn.in, "\r\n", 2);
    run_world(NULL);
    MC_CHECK(idle_client(X), "no-completion", "\"%s\" is not answered", t);
}
static att_t *att(unsigned seq, const char *name){
    char c[300]; canon_name(name, name + strlen(name), c);
    for(int i = 0; i < natts; i++) if(atts[i].seq == seq && !strcmp(atts[i].name, c)) return &atts[i];
    return NULL;
}
static att_t *att_n(unsigned seq, const char *name, int k){     // the k-th of them
    char c[300]; canon_name(name, name + strlen(name), c);
    for(int i = 0; i < natts; i++) if(atts[i].seq == seq && !strcmp(atts[i].name, c) && !k--) return &atts[i];
    return NULL;
}
static buf_t *text_of(unsigned seq){ return &conts[X->v[seq-1].content].plain; }
static void want_bytes(unsigned seq, const char *name, const char *p, size_t n){
    att_t *a = att(seq, name); buf_t *m = text_of(seq);
    MC_CHECK(a, "not-delivered", "FETCH of %s was answered OK without it; the message is \"%s\"", name, shown(m->p, m->n));
    MC_CHECK(a->str ? a->val.n == n && !memcmp(a->val.p, p, n) : a->nil && n == 0, "section-wrong", "%s is \"%s\" but was sent as \"%s\"; the message is \"%s\"",
        name, shown(p, n), shown(a->val.p, a->val.n), shown(m->p, m->n));
    mc_case(1);
}
static void open_box(void){
    connect_sess(); X = &ss[nsess-1];
    run_world(NULL);
    fetch_hook = on_fetch;
    X->selmbox = 0; X->selexamine = true; cl_send(X, OP_EXAMINE, "EXAMINE %s", mb[0].name);
    run_world(NULL);
    if(!live(X) || X->mbox < 0) mc_fail("select", "cannot open the mailbox");
    MC_CHECK(X->nv == mb[0].n, "view", "the client sees %d of %d messages", X->nv, mb[0].n);
    for(int i = 0; i < X->nv; i++) X->v[i].content = mb[0].m[i].content;
}

// ----------------------------------------------- enumeration within a run
static int odo_d[400], odo_n[400], odo_len, odo_pos;
static int odo(int n){
    if(odo_pos == odo_len){ if(odo_len == 400) mc_error("odo"); odo_d[odo_len] = 0; odo_n[odo_len++] = n; }
    if(odo_n[odo_pos] != n) mc_error("odo mismatch");
    return odo_d[odo_pos++];
}
static bool odo_next(void){
    while(odo_len && odo_d[odo_len-1] + 1 == odo_n[odo_len-1]) odo_len--;
    odo_pos = 0;
    if(!odo_len) return false;
    odo_d[odo_len-1]++;
    return true;
}
static long total(void (*gen)(buf_t*), int skip){
    static long n; static buf_t b;
    if(n) return n;
    odo_len = odo_pos = 0;
    (void)skip;
    do { b.n = 0; gen(&b); n++; } while(odo_next());
    return n;
}

// ------------------------------------------------- headers, byte by byte
static const char *HT[] = { "A", ":", " ", "\r\n", "b", "\n", "\xe9", "\r" };
static int hlen, htok;
static void gen_hdr(buf_t *b){
    int n = odo(hlen + 1);
    for(int i = 0; i < n; i++){ const char *t = HT[odo(htok)]; b_add(b, t, strlen(t)); }
}
static void pick_names(const ref_t *r, const char *m, const char *list, bool not, buf_t *o){
    o->n = 0;
    for(int i = 0; i < r->nf; i++){
        bool in = false;
        char nm[20]; size_t l = r->f[i].n1 - r->f[i].n0; if(l > 18) l = 18;
        memcpy(nm, m + r->f[i].n0, l); nm[l] = 0;
        char t[200]; snprintf(t, sizeof(t), "%s", list);
        for(char *s, *w = strtok_r(t, " ", &s); w; w = strtok_r(NULL, " ", &s)) if(!strcasecmp(w, nm)) in = true;
        if(in != not) b_add(o, m + r->f[i].b0, r->f[i].b1 - r->f[i].b0);
    }
    b_add(o, m + r->s0, r->s1 - r->s0);
}
static void check_top(unsigned s){
    buf_t *m = text_of(s); ref_t r; static buf_t o;
    ref_split(m->p, m->n, &r);
    want_bytes(s, "BODY[]", m->p, m->n); want_bytes(s, "RFC822", m->p, m->n);
    want_bytes(s, "BODY[HEADER]", m->p, r.hend); want_bytes(s, "RFC822.HEADER", m->p, r.hend);
    want_bytes(s, "BODY[TEXT]", m->p + r.hend, m->n - r.hend); want_bytes(s, "RFC822.TEXT", m->p + r.hend, m->n - r.hend);
    pick_names(&r, m->p, "a", false, &o); want_bytes(s, "BODY[HEADER.FIELDS (A)]", o.p, o.n);
    pick_names(&r, m->p, "bb ab", true, &o); want_bytes(s, "BODY[HEADER.FIELDS.NOT (BB AB)]", o.p, o.n);
    pick_names(&r, m->p, "b aa", false, &o); want_bytes(s, "BODY[HEADER.FIELDS (B AA)]", o.p, o.n);
    att_t *a = att(s, "RFC822.SIZE");
    MC_CHECK(a && strtoul(a->val.p, NULL, 10) == m->n, "size-wrong", "RFC822.SIZE is %.*s, not %zu", a ? (int)a->val.n : 0, a ? a->val.p : "", m->n);
    MC_CHECK(att(s, "ENVELOPE") && att(s, "BODYSTRUCTURE"), "not-delivered", "no ENVELOPE or BODYSTRUCTURE");
}
static void run_hdrs(void){
    hlen = (int)mc_opt("len", 5); htok = (int)mc_opt("toks", 7);
    long n = total(gen_hdr, 0); int parts = (int)((n + PERBOX - 1) / PERBOX);
    long p = mc_choose((unsigned)parts, "box");
    odo_len = odo_pos = 0; long i = 0; static buf_t b;
    do { b.n = 0; gen_hdr(&b); if(i % parts == p && b.n) add_msg(b.p, b.n); i++; } while(odo_next());
    open_box();
    fetch("FETCH 1:* (BODY.PEEK[] BODY.PEEK[HEADER] RFC822.HEADER BODY.PEEK[TEXT] RFC822.SIZE)");
    (void)0;
    for(int s = 1; s <= X->nv; s++){
        fetch("FETCH %d (BODY.PEEK[HEADER.FIELDS (a)] BODY.PEEK[HEADER.FIELDS.NOT (bB aB)] RFC822.SIZE BODYSTRUCTURE BODY.PEEK[HEADER] BODY.PEEK[TEXT] RFC822.TEXT BODY.PEEK[HEADER.FIELDS (b \"AA\")] BODY.PEEK[] RFC822 ENVELOPE RFC822.HEADER)", s);
        MC_CHECK(X->status == 1, "refused", "FETCH was answered %s; the message is \"%s\"", X->stline, shown(text_of((unsigned)s)->p, text_of((unsigned)s)->n));
        check_top((unsigned)s);
    }
}

// ------------------------------------------------------------ MIME trees
typedef enum { K_TEXT, K_IMG, K_MSG, K_MULTI, K_DIGEST, K_NOBOUND, K_N } kind_e;
typedef struct node { kind_e kind; size_t h0, h1, b0, b1; bool deftype, malformed, subj; int img; struct node *ch[4]; int nch; } node_t;
static node_t pool[64]; static int npool;
static node_t *new_node(void){ if(npool == 64) mc_error("nodes"); node_t *n = &pool[npool++]; *n = (node_t){0}; return n; }
static int budget, nbound, style; static bool lf;
static buf_t *B;
static void W(const char *s){ for(; *s; s++){ if(*s == '\n' && !lf) b_add(B, "\r\n", 2); else b_add(B, s, 1); } }
static const char *BND[] = { "b0", "b1x", "=_b2.?", "b3", "b4", "b5", "b6", "b7", "b8", "b9" };
typedef enum { R_MSG, R_PART, R_DIGEST } role_e;
static const char *LEAF[] = { "x\n", "", "two\n--b lines", "\n\n" };
static void gen_node(node_t *n, role_e role, int depth);
static void gen_body(node_t *n, const char *bnd, int depth){
    n->b0 = B->n;
    switch(n->kind){
        case K_TEXT: case K_IMG: W(LEAF[odo(style ? 4 : 2)]); break;
        case K_MSG: n->ch[0] = new_node(); n->nch = 1; gen_node(n->ch[0], R_MSG, depth + 1); break;
        case K_NOBOUND: W("--b\n\nlost\n--b--\n"); break;
        default: {
            int k = odo(budget >= 2 ? 3 : budget >= 1 ? 2 : 1);
            budget -= k;
            int deco = style ? odo(4) : 0;
            if(deco & 1) W("This is the preamble\n--\n -- not\n");
            for(int i = 0; i < k; i++){
                W("--"); W(bnd); W(deco & 2 ? " \t\n" : "\n");
                n->ch[n->nch] = new_node();
                gen_node(n->ch[n->nch++], n->kind == K_DIGEST ? R_DIGEST : R_PART, depth + 1);
                W("\n");
            }
            W("--"); W(bnd); W("--");
            if(deco & 2) W(" \nepilogue\n--"), W(bnd), W("\n\nnot a part\n");
            else if(odo(2)) W("\n");
        }
    }
    n->b1 = B->n;
}
static void gen_node(node_t *n, role_e role, int depth){
    n->h0 = B->n;
    char t[200]; const char *bnd = NULL;
    // 0: explicit type; 1: no type, but a header; 2: no header at all; 3: unreadable
    int how = odo(4);
    if(how == 0){
        int kinds = budget >= 1 ? 6 : 3;
        static const kind_e K0[] = { K_TEXT, K_IMG, K_NOBOUND, K_MSG, K_MULTI, K_DIGEST };
        n->kind = K0[odo(kinds)];
        if(n->kind == K_MSG) budget--;
        if(n->kind == K_MULTI || n->kind == K_DIGEST) bnd = BND[nbound++ % 10];
    }else n->kind = role == R_DIGEST && budget >= 1 ? (budget--, K_MSG) : K_TEXT;
    if(how && role == R_DIGEST && n->kind == K_TEXT){ how = 0; }   // out of budget: say it is text
    n->deftype = how != 0;
    if(how == 0 && role == R_MSG && odo(2)){ W("Subject: s\n"); n->subj = true; W("From: A <a@b.c>\n"); }
    if(how == 0) switch(n->kind){
        case K_TEXT: W("Content-Type: text/plain; charset=utf-8\n"); break;
        case K_IMG: n->img = style ? odo(2) : 0;
            W(n->img ? "content-type: Image/PNG; a=1;\n name=\"a b.png\"\nContent-Transfer-Encoding: BASE64\nContent-ID: <c@d>\nContent-Description: some thing\nContent-MD5: q9\nContent-Disposition: attachment; filename=x.png\nContent-Language: en\nContent-Location: http://x/\n" : "Content-Type: image/png\n"); break;
        case K_MSG: W("Content-Type: message/rfc822\n"); break;
        case K_NOBOUND: W("Content-Type: multipart/mixed\n"); break;
        default:
            snprintf(t, sizeof(t), style && nbound % 2 ? "CONTENT-TYPE: MultiPart/%s; x=y;\n\tBoundary=\"%s\"\n" : "Content-Type: multipart/%s; boundary=\"%s\"\n", n->kind == K_DIGEST ? "digest" : "mixed", bnd);
            W(t);
    }
    if(how == 1) W("X-a: 1\n");
    if(how == 3){ W("unreadable line\n"); n->malformed = true; n->h1 = n->h0; B->n = n->h0; }
    else{ W("\n"); n->h1 = B->n; }
    if(how == 3){
        // everything is the body; only as a text or a message, whose own
        // headers are then unreadable too
        n->b0 = B->n; W("unreadable line\nSubject: no\n\nbody\n"); n->b1 = B->n;
        if(n->kind == K_MSG){
            node_t *c = n->ch[0] = new_node(); n->nch = 1;
            c->kind = K_TEXT; c->deftype = c->malformed = true; c->h0 = c->h1 = c->b0 = n->b0; c->b1 = n->b1;
        }
        return;
    }
    gen_body(n, bnd, depth);
}
static node_t *gen_mime_root(buf_t *b){
    B = b; npool = 0; nbound = 0;
    budget = (int)mc_opt("nodes", 2);
    lf = odo(2);
    node_t *r = new_node();
    gen_node(r, R_MSG, 0);
    return r;
}
static void gen_mime(buf_t *b){ gen_mime_root(b); }

// what the structure should be
// (how: the list of addresses as it should be, or as one flat list)
static bool flat, has_addr;
static void exp_struct(buf_t *o, const node_t *n, bool ext, const char *m){
    size_t len = n->b1 - n->b0, lines = 0;
    for(size_t i = n->b0; i < n->b1; i++) lines += m[i] == '\n';
    if(n->kind == K_MULTI || n->kind == K_DIGEST || n->kind == K_NOBOUND){
        b_fmt(o, "(");
        for(int i = 0; i < n->nch; i++){ if(i) b_fmt(o, " "); exp_struct(o, n->ch[i], ext, m); }
        if(!n->nch) b_fmt(o, "(\"text\" \"plain\" (\"charset\" \"us-ascii\") NIL NIL \"7bit\" 0 0%s)", ext ? " NIL NIL NIL NIL" : "");
        b_fmt(o, " \"%s\"", n->kind == K_DIGEST ? "digest" : "mixed");
        if(ext) b_fmt(o, " \001 NIL NIL NIL");
        b_fmt(o, ")");
        return;
    }
    if(n->kind == K_MSG){
        const node_t *c = n->ch[0];
        b_fmt(o, "(\"message\" \"rfc822\" NIL NIL NIL \"7bit\" %zu ", len);
        if(c->subj){
            const char *a = flat ? "(\"a\" NIL \"a\" \"b.c\")" : "((\"a\" NIL \"a\" \"b.c\"))";
            b_fmt(o, "(NIL \"s\" %s %s %s NIL NIL NIL NIL NIL) ", a, a, a); has_addr = true;
        }
        else b_fmt(o, "(NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ");
        exp_struct(o, c, ext, m);
        b_fmt(o, " %zu%s)", lines, ext ? " NIL NIL NIL NIL" : "");
        return;
    }
    if(n->kind == K_IMG){
        if(n->img) b_fmt(o, "(\"image\" \"png\" (\"a\" \"1\" \"name\" \"a b.png\") \"<c@d>\" \"some thing\" \"base64\" %zu%s)", len, ext ? " \"q9\" (\"attachment\" (\"filename\" \"x.png\")) ~ \"http://x/\"" : "");
        else b_fmt(o, "(\"image\" \"png\" NIL NIL NIL \"7bit\" %zu%s)", len, ext ? " NIL NIL NIL NIL" : "");
        return;
    }
    b_fmt(o, "(\"text\" \"plain\" %s NIL NIL \"7bit\" %zu %zu%s)", n->deftype ? "?" : "(\"charset\" \"utf-8\")", len, lines, ext ? " NIL NIL NIL NIL" : "");
}
// patterns: ~ is a language, as a string or as a list; ? is NIL or (charset us-ascii); 1 is any list or NIL; letters in either case
static bool match(const char *p, const char *pe, const char *s, const char *se){
    while(p < pe){
        if(*p == '?'){
            if(se - s >= 3 && !memcmp(s, "NIL", 3)) s += 3;
            else{ static const char u[] = "(\"charset\" \"us-ascii\")"; if((size_t)(se - s) < sizeof(u) - 1 || strncasecmp(s, u, sizeof(u) - 1)) return false; s += sizeof(u) - 1; }
            p++; continue;
        }
        if(*p == '~'){
            bool br = s < se && *s == '('; if(br) s++;
            if(se - s < 4 || strncasecmp(s, "\"en\"", 4)) return false;
            s += 4; if(br && s < se) s++;
            p++; continue;
        }
        if(*p == 1){
            if(s < se && *s == '('){ while(s < se && *s != ')') s++; s++; } else{ if(se - s < 3 || memcmp(s, "NIL", 3)) return false; s += 3; }
            p++; continue;
        }
        if(s >= se || tolower((unsigned char)*p) != tolower((unsigned char)*s)) return false;
        p++; s++;
    }
    return s == se;
}
static void want_struct(unsigned s, const node_t *root, const char *name, bool ext){
    static buf_t o, o2; o.n = o2.n = 0; buf_t *m = text_of(s);
    has_addr = flat = false; exp_struct(&o, root, ext, m->p);
    flat = true; exp_struct(&o2, root, ext, m->p);
    att_t *a = att(s, name);
    MC_CHECK(a, "not-delivered", "FETCH without %s; the message is \"%s\"", name, shown(m->p, m->n));
    if(has_addr && match(o2.p, o2.p + o2.n, a->val.p, a->val.p + a->val.n)){
        mc_soft("envelope-flat", "the addresses of an envelope are sent as one list, (\"A\" NIL \"a\" \"b.c\"), and not as a list of addresses");
        mc_case(1); return;
    }
    MC_CHECK(match(o.p, o.p + o.n, a->val.p, a->val.p + a->val.n), "structure-wrong", "%s is\n  %s, it should be\n  %s; the message is \"%s\"", name, shown(a->val.p, a->val.n), shown(o.p, o.n), shown(m->p, m->n));
    mc_case(1);
}
// all paths of existing parts, and some which do not exist
typedef struct { char path[40]; const node_t *n; size_t m0, m1; } path_t;      // n: NULL if none; m: mime header
static path_t paths[200]; static int npaths;
static const node_t EMPTY = { .kind = K_TEXT };
static void add_path(const char *p, const node_t *n, size_t m0, size_t m1){ if(npaths == 200) mc_error("paths"); snprintf(paths[npaths].path, 40, "%s", p); paths[npaths].n = n; paths[npaths].m0 = m0; paths[npaths++].m1 = m1; }
static void walk_msg(const char *pre, const node_t *m);
static void walk_inside(const char *p, const node_t *n){       // below the part p
    char q[40];
    if(n->kind == K_MULTI || n->kind == K_DIGEST || n->kind == K_NOBOUND){
        for(int i = 0; i < n->nch; i++){
            snprintf(q, sizeof(q), "%s%s%d", p, *p ? "." : "", i + 1);
            add_path(q, n->ch[i], n->ch[i]->h0, n->ch[i]->h1);
            walk_inside(q, n->ch[i]);
        }
        if(!n->nch){ snprintf(q, sizeof(q), "%s%s1", p, *p ? "." : ""); add_path(q, &EMPTY, 0, 0); }
        for(int i = 0; i < 2; i++){ snprintf(q, sizeof(q), "%s%s%d", p, *p ? "." : "", i ? 99 : (n->nch ? n->nch : 1) + 1); add_path(q, NULL, 0, 0); }
    }else if(n->kind == K_MSG && *p) walk_msg(p, n->ch[0]);
    else{ snprintf(q, sizeof(q), "%s%s1", p, *p ? "." : ""); add_path(q, NULL, 0, 0); }
}
static void walk_msg(const char *pre, const node_t *m){
    if(m->kind == K_MULTI || m->kind == K_DIGEST || m->kind == K_NOBOUND){ walk_inside(pre, m); return; }
    char q[40]; snprintf(q, sizeof(q), "%s%s1", pre, *pre ? "." : "");
    add_path(q, m, m->h0, m->h1);
    walk_inside(q, m);
    snprintf(q, sizeof(q), "%s%s2", pre, *pre ? "." : ""); add_path(q, NULL, 0, 0);
}
// something which does not exist may be refused or be empty
static void want_none(unsigned s, const char *item, const char *name){
    fetch("FETCH %u (%s)", s, item);
    att_t *a = att(s, name); buf_t *m = text_of(s);
    if(a) MC_CHECK(a->nil || a->val.n == 0, "invented", "%s does not exist, but was sent as \"%s\"; the message is \"%s\"", name, shown(a->val.p, a->val.n), shown(m->p, m->n));
    else MC_CHECK(X->status != 1, "not-delivered", "%s was answered OK without anything; the message is \"%s\"", name, shown(m->p, m->n));
    mc_case(1);
}
static const char *SUF[] = { "", ".MIME", ".HEADER", ".TEXT", ".HEADER.FIELDS (subject CONTENT-type)", ".HEADER.FIELDS.NOT (FROM)" };
static void run_mime(void){
    style = (int)mc_opt("style", 0);
    int holes = (int)mc_opt("holes", 1);
    long n = total(gen_mime, 0); int parts = (int)((n + PERBOX - 1) / PERBOX);
    long p = mc_choose((unsigned)parts, "box");
    odo_len = odo_pos = 0; long i = 0; static buf_t b, cmd;
    static int sv_d[PERBOX][400], sv_n[PERBOX][400], sv_len[PERBOX]; int nm = 0;
    do {
        b.n = 0; gen_mime(&b);
        if(i++ % parts != p || !b.n) continue;
        add_msg(b.p, b.n);
        memcpy(sv_d[nm], odo_d, sizeof(odo_d)); memcpy(sv_n[nm], odo_n, sizeof(odo_n)); sv_len[nm++] = odo_len;
    } while(odo_next());
    open_box();
    for(unsigned s = 1; s <= (unsigned)X->nv; s++){
        // the message once more, with its tree
        memcpy(odo_d, sv_d[s-1], sizeof(odo_d)); memcpy(odo_n, sv_n[s-1], sizeof(odo_n)); odo_len = sv_len[s-1]; odo_pos = 0;
        b.n = 0; node_t *root = gen_mime_root(&b); buf_t *m = text_of(s);
        if(b.n != m->n || memcmp(b.p, m->p, b.n)) mc_error("message %u is not the one generated", s);
        fetch("FETCH %u (BODYSTRUCTURE BODY.PEEK[HEADER] BODY.PEEK[TEXT] BODY)", s);
        MC_CHECK(X->status == 1, "refused", "FETCH BODYSTRUCTURE was answered %s; the message is \"%s\"", X->stline, shown(m->p, m->n));
        want_struct(s, root, "BODYSTRUCTURE", true); want_struct(s, root, "BODY", false);
        want_bytes(s, "BODY[HEADER]", m->p + root->h0, root->h1 - root->h0); want_bytes(s, "BODY[TEXT]", m->p + root->b0, root->b1 - root->b0);
        npaths = 0; walk_msg("", root);
        cmd.n = 0;
        // what exists, at once
        for(int k = 0; k < npaths; k++) if(paths[k].n) for(int q = 0; q < 6; q++) if(q < 2 || paths[k].n->kind == K_MSG) b_fmt(&cmd, "%sBODY.PEEK[%s%s]", cmd.n ? " " : "", paths[k].path, SUF[q]);
        b_add(&cmd, "", 1);
        fetch("FETCH %u (%s)", s, cmd.p);
        MC_CHECK(X->status == 1, "refused", "FETCH %s was answered %s; the message is \"%s\"", cmd.p, X->stline, shown(m->p, m->n));
        for(int k = 0; k < npaths; k++) if(paths[k].n){
            const path_t *t = &paths[k]; const node_t *nd = t->n; char nm2[200];
            snprintf(nm2, sizeof(nm2), "BODY[%s]", t->path); want_bytes(s, nm2, m->p + nd->b0, nd->b1 - nd->b0);
            snprintf(nm2, sizeof(nm2), "BODY[%s.MIME]", t->path); want_bytes(s, nm2, m->p + t->m0, t->m1 - t->m0);
            if(nd->kind == K_MSG){
                const node_t *c = nd->ch[0]; ref_t r; static buf_t o;
                snprintf(nm2, sizeof(nm2), "BODY[%s.HEADER]", t->path); want_bytes(s, nm2, m->p + c->h0, c->h1 - c->h0);
                snprintf(nm2, sizeof(nm2), "BODY[%s.TEXT]", t->path); want_bytes(s, nm2, m->p + c->b0, c->b1 - c->b0);
                ref_split(m->p + nd->b0, nd->b1 - nd->b0, &r);
                if(r.hend != c->h1 - c->h0) mc_error("reference");
                snprintf(nm2, sizeof(nm2), "BODY[%s%s]", t->path, SUF[4]); pick_names(&r, m->p + nd->b0, "subject content-type", false, &o); want_bytes(s, nm2, o.p, o.n);
                snprintf(nm2, sizeof(nm2), "BODY[%s%s]", t->path, SUF[5]); pick_names(&r, m->p + nd->b0, "from", true, &o); want_bytes(s, nm2, o.p, o.n);
            }
        }
        // what does not
        if(holes) for(int k = 0; k < npaths; k++) for(int q = 0; q < 6; q++){
            if(paths[k].n ? q < 2 || paths[k].n->kind == K_MSG : holes < 2 && q > 1) continue;
            char it[200], nm2[200];
            snprintf(it, sizeof(it), "BODY.PEEK[%s%s]", paths[k].path, SUF[q]); snprintf(nm2, sizeof(nm2), "BODY[%s%s]", paths[k].path, SUF[q]);
            want_none(s, it, nm2);
        }
    }
}

// ----------------------------------- several items at once, and partial ranges
static const char *PMSG[] = {
    "Subject: s\r\nFrom: A <a@b.c>\r\nContent-Type: multipart/mixed; boundary=q\r\n\r\n--q\r\nContent-Type: text/plain\r\n\r\nfirst\r\n--q\r\nContent-Type: message/rfc822\r\n\r\nSubject: in\r\n\r\ninner\r\n--q--\r\n",
    "Subject: plain\r\n\r\nbody\r\n",
    "no header\r\n\r\nat all",
    "\r\n",
};
static const char *ITEM[] = { "RFC822", "BODY.PEEK[]", "BODY.PEEK[]<0.5>", "BODY.PEEK[]<3.4000>", "RFC822.HEADER", "RFC822.TEXT", "BODY.PEEK[HEADER]", "BODY.PEEK[HEADER]<2.3>", "BODY.PEEK[TEXT]<1.2>",
    "BODY.PEEK[1]", "BODY.PEEK[1]<0.1>", "BODY.PEEK[2.HEADER]", "BODY.PEEK[1.MIME]", "BODY.PEEK[9]", "BODY.PEEK[1.HEADER]", "BODYSTRUCTURE", "BODY", "ENVELOPE", "RFC822.SIZE", "BODY.PEEK[HEADER.FIELDS (subject)]", "BODY.PEEK[HEADER.FIELDS.NOT (subject)]<1.1>" };
#define NITEM ((int)(sizeof(ITEM) / sizeof(*ITEM)))
static void res_name(const char *item, char *o){       // the name under which it comes back
    if(!strncmp(item, "BODY.PEEK", 9)) sprintf(o, "BODY%s", item + 9); else strcpy(o, item);
    char *a = strchr(o, '<'); if(a){ char *d = strchr(a, '.'); strcpy(d, ">"); }
}
static void run_items(void){
    int k = (int)mc_opt("items", 2);
    int msg = (int)mc_choose(4, "message");
    int first = (int)mc_choose((unsigned)NITEM, "first");
    add_msg(PMSG[msg], strlen(PMSG[msg]));
    open_box();
    static struct { bool there; buf_t v; bool nil; } one[40];
    char nm[200];
    for(int i = 0; i < NITEM; i++){
        fetch("FETCH 1 (%s)", ITEM[i]); res_name(ITEM[i], nm);
        att_t *a = att(1, nm); one[i].v.n = 0; one[i].there = a != NULL;
        MC_CHECK(a || X->status != 1, "not-delivered", "FETCH %s was answered OK without it", ITEM[i]);
        if(a){ b_add(&one[i].v, a->val.p, a->val.n); one[i].nil = a->nil; }
    }
    int n = NITEM; long tot = 1; for(int i = 1; i < k; i++) tot *= n;
    for(long c = 0; c < tot; c++){
        int it[4] = { first }; long d = c; static buf_t cmd; cmd.n = 0;
        for(int i = 1; i < k; i++){ it[i] = (int)(d % n); d /= n; }
        for(int i = 0; i < k; i++) b_fmt(&cmd, "%s%s", i ? " " : "", ITEM[it[i]]);
        b_add(&cmd, "", 1);
        fetch("FETCH 1 (%s)", cmd.p);
        bool all = true;
        for(int i = 0; i < k; i++){
            res_name(ITEM[it[i]], nm);
            // the same name twice: with the same or with another partial length
            bool clash = false; char nm2[200];
            for(int j = 0; j < k; j++) if(j != i){ res_name(ITEM[it[j]], nm2); clash |= !strcmp(nm, nm2); }
            att_t *a = att(1, nm);
            if(!a){ all = false; continue; }
            if(clash) continue;
            MC_CHECK(one[it[i]].there && a->nil == one[it[i]].nil && a->val.n == one[it[i]].v.n && !memcmp(a->val.p, one[it[i]].v.p, a->val.n), "items-differ",
                "in FETCH (%s), %s is \"%s\", alone it is \"%s\"", cmd.p, nm, shown(a->val.p, a->val.n), one[it[i]].there ? shown(one[it[i]].v.p, one[it[i]].v.n) : "refused");
        }
        MC_CHECK(all || X->status != 1, "not-delivered", "FETCH (%s) was answered OK without all of it", cmd.p);
        if(all) MC_CHECK(X->status == 1, "refused", "FETCH (%s) was answered %s", cmd.p, X->stline);
        mc_case(1);
    }
}
static void run_partial(void){
    int msg = (int)mc_choose(4, "message");
    static const char *SEC[] = { "", "HEADER", "TEXT", "1", "1.MIME", "2", "2.HEADER", "2.TEXT", "HEADER.FIELDS (subject from)", "HEADER.FIELDS.NOT (x)" };
    int sec = (int)mc_choose(10, "section");
    add_msg(PMSG[msg], strlen(PMSG[msg]));
    open_box();
    char nm[200]; static buf_t whole; whole.n = 0;
    fetch("FETCH 1 (BODY.PEEK[%s])", SEC[sec]);
    snprintf(nm, sizeof(nm), "BODY[%s]", SEC[sec]);
    att_t *a = att(1, nm); if(!a) return;
    b_add(&whole, a->val.p, a->val.n); b_add(&whole, "", 1); whole.n--;
    static const unsigned BIG[] = { 4096, 2147483647u, 2147483648u, 4294967295u };
    for(size_t o = 0; o <= whole.n + 2 + 4; o++) for(size_t l = 1; l <= whole.n + 2 + 4; l++){
        unsigned off = o <= whole.n + 2 ? (unsigned)o : BIG[o - whole.n - 3], len = l <= whole.n + 2 ? (unsigned)l : BIG[l - whole.n - 3];
        if(off > 4 && off < whole.n - 4 && off % 7 && len > 4 && len < whole.n - 4 && len % 5) continue;
        fetch("FETCH 1 (BODY.PEEK[%s]<%u.%u>)", SEC[sec], off, len);
        MC_CHECK(X->status == 1, "refused", "a partial FETCH <%u.%u> of %s was answered %s", off, len, nm, X->stline);
        snprintf(nm, sizeof(nm), "BODY[%s]<%u>", SEC[sec], off);
        size_t from = off < whole.n ? off : whole.n, to = len < whole.n - from ? from + len : whole.n;
        want_bytes(1, nm, whole.p + from, to - from);
    }
}
// a message inside a message inside a message ...
static void run_deep(void){
    int shape = (int)mc_choose(3, "shape");
    static const int D[] = { 1, 2, 3, 10, 50, 90, 1000, 20000 };
    int di = (int)mc_choose((unsigned)mc_opt("max", 7), "depth"), d = D[di];
    static buf_t b; b.n = 0;
    for(int i = 0; i < d; i++){
        if(shape == 0) b_fmt(&b, "Content-Type: message/rfc822\n\n");
        else if(shape == 1) b_fmt(&b, "Content-Type: multipart/mixed; boundary=\"%dx\"\n\n--%dx\n", i, i);
        else b_fmt(&b, "Content-Type: multipart/digest; boundary=\"%dx\"\n\n--%dx\n\n", i, i);
    }
    size_t at = b.n;
    b_fmt(&b, "Content-Type: text/html\n\ndeepest");
    size_t body = b.n - 7, end = b.n;
    if(shape) for(int i = d; i-- > 0;) b_fmt(&b, "\n--%dx--", i);
    (void)at;
    add_msg(b.p, b.n);
    open_box();
    fetch("FETCH 1 (BODYSTRUCTURE BODY ENVELOPE)");
    MC_CHECK(X->status == 1, "refused", "the structure of a message nested %d deep was refused: %s", d, X->stline);
    att_t *a = att(1, "BODYSTRUCTURE");
    int levels = shape == 2 ? 2 * d : d;
    if(levels <= 90) MC_CHECK(a && b_has(&a->val, "\"html\""), "structure-wrong", "the innermost part of a message nested %d deep is not listed", d);
    static buf_t cmd; cmd.n = 0;
    if(d > 1000) return;        // (longer than a command line)
    for(int i = 0; i < d; i++) b_fmt(&cmd, i ? ".1" : "1");
    if(shape == 0) b_fmt(&cmd, ".1");
    else if(shape == 2) (void)0;
    b_add(&cmd, "", 1);
    fetch("FETCH 1 (BODY.PEEK[%s])", cmd.p);
    if(X->status == 1 || levels <= 90){
        char nm[5000]; snprintf(nm, sizeof(nm), "BODY[%s]", cmd.p);
        MC_CHECK(natts == 1, "refused", "the innermost part of a message nested %d deep was refused: %s", d, X->stline);
        if(shape < 2) MC_CHECK(atts[0].val.n == end - body && !memcmp(atts[0].val.p, b.p + body, end - body), "section-wrong", "the innermost part of %d is \"%s\"", d, shown(atts[0].val.p, atts[0].val.n));
    }
    mc_case(1);
}
// headers which are cut by the boundaries at which the file is read
static void run_chunk(void){
    int end = (int)mc_choose(4, "line ends"), where = (int)mc_choose(2, "boundary");
    static const char *E[] = { "\r\n", "\n", "\r", "\n\r" };
    static buf_t b; b.n = 0;
    static const char *F[] = { "A: one", " two", "\tthree \xc3\xa9\xe9", "Ab :x", "bb:", "aa: Mon, (c) \"q\" <m@n.o>", "", "body: 1", "", "rfc822 message" };
    int part = (int)mc_choose(3, "part");
    for(int pad = part * 40; pad < part * 40 + 40; pad++){
        b.n = 0; size_t want = (size_t)(where ? 8192 : 4096) - 110 + (size_t)pad;
        b_fmt(&b, "Pad: ");
        while(b.n + 2 < want) b_add(&b, b.n % 70 == 69 ? " " : "p", 1);
        b_add(&b, E[end], strlen(E[end]));
        for(size_t i = 0; i < sizeof(F) / sizeof(*F); i++){ b_fmt(&b, "%s", F[i]); b_add(&b, E[end], strlen(E[end])); }
        add_msg(b.p, b.n);
    }
    open_box();
    for(int s = 1; s <= X->nv; s++){
        fetch("FETCH %d (BODY.PEEK[HEADER])", s);
        ref_t r; buf_t *m = text_of((unsigned)s); ref_split(m->p, m->n, &r);
        want_bytes((unsigned)s, "BODY[HEADER]", m->p, r.hend);
        fetch("FETCH %d (BODY.PEEK[HEADER.FIELDS (a)] BODY.PEEK[HEADER.FIELDS.NOT (bB aB)] RFC822.SIZE BODYSTRUCTURE BODY.PEEK[HEADER] BODY.PEEK[TEXT] RFC822.TEXT BODY.PEEK[HEADER.FIELDS (b \"AA\")] BODY.PEEK[] RFC822 ENVELOPE RFC822.HEADER)", s);
        MC_CHECK(X->status == 1, "refused", "FETCH was answered %s", X->stline);
        check_top((unsigned)s);
    }
}
// the file of the message cannot be read
static int rm_msg(const char *p, const struct stat *st, int flag, struct FTW *f){
    (void)st; (void)f;
    if(flag == FTW_F && strstr(p, "/cur/")) syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    return 0;
}
static void run_io(void){
    int it = (int)mc_choose((unsigned)NITEM, "item"), second = (int)mc_choose((unsigned)NITEM, "and");
    add_msg(PMSG[0], strlen(PMSG[0]));
    open_box();
    if(nftw(dirpath, rm_msg, 20, FTW_PHYS)) mc_error("nftw");
    X->mayend = true;
    stepno = 0; neffs = nints = natts = 0;
    X->op = OP_FETCH; X->status = 0; snprintf(X->tag, sizeof(X->tag), "a%d", ++X->ncmd);
    b_fmt(&X->dn.in, "%s FETCH 1 (%s %s)\r\n", X->tag, ITEM[it], ITEM[second]);
    run_world(NULL);
    if(X->used) MC_CHECK(idle_client(X), "no-completion", "FETCH of a message whose file is gone is not answered");
    for(int i = 0; i < natts; i++) if(strcmp(atts[i].name, "RFC822.SIZE")) MC_CHECK(atts[i].val.n == 0 || X->status != 1, "invented", "FETCH of a message whose file is gone returned %s \"%s\"", atts[i].name, shown(atts[i].val.p, atts[i].val.n));
    mc_case(1);
}
// very many header fields, addresses or parts
static void run_many(void){
    int n = (int)mc_opt("n", 3000), shape = (int)mc_choose(4, "shape");
    static buf_t b; b.n = 0;
    if(shape == 0){ for(int i = 0; i < n; i++) b_fmt(&b, "a:\n"); b_fmt(&b, "\nbody"); }
    else if(shape == 1){ b_fmt(&b, "To: a@b"); for(int i = 1; i < n; i++) b_fmt(&b, ",a@b"); b_fmt(&b, "\n\nbody"); }
    else if(shape == 2){ b_fmt(&b, "Content-Type: multipart/mixed; boundary=b\n\n"); for(int i = 0; i < n; i++) b_fmt(&b, "--b\n\n\n"); b_fmt(&b, "--b--\n"); }
    else{ b_fmt(&b, "Content-Type: text/plain; a=b"); for(int i = 0; i < n; i++) b_fmt(&b, "; a=b"); b_fmt(&b, "\n\nbody"); }
    add_msg(b.p, b.n);
    open_box();
    fetch("FETCH 1 (BODYSTRUCTURE ENVELOPE BODY.PEEK[HEADER] BODY.PEEK[TEXT])");
    MC_CHECK(X->status == 1, "refused", "FETCH was answered %s", X->stline);
    size_t h = 0; for(size_t i = 1; i < b.n; i++) if(b.p[i] == '\n' && b.p[i-1] == '\n'){ h = i + 1; break; }
    want_bytes(1, "BODY[HEADER]", b.p, h); want_bytes(1, "BODY[TEXT]", b.p + h, b.n - h);
    if(shape == 2){ char nm[60]; snprintf(nm, sizeof(nm), "BODY[%d.MIME]", n); fetch("FETCH 1 (BODY.PEEK[%d.MIME])", n); want_bytes(1, nm, "\n", 1); }
}
// envelopes: every combination of ways to write addresses and texts
typedef struct { const char *text, *want[4][3]; int n; } aform_t;      // name, mailbox, host
static const aform_t AF[] = {
    { "a@b.c", {{ NULL, "a", "b.c" }}, 1 }, { "<a@b.c>", {{ NULL, "a", "b.c" }}, 1 }, { "A B <a@b.c>", {{ "A B", "a", "b.c" }}, 1 }, { "\"A, B\" <a.d@b.c>", {{ "A, B", "a.d", "b.c" }}, 1 },
    { "A (x, y) <a@b.c>", {{ "A", "a", "b.c" }}, 1 }, { "a+t@b.c (a <c@d>)", {{ NULL, "a+t", "b.c" }}, 1 }, { "\"q q\"@b.c", {{ NULL, "q q", "b.c" }}, 1 }, { "A <@r.s,@t.u:a@b.c>", {{ "A", "a", "b.c" }}, 1 },
    { "a@[1.2.3.4]", {{ NULL, "a", "[1.2.3.4]" }}, 1 }, { "A\r\n B <a@b.c>", {{ "A B", "a", "b.c" }}, 1 }, { "\"b\\\"s\\\\\" <a@b>", {{ "b\"s\\", "a", "b" }}, 1 }, { "J. R. \"D\" <j@b>", {{ "J. R. D", "j", "b" }}, 1 },
    { "\xc3\xa9t <u@\xc3\xa9.d>", {{ "\xc3\xa9t", "u", "\xc3\xa9.d" }}, 1 }, { "G G: a@b.c, X <d@e>;", {{ NULL, "G G", NULL }, { NULL, "a", "b.c" }, { "X", "d", "e" }, { NULL, NULL, NULL }}, 4 }, { "G:;", {{ NULL, "G", NULL }, { NULL, NULL, NULL }}, 2 },
    { "!# $%&'*+-/=?^_`{|}~@b", {{ NULL, "!#$%&'*+-/=?^_`{|}~", "b" }}, 1 },
};
#define NAF ((int)(sizeof(AF) / sizeof(*AF)))
static void q_str(buf_t *o, const char *s){ if(s) b_fmt(o, "\"%s\"", s); else b_fmt(o, "NIL"); }
static void exp_addrs(buf_t *o, const int *f, int n){
    bool first = true;
    b_fmt(o, "(");
    for(int i = 0; i < n; i++) for(int j = 0; j < AF[f[i]].n; j++){
        if(!first) b_fmt(o, " ");
        first = false;
        if(!flat) b_fmt(o, "(");
        q_str(o, AF[f[i]].want[j][0]); b_fmt(o, " NIL "); q_str(o, AF[f[i]].want[j][1]); b_fmt(o, " "); q_str(o, AF[f[i]].want[j][2]);
        if(!flat) b_fmt(o, ")");
    }
    b_fmt(o, ")");
}
static const struct { const char *text, *want; } TF[] = { { NULL, NULL }, { " one", "one" }, { " Mon,  1 Jan (x)", "Mon,  1 Jan (x)" }, { "fold\r\n\t=?utf-8?q?a?=\r\n  z", "fold =?utf-8?q?a?= z" }, { " \xc3\xa9 \"q\" \\ <", "\xc3\xa9 \"q\" \\ <" } };
static void run_env(void){
    static const char *SEP[] = { ", ", ",\r\n\t", " ,, ", "," };
    int a1 = (int)mc_choose((unsigned)NAF, "address"), lay = (int)mc_choose(4, "layout");
    static buf_t b, o[2]; int fa[50][4];
    for(int m = 0; m < 17; m++){
        int a2 = m < NAF ? m : -1; int n = a2 < 0 ? 1 : 2;
        b.n = 0; fa[m][0] = a1; fa[m][1] = a2;
        static buf_t l; l.n = 0; b_fmt(&l, "%s", AF[a1].text); if(n == 2) b_fmt(&l, "%s%s", SEP[(lay + m) % 4], AF[a2].text); b_add(&l, "", 1);
        if(TF[(m + lay) % 5].text) b_fmt(&b, "Subject:%s\r\n", TF[(m + lay) % 5].text);
        // (groups as authors are left out, and there is only one sender)
        int g1 = fa[m][2] = AF[a1].n > 1 ? 0 : a1, g2 = fa[m][3] = a2 < 0 ? -1 : AF[a2].n > 1 ? 1 : a2;
        if(lay & 1){ b_fmt(&b, "FROM: %s", AF[g1].text); if(n == 2) b_fmt(&b, "%s%s", SEP[(lay + m) % 4], AF[g2].text); b_fmt(&b, "\r\nTo:%s\r\n", AF[a1].text); }
        else b_fmt(&b, "sender: %s\r\nCc: %s\r\nto: x@y\r\n", AF[g1].text, l.p);
        if(lay & 2) b_fmt(&b, "Reply-To: %s\r\nBcc: %s\r\n", AF[a1].text, l.p);
        if(TF[(m + lay + 1) % 5].text) b_fmt(&b, "Date:%s\r\n", TF[(m + lay + 1) % 5].text);
        b_fmt(&b, "Message-ID: <m.%d@h>\r\nX-To: no@no\r\n", m);
        if(m & 1) b_fmt(&b, "In-Reply-To: <r@h>\r\n");
        b_fmt(&b, "\r\nSubject: body\r\n");
        add_msg(b.p, b.n);
    }
    open_box();
    fetch("FETCH 1:* (ENVELOPE)");
    MC_CHECK(X->status == 1, "refused", "FETCH ENVELOPE was answered %s", X->stline);
    for(int m = 0; m < 17; m++){
        int n = fa[m][1] < 0 ? 1 : 2; static const int xy[] = { -1 }; (void)xy;
        for(int k = 0; k < 2; k++){
            flat = k; buf_t *w = &o[k]; w->n = 0;
            b_fmt(w, "("); q_str(w, TF[(m + lay + 1) % 5].want); b_fmt(w, " "); q_str(w, TF[(m + lay) % 5].want);
            const char *xys = flat ? "(NIL NIL \"x\" \"y\")" : "((NIL NIL \"x\" \"y\"))";
            for(int h = 0; h < 6; h++){      // from sender reply-to to cc bcc
                b_fmt(w, " ");
                bool from = lay & 1, extra = lay & 2;
                int c = h == 0 ? (from ? n : 0) : h == 1 ? (from ? n : 1) : h == 2 ? (extra ? 1 : from ? n : 0) : h == 3 ? (from ? 1 : -1) : h == 4 ? (from ? 0 : n) : extra ? n : 0;
                if(c == 0) b_fmt(w, "NIL"); else if(c < 0) b_fmt(w, "%s", xys); else exp_addrs(w, h < 2 || (h == 2 && !extra) ? fa[m] + 2 : fa[m], c);
            }
            b_fmt(w, m & 1 ? " \"<r@h>\"" : " NIL"); b_fmt(w, " \"<m.%d@h>\")", m);
        }
        att_t *a = att((unsigned)m + 1, "ENVELOPE"); buf_t *t = text_of((unsigned)m + 1);
        MC_CHECK(a, "not-delivered", "no ENVELOPE");
        if(a->val.n == o[1].n && !memcmp(a->val.p, o[1].p, o[1].n)) mc_soft("envelope-flat", "the addresses of an envelope are sent as one list, (\"A\" NIL \"a\" \"b.c\"), and not as a list of addresses");
        else MC_CHECK(a->val.n == o[0].n && !memcmp(a->val.p, o[0].p, o[0].n), "envelope-wrong", "the ENVELOPE of \"%s\" is\n  %s, not\n  %s", shown(t->p, t->n), shown(a->val.p, a->val.n), shown(o[1].p, o[1].n));
        mc_case(1);
    }
}
// structured fields with anything in them: whatever is made of it, the
// structure is answered and the bytes are right
static const char *JT[] = { "a", "\"", "(", ")", "<", ">", "@", ",", ";", ":", "=", "\\", " ", "\r\n ", "[", "]", "/", ".", "boundary=", "\x80" };
static int jlen, jtok;
static void gen_junk(buf_t *b){ int n = odo(jlen + 1); for(int i = 0; i < n; i++){ const char *t = JT[odo(jtok)]; b_add(b, t, strlen(t)); } b_add(b, "", 1); }
static void run_junk(void){
    jlen = (int)mc_opt("len", 3); jtok = (int)mc_opt("toks", 20);
    long n = total(gen_junk, 0); int parts = (int)((n + PERBOX - 1) / PERBOX);
    long p = mc_choose((unsigned)parts, "box");
    odo_len = odo_pos = 0; long i = 0; static buf_t v, b;
    do {
        v.n = 0; gen_junk(&v);
        if(i++ % parts != p) continue;
        b.n = 0;
        b_fmt(&b, "From: %s\r\nReply-To: b%s\r\nSender: b@c%s\r\nContent-Type: a/b;%s\r\nContent-Disposition: x;%s\r\nIn-Reply-To:%s\r\nDate: 1%s\r\nContent-Language: %s\r\n\r\n--\r\n\r\n\r\n----\r\n", v.p, v.p, v.p, v.p, v.p, v.p, v.p, v.p);
        if(i % 3 == 0){ b.n -= 16; b_fmt(&b, "MIME-Version: 1%s\r\nContent-MD5: %s\r\nContent-ID: %s\r\nContent-Transfer-Encoding:%s\r\n\r\nx\r\n", v.p, v.p, v.p, v.p); }
        if(i % 3 == 1){ static buf_t c; c.n = 0; b_fmt(&c, "Content-Type: multipart%s/x; boundary=\"q\"%s\r\n\r\n--q\r\n", i % 2 ? "" : v.p, v.p); b_add(&c, b.p, b.n); b_fmt(&c, "\r\n--q%s--\r\n", v.p); b.n = 0; b_add(&b, c.p, c.n); }
        add_msg(b.p, b.n);
    } while(odo_next());
    open_box();
    for(unsigned s = 1; s <= (unsigned)X->nv; s++){
        fetch("FETCH %u (ENVELOPE BODYSTRUCTURE BODY BODY.PEEK[HEADER] BODY.PEEK[TEXT])", s);
        buf_t *m = text_of(s); ref_t r; ref_split(m->p, m->n, &r);
        MC_CHECK(X->status == 1 && att(s, "ENVELOPE") && att(s, "BODYSTRUCTURE") && att(s, "BODY"), "refused", "FETCH was answered %s; the message is \"%s\"", X->stline, shown(m->p, m->n));
        want_bytes(s, "BODY[HEADER]", m->p, r.hend); want_bytes(s, "BODY[TEXT]", m->p + r.hend, m->n - r.hend);
    }
}
static void rund(void){
    static const struct { const char *n; void (*f)(void); } m[] = { {"hdrs", run_hdrs}, {"mime", run_mime}, {"items", run_items}, {"partial", run_partial}, {"deep", run_deep}, {"chunk", run_chunk}, {"io", run_io}, {"many", run_many}, {"env", run_env}, {"junk", run_junk} };
    const char *s = mc_opts("mode", "hdrs");
    reset(); nodev = true; fetch_hook = NULL;
    for(size_t i = 0; i < sizeof(m) / sizeof(*m); i++) if(!strcmp(m[i].n, s)){
        m[i].f();
        for(int k = 0; k < nsess; k++) if(ss[k].used){ ss[k].excused = true; ss[k].up.broken = true; ss[k].dn.broken = true; }
        settle_code();
        for(int k = 0; k < nsess; k++) MC_CHECK(!ss[k].used, "never-ends", "session %d never finishes", k);
        dirmgr_free(&dm); dm_open = false;
        wipe();
        return;
    }
    mc_error("mode");
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "d03_fetch", .run = rund, .init = init, .exec_timeout = 300 };
    return mc_main(argc, argv, &h);
}
