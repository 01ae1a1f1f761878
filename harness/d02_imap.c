/* D01 and D02: texts from outside.
 * mode=corpus   golden texts with their meaning, every cut (and every pair)
 * mode=words    every keyword, with awkward neighbours, in every place where
 *               free words may stand
 * mode=starttls what follows STARTTLS is left to the TLS layer, every cut
 * mode=alter    every golden line with a byte removed, replaced or inserted,
 *               or cut short
 * mode=tokens   every sequence of tokens up to a depth
 * In the last two the reader is driven as a client would: a literal is only
 * sent when it was asked for. */
#include "d_imap.h"
#include "d_corpus.h"
#define NEL(x) (sizeof(x) / sizeof(*(x)))

/* ---- corpus ---- */
static void run_corpus(void){
    bool iscmd = mc_choose(2, "side") == 0;
    unsigned i = mc_choose(iscmd ? NEL(g_cmds) : NEL(g_resps), "text");
    const char *t = iscmd ? g_cmds[i].text : g_resps[i].text, *want = iscmd ? g_cmds[i].dump : g_resps[i].dump;
    bool f;
    size_t n = strlen(t);
    str_t got = iscmd ? read_cmds(t, n, NULL, 0, 2, &f) : read_resps(t, n, NULL, 0, 2, &f);
    if(strcmp(s_c(&got), want) && strstr(t, "* ALL") && strstr(want, "size") && !strstr(s_c(&got), "size"))
        mc_soft("fetch-all-without-size", "[%s] is read as %s, not as %s", t, s_c(&got), want);
    else if(strcmp(s_c(&got), want)) mc_fail("meaning", "[%s] is read as %s, not as %s", t, s_c(&got), want);
    check_cuts(iscmd, t, n, 2, &got, (int)mc_opt("cuts", 2));
    /* in a row with itself */
    if(!f){
        str_t two = {0}, w2 = {0};
        s_raw(&two, t, n); s_raw(&two, t, n);
        s_raw(&w2, got.b, got.n); s_raw(&w2, got.b, got.n);
        str_t g2 = iscmd ? read_cmds(two.b, two.n, NULL, 0, 2, &f) : read_resps(two.b, two.n, NULL, 0, 2, &f);
        if(!s_eq(&g2, &w2)) mc_fail("meaning", "[%s] is read as %s", two.b, s_c(&g2));
        check_cuts(iscmd, two.b, two.n, 2, &g2, 1);
        s_free(&two); s_free(&w2); s_free(&g2);
    }
    /* to the program's own users only IDLE is offered: a command which needs
       another extension is refused there, and no other is */
    if(iscmd && !f){
        static const char *const ext[] = { "CONDSTORE", "QRESYNC", "CHANGEDSINCE", "MODSEQ", "XKEYSYNC", "XKEYADD", "UID EXPUNGE" };
        bool need = false;
        for(unsigned k = 0; k < NEL(ext); k++) if(strstr(t, ext[k]) && !strstr(t, "ENABLE ")) need = true;
        str_t g3 = read_cmds(t, n, NULL, 0, 3, &f);
        if(f) mc_fail("failed", "[%s] ends the session of a user", t);
        if(!need && !s_eq(&g3, &got)) mc_fail("offered", "[%s] is read from a user as %s, not as %s", t, s_c(&g3), want);
        bool all = g3.n;
        for(const char *g4 = s_c(&g3); *g4; g4 = strchr(g4, '\n') + 1) if(strncmp(g4, "ERROR", 5) && strncmp(g4, "PLUS_REQ", 8)) all = false;
        if(need && !all)
            mc_fail("offered", "[%s] needs an extension which is not offered to users but is read as %s", t, s_c(&g3));
        s_free(&g3);
    }
    mc_case(n * n / 2);
    mc_outcome(mc_hash(1, t, n));
    s_free(&got);
}

/* ---- words ---- */
static const char *g_words[] = {
    "alert","all","answered","append","appenduid","apr","aug","authenticate","bad","bcc","before","bodystructure","body","bye","capability",
    "cc","changedsince","charset","check","closed","close","condstore","copy","copyuid","create","created","dec","deleted","delete","done",
    "draft","earlier","enabled","enable","envelope","examine","exists","expunge","fast","feb","fetch","fields","flagged","flags","from","full",
    "header","highestmodseq","idle","inbox","internaldate","jan","jul","jun","keyword","larger","list","login","logout","lsub","marked","mar",
    "may","messages","mime","modified","modseq","new","nil","noinferiors","nomodseq","noop","noselect","not","no","nov","oct","ok","old","on",
    "or","parse","peek","permanentflags","plain","preauth","priv","qresync","read-only","read-write","recent","rename","rfc822","search",
    "seen","select","sentbefore","senton","sentsince","sep","shared","silent","since","size","smaller","starttls","status","store","subject",
    "subscribe","text","to","trycreate","uidnext","uidnotsticky","uid","uidvalidity","unanswered","unchangedsince","undeleted","undraft",
    "unflagged","unkeyword","unmarked","unseen","unselect","unsubscribe","vanished","xkeysync","xkeyadd", "+", "-", "a", "1", "18446744073709551615", "literal",
    "uidplus", "expunged", "nill", "ni", "badcharset",
};
typedef struct { const char *text, *dump; char kind; } place_t;
/* $ is the word; kinds: s astring, t tag, a atom, f flag keyword, m mailbox,
   p pattern, x free text, c name of a code */
static const place_t g_places[] = {
    { "t LOGIN $ $\r\n", "LOGIN \"t\" \"$\" \"$\"\n", 's' },
    { "$ NOOP\r\n", "NOOP \"$\" \n", 't' },
    { "t CREATE $\r\n", "CREATE \"t\" $\n", 'm' },
    { "t RENAME $ $\r\n", "RENAME \"t\" $ $\n", 'm' },
    { "t STATUS $ (UNSEEN)\r\n", "STATUS \"t\" $ 16\n", 'm' },
    { "t LIST \"\" $\r\n", "LIST \"t\" \"\" \"$\"\n", 'p' },
    { "t LIST \"\" *$%\r\n", "LIST \"t\" \"\" \"*$%\"\n", 'p' },
    { "t SEARCH HEADER $ $ BODY $\r\n", "SEARCH \"t\" 0 NIL HEADER \"$\" \"$\" & BODY \"$\"\n", 's' },
    { "t SEARCH CHARSET $ KEYWORD x\r\n", "SEARCH \"t\" 0 \"$\" KEYWORD \"x\"\n", 's' },
    { "t SEARCH KEYWORD $ UNKEYWORD $\r\n", "SEARCH \"t\" 0 NIL KEYWORD \"$\" & UNKEYWORD \"$\"\n", 'a' },
    { "t STORE 1 FLAGS ($ \\Seen)\r\n", "STORE \"t\" 0 1:1 0 0 seen kw(\"$\") ext()\n", 'a' },
    { "t STORE 1 FLAGS (\\$)\r\n", "STORE \"t\" 0 1:1 0 0 kw() ext(\"$\")\n", 'f' },
    { "t FETCH 1 BODY[HEADER.FIELDS ($ $)]\r\n", "FETCH \"t\" 0 1:1 {B[FIELDS(\"$\" \"$\")] }\n", 's' },
    { "t ENABLE $\r\n", "ENABLE \"t\" (\"$\")\n", 'a' },
    { "t COPY 1 $\r\n", "COPY \"t\" 0 1:1 $\n", 'm' },
    { "t APPEND $ ($) {0}\r\n\r\n", "PLUS_REQ NIL NIL\nAPPEND \"t\" $ kw(\"$\") ext()  \"\"\n", 'b' },
    /* responses */
    { "* LIST () \"/\" $\r\n", "LIST sel0 () 2f $\n", 'M' },
    { "* LIST () NIL $\r\n", "LIST sel0 () 00 $\n", 'M' },
    { "* STATUS $ (UNSEEN 1)\r\n", "STATUS $ 16 u1\n", 'M' },
    { "* CAPABILITY $ IMAP4rev1\r\n", "CAPA (\"$\" \"IMAP4rev1\")\n", 'A' },
    { "* ENABLED $\r\n", "ENABLED (\"$\")\n", 'A' },
    { "* FLAGS ($)\r\n", "FLAGS  kw(\"$\") ext()\n", 'A' },
    { "* 1 FETCH (FLAGS ($) UID 2)\r\n", "FETCH 1 flags kw(\"$\") ext() uid2\n", 'A' },
    { "* OK $\r\n", "ST NIL 0 nocode \"$\"\n", 'X' },
    { "* NO x $ y\r\n", "ST NIL 1 nocode \"x $ y\"\n", 'X' },
    { "* BAD [alert] $\r\n", "ST NIL 2 [ALERT] \"$\"\n", 'X' },
    { "+ $\r\n", "PLUS nocode \"$\"\n", 'X' },
    { "$ OK done\r\n", "ST \"$\" 0 nocode \"done\"\n", 'T' },
    { "* OK [X$ $] z\r\n", "ST NIL 0 [ATOM \"X$\" \"$\"] \"z\"\n", 'C' },
    { "* OK [PERMANENTFLAGS ($ \\*)] z\r\n", "ST NIL 0 [PERMFLAGS kw(\"$\") ext() *] \"z\"\n", 'A' },
    { "* LIST (\\$) \"/\" a\r\n", "LIST sel0 (\"$\") 2f \"a\"\n", 'F' },
};
static void subst(str_t *o, const char *t, const char *w, const char *m){
    for(; *t; t++){ if(*t == '$') s_f(o, "%s", w); else if(*t == '~') s_f(o, "%s", m); else s_raw(o, t, 1); }
}
static bool is_word(const char *w, const char *const *l){ for(; *l; l++) if(!strcasecmp(w, *l)) return true; return false; }
static void run_words(void){
    const place_t *p = &g_places[mc_choose(NEL(g_places), "place")];
    const char *base = g_words[mc_choose(NEL(g_words), "word")];
    bool iscmd = p->kind >= 'a';
    char k = (char)(p->kind | 32);
    static const char *const suf[] = { "", "x", "1", ".", ".x", "-", "-1", ":", ",", "=", "]", "+", "+1", "<", ">", "[", "}", "@", ";", "?", "/", "1x", "~", ".[x]", "x*%", "{3}", " (" };
    static const char *const pre[] = { "", "x", "1", "-", ".", "a-", "[", "]", "\\" };
    static const char *const sysf[] = { "answered", "flagged", "deleted", "seen", "draft", "recent", "noselect", "marked", "unmarked", "noinferiors", NULL };
    uint64_t cases = 0;
    for(unsigned i = 0; i < NEL(suf); i++) for(unsigned j = 0; j < NEL(pre); j++) for(unsigned up = 0; up < 2; up++){
        char w[80], q[100];
        snprintf(w, sizeof(w), "%s%s%s", pre[j], base, suf[i]);
        if(up) for(char *c = w; *c; c++) if(*c >= 'a' && *c <= 'z') *c = (char)(*c - 32);
        bool rsq = strchr(w, ']'), lst = strchr(w, '*'), spc = strchr(w, ' '), brc = strchr(w, '{'), bs = strchr(w, '\\'), plus = strchr(w, '+');
        bool lsq = w[0] == '[';
        if(k != 'x' && k != 'c' && (spc || brc || bs)) continue;
        if(k != 'x' && k != 'c' && k != 'p' && lst) continue;
        if((k == 'a' || k == 'f' || k == 'b' || k == 'c') && rsq) continue;
        if(k == 't' && plus) continue;
        if(k == 't' && !iscmd && !strcmp(w, "*")) continue;
        if(k == 'f' && is_word(w, sysf)) continue;
        if(k == 'x' && lsq) continue;
        if(k == 'c' && (spc || brc || bs || lst)) continue;
        if(k == 's' && is_word("charset", (const char *const[]){ NULL })) continue;
        /* meaning of a mailbox name */
        if(!strcasecmp(w, "inbox")) snprintf(q, sizeof(q), "INBOX");
        else{
            char v[80];
            snprintf(v, sizeof(v), "%s", w);
            if(!strncasecmp(v, "inbox/", 6)) memcpy(v, "INBOX", 5);
            snprintf(q, sizeof(q), "\"%s\"", v);
        }
        str_t t = {0}, want = {0}, wq = {0};
        subst(&t, p->text, w, "");
        if(k == 'm' || (k == 'b')){
            /* mailboxes are shown quoted, or as INBOX */
            bool first = true;
            for(const char *c = p->dump; *c; c++){
                if(*c == '$' && (k == 'm' || first)){ s_f(&want, "%s", q); first = false; }
                else if(*c == '$') s_f(&want, "%s", w);
                else s_raw(&want, c, 1);
            }
        }else{
            for(const char *c = p->dump; *c; c++){
                if(*c != '$'){ s_raw(&want, c, 1); continue; }
                for(const char *x = w; *x; x++) if(*x == '\\' || *x == '"') s_f(&want, "\\%02x", *x); else s_raw(&want, x, 1);
            }
        }
        bool f;
        str_t got = iscmd ? read_cmds(t.b, t.n, NULL, 0, 2, &f) : read_resps(t.b, t.n, NULL, 0, 2, &f);
        if(!s_eq(&got, &want)){
            /* a known defect: an unknown flag which begins like a known one */
            bool sf = false;
            if(k == 'f') for(const char *const *y = sysf; *y; y++){
                size_t yl = strlen(*y);
                if(!strncasecmp(w, *y, yl) && w[yl] && strchr("0123456789.-:,=+<>@;?[}", w[yl])) sf = true;
            }
            if(sf) mc_soft("flag-begins-like-system-flag", "[%s] is read as %s, not as %s", t.b, s_c(&got), s_c(&want));
            else mc_fail("meaning", "[%s] is read as %s, not as %s", t.b, s_c(&got), s_c(&want));
        }
        if(!up && j < 3) check_cuts(iscmd, t.b, t.n, 2, &got, (int)mc_opt("cuts", 0));
        cases++;
        mc_outcome(mc_hash(1, t.b, t.n));
        s_free(&t); s_free(&want); s_free(&wq); s_free(&got);
    }
    mc_case(cases);
}

/* ---- STARTTLS ---- */
static void run_starttls(void){
    static const char *const lines[] = { "t STARTTLS\r\n", "t starttls\n", "a NOOP\r\nb CAPABILITY\r\nt STARTTLS\r\n", "a LOGIN {1}\r\na {0}\r\n\r\nt STARTTLS\r\n", "x y\r\nSTARTTLS STARTTLS\r\n" };
    static const unsigned ncmds[] = { 1, 1, 3, 4, 2 };
    static const char *const after[] = { "", "\x16\x03\x01", "b NOOP\r\n", "\r\n", "\n", "\"", "{5}\r\n", "unchangedsinc", "c STARTTLS\r\n", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" };
    unsigned li = mc_choose(NEL(lines), "line");
    const char *l = lines[li], *af = after[mc_choose(NEL(after), "after")];
    str_t t = {0};
    s_raw(&t, l, strlen(l)); s_raw(&t, af, strlen(af));
    size_t end = strlen(l);
    uint64_t k = 0;
    for(size_t a = 1; a <= end; a++) for(size_t b = a; b <= end; b++){
        size_t cut[3] = { a, b, t.n }, at = 0;
        extensions_t x = exts_of(1);
        imap_cmd_reader_t r;
        derr_t e = imap_cmd_reader_init(&r, &x);
        if(is_error(e)) mc_error("init");
        unsigned n = 0;
        bool found = false;
        char tagc[8] = "";
        for(int i = 0; i < 3 && !found; i++){
            if(cut[i] <= at) continue;
            link_t out = {0}, *lk;
            size_t skip = SIZE_MAX;
            e = imap_cmd_read_starttls(&r, guarded(t.b + at, cut[i] - at), &out, &skip);
            if(is_error(e)) mc_fail("starttls", "[%s] cut at %zu, %zu: %s", t.b, a, b, error_to_dstr(e.type).data);
            while((lk = link_list_pop_first(&out))){
                imap_cmd_t *c = CONTAINER_OF(lk, imap_cmd_t, link);
                if(c->type != IMAP_CMD_PLUS_REQ) n++;
                else n += 0;
                if(c->type == IMAP_CMD_STARTTLS) snprintf(tagc, sizeof(tagc), "%.*s", (int)c->tag->dstr.len, c->tag->dstr.data);
                imap_cmd_free(c);
            }
            if(skip != SIZE_MAX){
                found = true;
                if(at + skip != end) mc_fail("starttls", "[%s] cut at %zu, %zu: TLS would begin at %zu, not at %zu", t.b, a, b, at + skip, end);
            }
            at = cut[i];
        }
        if(!found) mc_fail("starttls", "[%s] cut at %zu, %zu: STARTTLS was not seen", t.b, a, b);
        (void)ncmds;
        imap_cmd_reader_free(&r);
        k++;
    }
    mc_case(k);
    mc_outcome(mc_hash(1, t.b, t.n));
    s_free(&t);
}

/* ---- alterations and token sequences ---- */
typedef struct { bool iscmd; imap_cmd_reader_t c; imap_resp_reader_t r; extensions_t x; str_t out; unsigned n; bool failed; bool plus; } rd_t;
static void rd_open(rd_t *r, bool iscmd, int on){
    *r = (rd_t){ .iscmd = iscmd, .x = exts_of(on) };
    derr_t e = iscmd ? imap_cmd_reader_init(&r->c, &r->x) : imap_resp_reader_init(&r->r, &r->x);
    if(is_error(e)) mc_error("init");
}
static void rd_close(rd_t *r){
    if(r->iscmd) imap_cmd_reader_free(&r->c); else imap_resp_reader_free(&r->r);
    s_free(&r->out);
}
static void reprint(bool iscmd, const void *o){
    /* what was read and can be written means the same when it is read again */
    extensions_t x = exts_of(2);
    dstr_t d = {0};
    derr_t e = iscmd ? imap_cmd_print(o, &d, &x) : imap_resp_print(o, &d, &x);
    if(is_error(e)){ DROP_VAR(&e); dstr_free(&d); return; }
    str_t want = {0}, t = {0}, got, g2 = {0};
    bool f;
    if(iscmd) d_cmd(&want, o); else d_resp(&want, o);
    if(iscmd) t = unplus(d.data, d.len); else s_raw(&t, d.data, d.len);
    got = iscmd ? read_cmds(t.b, t.n, NULL, 0, 2, &f) : read_resps(t.b, t.n, NULL, 0, 2, &f);
    if(iscmd) for(char *p = got.b, *q; p && p < got.b + got.n; p = q){
        q = memchr(p, '\n', (size_t)(got.b + got.n - p));
        q = q ? q + 1 : got.b + got.n;
        if(strncmp(p, "PLUS_REQ", 8)) s_raw(&g2, p, (size_t)(q - p));
    }else s_raw(&g2, got.b, got.n);
    /* (the reader lets 8-bit atoms pass, but there is no way to write them) */
    bool eight = false;
    for(size_t i = 0; i + 1 < want.n; i++) if(want.b[i] == '\\' && strchr("89abcdef", want.b[i+1])) eight = true;
    if(!s_eq(&g2, &want) && !eight) mc_fail("reprint", "%s was read, is written as [%s] and then read as %s", s_c(&want), s_c(&t), s_c(&g2));
    s_free(&want); s_free(&t); s_free(&got); s_free(&g2);
    dstr_free(&d);
}
static bool o_reprint;
static unsigned rd_feed(rd_t *r, const char *t, size_t len){
    link_t l = {0}, *lk;
    unsigned n = 0;
    r->plus = false;
    derr_t e = r->iscmd ? imap_cmd_read(&r->c, guarded(t, len), &l) : imap_resp_read(&r->r, guarded(t, len), &l);
    while((lk = link_list_pop_first(&l))){
        n++;
        if(r->iscmd){
            imap_cmd_t *c = CONTAINER_OF(lk, imap_cmd_t, link);
            d_cmd(&r->out, c);
            r->plus = c->type == IMAP_CMD_PLUS_REQ && !c->arg.plus;
            if(o_reprint && c->tag && c->type != IMAP_CMD_ERROR && c->type != IMAP_CMD_PLUS_REQ && c->type != IMAP_CMD_IDLE && c->type != IMAP_CMD_IDLE_DONE && c->type != IMAP_CMD_XKEYSYNC && c->type != IMAP_CMD_XKEYSYNC_DONE) reprint(true, c);
            imap_cmd_free(c);
        }else{
            imap_resp_t *c = CONTAINER_OF(lk, imap_resp_t, link);
            d_resp(&r->out, c);
            if(o_reprint) reprint(false, c);
            imap_resp_free(c);
        }
    }
    if(is_error(e)){
        s_f(&r->out, "!%s\n", error_to_dstr(e.type).data);
        DROP_VAR(&e);
        r->failed = true;
    }
    r->n += n;
    return n;
}
/* does the line end with {digits}CRLF (or LF)? */
static bool lit_at_end(const char *t, size_t n, size_t *v){
    if(!n || t[n-1] != '\n') return false;
    n--;
    if(n && t[n-1] == '\r') n--;
    if(!n || t[n-1] != '}') return false;
    n--;
    size_t d = n;
    while(d && t[d-1] >= '0' && t[d-1] <= '9') d--;
    if(d == n || !d || t[d-1] != '{') return false;
    if(n - d > 9) return false;
    *v = (size_t)strtoul(t + d, NULL, 10);
    return true;
}
/* drives the reader line by line; 'sent' is what was sent altogether */
static void converse_cmd(const char *t, size_t n, int on){
    rd_t r;
    rd_open(&r, true, on);
    str_t sent = {0}, all = {0};
    s_raw(&all, t, n);
    /* enough to end whatever was begun, then a command which must come through */
    static const char probes[] = "T2 NOOP\r\nT3 NOOP\r\nT4 NOOP\r\n";
    s_raw(&all, probes, sizeof(probes) - 1);
    size_t at = 0;
    while(at < all.n){
        char *nl = memchr(all.b + at, '\n', all.n - at);
        if(!nl) mc_error("no line end");
        size_t len = (size_t)(nl - (all.b + at)) + 1, v = 0;
        unsigned k = rd_feed(&r, all.b + at, len);
        s_raw(&sent, all.b + at, len);
        if(r.failed) mc_fail("failed", "[%s] ended the session: %s", s_c(&sent), s_c(&r.out));
        if(k != 1) mc_fail("answers", "%u results for the last line of [%s]: %s", k, s_c(&sent), s_c(&r.out));
        if(r.plus){
            if(!lit_at_end(all.b + at, len, &v)) mc_fail("literal", "a literal is asked for after [%s]", s_c(&sent));
            at += len;
            if(v > 4096) break; /* nothing to be said without sending it */
            /* the literal; filled up with something harmless */
            size_t have = all.n - at - (sizeof(probes) - 1), take = v < have ? v : have;
            if(at > all.n - (sizeof(probes) - 1)) take = 0;
            str_t lit = {0};
            s_raw(&lit, all.b + at, take);
            while(lit.n < v) s_raw(&lit, "x", 1);
            if(v){
                k = rd_feed(&r, lit.b, v);
                s_raw(&sent, lit.b, v);
                if(r.failed || k) mc_fail("answers", "%u results inside of a literal: [%s]", k, s_c(&sent));
            }
            s_free(&lit);
            at += take;
            /* the rest of the line follows, or the first probe does: then the
               command ends with an error there */
            continue;
        }
        at += len;
    }
    if(at >= all.n){
        static const char last[] = "NOOP \"T4\" \n";
        size_t ll = sizeof(last) - 1;
        if(r.out.n < ll || memcmp(r.out.b + r.out.n - ll, last, ll)) mc_fail("stalled", "T4 NOOP does not come through after [%s]: %s", s_c(&sent), s_c(&r.out));
        o_reprint = false;
        bool f;
        str_t g = read_cmds(sent.b, sent.n, NULL, 0, on, &f);
        if(on != 3){
            if(!same_read(&g, &r.out)) mc_fail("cuts", "[%s] is read line by line as %s, at once as %s", s_c(&sent), s_c(&r.out), s_c(&g));
            if(sent.n < 512) check_cuts(true, sent.b, sent.n, on, &g, (int)mc_opt("cuts", 1));
        }
        s_free(&g);
    }
    mc_outcome(mc_hash(1, r.out.b, r.out.n));
    s_free(&sent); s_free(&all);
    rd_close(&r);
}
static void converse_resp(const char *t, size_t n, int on){
    rd_t r;
    rd_open(&r, false, on);
    str_t all = {0}, sent = {0};
    s_raw(&all, t, n);
    s_raw(&all, "T2 OK x\r\nT3 OK x\r\n", 18);
    size_t at = 0;
    while(at < all.n && !r.failed){
        char *nl = memchr(all.b + at, '\n', all.n - at);
        if(!nl) mc_error("no line end");
        size_t len = (size_t)(nl - (all.b + at)) + 1, v = 0;
        unsigned k = rd_feed(&r, all.b + at, len);
        s_raw(&sent, all.b + at, len);
        bool lit = lit_at_end(all.b + at, len, &v);
        if(!r.failed && k != 1 && !(k == 0 && lit)) mc_fail("answers", "%u results for the last line of [%s]: %s", k, s_c(&sent), s_c(&r.out));
        at += len;
        if(!r.failed && k == 0){
            if(v > 4096) break;
            str_t l = {0};
            size_t take = v < all.n - at ? v : all.n - at;
            s_raw(&l, all.b + at, take);
            while(l.n < v) s_raw(&l, "x", 1);
            if(v){
                k = rd_feed(&r, l.b, v);
                s_raw(&sent, l.b, v);
                if(k) mc_fail("answers", "%u results inside of a literal: [%s]", k, s_c(&sent));
            }
            s_free(&l);
            at += take;
            if(at >= all.n) s_raw(&all, "\r\n", 2);
        }
    }
    o_reprint = false;
    bool f;
    str_t g = read_resps(sent.b, sent.n, NULL, 0, on, &f);
    if(!same_read(&g, &r.out)) mc_fail("cuts", "[%s] is read line by line as %s, at once as %s", s_c(&sent), s_c(&r.out), s_c(&g));
    if(sent.n < 512) check_cuts(false, sent.b, sent.n, on, &g, (int)mc_opt("cuts", 1));
    s_free(&g);
    mc_outcome(mc_hash(1, r.out.b, r.out.n));
    s_free(&sent); s_free(&all);
    rd_close(&r);
}
static const struct { const char *p; size_t n; } g_tok[] = {
#define T_(x) { x, sizeof(x) - 1 }
    T_(" "), T_("a"), T_("1"), T_("\""), T_("\\"), T_("("), T_(")"), T_("{"), T_("}"), T_("{1}\r\n"), T_("\r\n"), T_("\n"), T_("\r"),
    T_("*"), T_(","), T_(":"), T_("["), T_("]"), T_("."), T_("\0"), T_("\x80"), T_("\x01"), T_("+"), T_("-"), T_("<"), T_(">"), T_("="), T_("%"),
    T_("NIL"), T_("INBOX"), T_("0"), T_("4294967296"), T_("{2+}\r\n"), T_("{0}\r\n"), T_("\\Seen"), T_("DONE"), T_("\r\nx "), T_("UNCHANGEDSINCE"), T_("ni"),
    T_("\\\\"), T_("xxxxxxxxxxxxx\\"),
};
#define NTOK NEL(g_tok)
static void run_alter(void){
    bool iscmd = mc_choose(2, "side") == 0;
    unsigned i = mc_choose(iscmd ? NEL(g_cmds) : NEL(g_resps), "text");
    const char *t = iscmd ? g_cmds[i].text : g_resps[i].text;
    size_t n = strlen(t);
    unsigned pos = mc_choose((unsigned)n + 1, "position");
    uint64_t cases = 0;
    unsigned ntok = (unsigned)mc_opt("ntok", NTOK);
    for(unsigned how = 0; how < 2 + 2 * ntok; how++){
        str_t a = {0};
        s_raw(&a, t, pos);
        if(how == 0){ if(pos >= n) continue; s_raw(&a, t + pos + 1, n - pos - 1); } /* one byte less */
        else if(how == 1){ s_raw(&a, "\r\n", 2); }                                     /* cut short */
        else if(how < 2 + ntok){ s_raw(&a, g_tok[how-2].p, g_tok[how-2].n); s_raw(&a, t + pos, n - pos); }
        else{ if(pos >= n) continue; unsigned k = how - 2 - ntok; s_raw(&a, g_tok[k].p, g_tok[k].n); s_raw(&a, t + pos + 1, n - pos - 1); }
        if(!a.n || a.b[a.n-1] != '\n') s_raw(&a, "\r\n", 2);
        o_reprint = true;
        (iscmd ? converse_cmd : converse_resp)(a.b, a.n, 2);
        if(iscmd && how < 2){ o_reprint = true; converse_cmd(a.b, a.n, 3); }
        cases++;
        s_free(&a);
    }
    mc_case(cases);
}
static void run_tokens(void){
    static const char *const first[] = { "t", "t ", "", "t LOGIN ", "t SELECT ", "t LIST ", "t STATUS ", "t STATUS a ", "t APPEND ", "t APPEND a ", "t SEARCH ", "t FETCH ", "t FETCH 1 ",
        "t FETCH 1 BODY", "t FETCH 1 BODY[", "t STORE 1 ", "t STORE 1 FLAGS ", "t COPY ", "t UID ", "t AUTHENTICATE ", "t AUTHENTICATE PLAIN\r\n", "t IDLE", "t IDLE\r\n",
        "t XKEYSYNC ", "t ENABLE ", "t XKEYADD " };
    static const char *const rfirst[] = { "", "* ", "* OK ", "* OK [", "* OK [PERMANENTFLAGS ", "* LIST ", "* LIST () ", "* STATUS ", "* STATUS a ", "* FLAGS ", "* SEARCH ", "* 1 ", "* 1 FETCH ",
        "* 1 FETCH (", "* 1 FETCH (BODY", "* 1 FETCH (RFC822 ", "* VANISHED ", "+ ", "+", "* CAPABILITY ", "* OK [UIDNEXT", "t OK ", "* XKEYSYNC ", "* XKEYSYNC CREATED " };
    bool iscmd = mc_choose(2, "side") == 0;
    unsigned depth = (unsigned)mc_opt("depth", 2);
    const char *f = iscmd ? first[mc_choose(NEL(first), "first")] : rfirst[mc_choose(NEL(rfirst), "first")];
    unsigned one = mc_choose(NTOK, "token"), tk[4];
    uint64_t cases = 0, tot = 1;
    for(unsigned i = 1; i < depth; i++) tot *= NTOK;
    for(uint64_t c = 0; c < tot; c++){
        tk[0] = one;
        uint64_t x = c;
        for(unsigned i = 1; i < depth; i++){ tk[i] = (unsigned)(x % NTOK); x /= NTOK; }
        str_t a = {0};
        s_raw(&a, f, strlen(f));
        for(unsigned i = 0; i < depth; i++) s_raw(&a, g_tok[tk[i]].p, g_tok[tk[i]].n);
        s_raw(&a, "\r\n", 2);
        o_reprint = true;
        (iscmd ? converse_cmd : converse_resp)(a.b, a.n, 2);
        cases++;
        s_free(&a);
    }
    mc_case(cases);
}
static void run(void){
    const char *m = mc_opts("mode", "corpus");
    if(!strcmp(m, "corpus")) run_corpus();
    else if(!strcmp(m, "words")) run_words();
    else if(!strcmp(m, "starttls")) run_starttls();
    else if(!strcmp(m, "alter")) run_alter();
    else if(!strcmp(m, "tokens")) run_tokens();
    else mc_error("mode");
}
static const mc_harness_t H = { .name = "d02_imap", .init = feed_init, .run = run, .exec_timeout = 300 };
int main(int argc, char **argv){ return mc_main(argc, argv, &H); }
