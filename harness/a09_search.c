#define A_MAIL_LIB
#pragma GCC diagnostic ignored "-Wformat-overflow"
#pragma GCC diagnostic ignored "-Wunused-function"
// A09: SEARCH and message sets, end to end: a client sends every command of a
// bounded family to a mailbox with a fixed set of messages; what it is answered
// is compared with an independent reading of the messages' texts.
#include "harness/a_mail.c"

static sess_t *X;
static int PART, PARTS = 64;
static uint64_t ALL;            // all messages of the mailbox, by sequence number - 1

// ------------------------------------------------------------ the world
static void add_msg(const char *text, size_t n, unsigned fl, const char *date){
    int c = new_content(false);
    conts[c].body.n = conts[c].plain.n = 0;
    b_add(&conts[c].body, text, n); b_add(&conts[c].plain, text, n);
    if(date) snprintf(conts[c].date, sizeof(conts[c].date), "%s", date);
    mb_add(0, c, fl);
}
// the client selects; the messages of drop are expunged (gaps in the UIDs)
static void open_box(uint64_t drop, bool examine){
    nodev = true;
    connect_sess(); X = &ss[nsess-1];
    run_world(NULL);
    step((act_t){ examine ? 'e' : 's', X->id, 0 });
    if(!live(X) || X->mbox < 0) mc_fail("select", "cannot open the mailbox");
    if(drop){
        for(int i = mb[0].n - 1; i >= 0; i--) if(drop >> mb[0].m[i].content & 1) mb_del(0, i);
        step((act_t){ 'N', X->id, 0 });
        step((act_t){ 'N', X->id, 0 });
    }
    MC_CHECK(X->nv == mb[0].n, "view", "the client sees %d of %d messages", X->nv, mb[0].n);
    ALL = X->nv ? ~0ull >> (64 - X->nv) : 0;
}
// a command with literals: everything is sent at once, '+' is ignored
static buf_t cmdline;
static const char *shown(const char *p, size_t n){
    static char o[3][700]; static int k; char *q = o[k = (k + 1) % 3], *s = q;
    for(size_t i = 0; i < n && q < s + 600; i++){ unsigned char c = (unsigned char)p[i]; if(c < 32 || c > 126) q += sprintf(q, "<%02x>", c); else *q++ = (char)c; }
    *q = 0; return s;
}
static bool israw; static char want_store; static bool deep_ok;
static void command(cop_e op, const char *p, size_t n){
    b_free(&cmdline); b_add(&cmdline, p, n);
    stepno = 0; neffs = nints = 0;
    X->op = op; X->status = 0; X->fetchcount = 0; X->gotsearch = false; X->nsearch = 0; X->intent = -1;
    // (which messages it may change is checked by the caller)
    if(op == OP_STORE || op == OP_COPY){
        intent_t *in = &ints[add_intent(X, op == OP_STORE ? IN_STORE : IN_COPY)];
        in->sign = want_store; in->fl = F_FLAG; in->dst = 1;
        for(int i = 0; i < X->nv; i++) in->cont[in->ncont++] = X->v[i].content;
    }
    for(int i = 0; i < X->nv; i++) X->v[i].fetched = false;
    snprintf(X->tag, sizeof(X->tag), "a%d", ++X->ncmd % 100000);
    T("    C %s %s", X->tag, shown(p, n));
    b_fmt(&X->dn.in, "%s ", X->tag); b_add(&X->dn.in, p, n); b_add(&X->dn.in, "\r\n", 2);
    israw = true;
    run_world(NULL);
    israw = false;
    MC_CHECK((deep_ok && !X->used) || idle_client(X), "no-completion", "\"%s\" is not answered", shown(p, n));
}
// SEARCH; the answer as a set of sequence numbers
static bool search(bool uid, const char *key, size_t n, uint64_t *out){
    static buf_t b; b.n = 0;
    b_fmt(&b, "%sSEARCH ", uid ? "UID " : ""); b_add(&b, key, n);
    X->uidmode = uid;
    command(OP_SEARCH, b.p, b.n);
    *out = 0;
    if(X->status != 1) return false;
    MC_CHECK(X->gotsearch, "no-search", "\"%s\" was answered OK without a SEARCH response", shown(b.p, b.n));
    for(int i = 0; i < X->nsearch; i++){
        unsigned v = X->searchres[i], s = 0;
        if(!uid) s = v;
        else for(int k = 0; k < X->nv; k++) if(X->v[k].uid == v) s = (unsigned)k + 1;
        MC_CHECK(s >= 1 && s <= (unsigned)X->nv, "search-unknown", "\"%s\" found message %u, which does not exist", shown(b.p, b.n), v);
        MC_CHECK(!(*out >> (s-1) & 1), "search-twice", "\"%s\" found message %u twice", shown(b.p, b.n), v);
        *out |= 1ull << (s-1);
    }
    return true;
}
static const char *bits(uint64_t m){
    static char o[4][300]; static int k; char *q = o[k = (k + 1) % 4], *s = q; *q = 0;
    for(int i = 0; i < 64; i++) if(m >> i & 1) q += sprintf(q, " %d", i + 1);
    return *s ? s : " nothing";
}
static void expect(bool uid, const char *key, size_t n, uint64_t want){
    uint64_t got;
    bool ok = search(uid, key, n, &got);
    MC_CHECK(ok, "search-refused", "SEARCH %s was answered %s", shown(key, n), X->stline);
    MC_CHECK(got == want, "search-wrong", "SEARCH %s found%s, but it should have found%s", shown(key, n), bits(got), bits(want));
    mc_outcome(want * 2 + uid);
    mc_case(1);
}
static bool mine(long i){ return (int)(i % PARTS) == PART; }

// ------------------------------------------------- reading a message's text
static int ci(int c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool contains(const char *h, size_t hn, const char *p, size_t n){
    for(size_t i = 0; i + n <= hn; i++){
        size_t k = 0;
        while(k < n && ci((unsigned char)h[i+k]) == ci((unsigned char)p[k])) k++;
        if(k == n) return true;
    }
    return false;
}
// calls f for each header field
typedef struct { const char *name; size_t nn; const char *val; size_t vn; } fld_t;
static int fields(const char *p, size_t n, fld_t *f, size_t *body){
    int k = 0; size_t i = 0;
    while(i < n){
        if(p[i] == '\r' && i + 1 < n && p[i+1] == '\n'){ i += 2; break; }
        size_t e = i;
        for(;;){
            while(e < n && p[e] != '\n') e++;
            if(e < n) e++;
            if(e >= n || (p[e] != ' ' && p[e] != '\t')) break;
        }
        const char *c = memchr(p + i, ':', e - i);
        if(c){
            size_t ve = e; while(ve && (p[ve-1] == '\n' || p[ve-1] == '\r')) ve--;
            size_t vs = (size_t)(c - p) + 1; if(ve < vs) ve = vs;
            f[k++] = (fld_t){ p + i, (size_t)(c - p) - i, p + vs, ve - vs };
        }
        i = e;
    }
    *body = i;
    return k;
}
static uint64_t with_header(const char *name, const char *s, size_t n){
    uint64_t m = 0; size_t nl = strlen(name);
    for(int i = 0; i < X->nv; i++){
        buf_t *b = &conts[X->v[i].content].plain; fld_t f[32]; size_t body;
        int k = fields(b->p, b->n, f, &body);
        for(int j = 0; j < k; j++) if(f[j].nn == nl && !strncasecmp(f[j].name, name, nl) && contains(f[j].val, f[j].vn, s, n)) m |= 1ull << i;
    }
    return m;
}
static uint64_t with_text(bool bodyonly, const char *s, size_t n){
    uint64_t m = 0;
    for(int i = 0; i < X->nv; i++){
        buf_t *b = &conts[X->v[i].content].plain; fld_t f[32]; size_t body;
        fields(b->p, b->n, f, &body);
        size_t from = bodyonly ? body : 0;
        if(contains(b->p + from, b->n - from, s, n)) m |= 1ull << i;
    }
    return m;
}
static const char *MON[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static int datenum(const char *p, size_t n){   // the first "D Mon YYYY" or "D-Mon-YYYY"
    for(size_t i = 0; i + 4 < n; i++) for(int m = 0; m < 12; m++) if(!strncasecmp(p + i, MON[m], 3)){
        size_t j = i; while(j && (p[j-1] == ' ' || p[j-1] == '-')) j--;
        int d = 0, mul = 1; while(j && isdigit((unsigned char)p[j-1])){ d += mul * (p[j-1] - '0'); mul *= 10; j--; }
        int y = atoi(p + i + 4);
        if(d && y) return y * 10000 + (m + 1) * 100 + d;
    }
    return 0;
}
static uint64_t with_date(bool sent, int how, int d){     // how: -1 before, 0 on, 1 since
    uint64_t m = 0;
    for(int i = 0; i < X->nv; i++){
        content_t *c = &conts[X->v[i].content]; int t = 0;
        if(!sent) t = datenum(c->date, strlen(c->date));
        else{
            fld_t f[32]; size_t body; int k = fields(c->plain.p, c->plain.n, f, &body);
            for(int j = 0; j < k && !t; j++) if(f[j].nn == 4 && !strncasecmp(f[j].name, "Date", 4)) t = datenum(f[j].val, f[j].vn);
            if(!t) continue;
        }
        if(how < 0 ? t < d : how > 0 ? t >= d : t == d) m |= 1ull << i;
    }
    return m;
}
static uint64_t with_flag(unsigned fl){
    uint64_t m = 0;
    for(int i = 0; i < X->nv; i++){ int k = mb_find_content(0, X->v[i].content); if(mb[0].m[k].fl & fl) m |= 1ull << i; }
    return m;
}
static uint64_t with_size(int how, unsigned s){
    uint64_t m = 0;
    for(int i = 0; i < X->nv; i++){ size_t n = conts[X->v[i].content].plain.n; if(how > 0 ? n > s : n < s) m |= 1ull << i; }
    return m;
}

// ------------------------------------------------------------ message sets
// elements: numbers, "*", ranges
static const char *TOK_SEQ[] = { "1", "2", "3", "5", "6", "7", "*", "4294967295" };
static const char *TOK_UID[] = { "1", "2", "3", "4", "6", "8", "*", "9", "4294967295" };
static const char **toks; static int ntok;
static long nelem(void){ return ntok + ntok * ntok; }
static void elem(long e, char *o){
    if(e < ntok) strcpy(o, toks[e]);
    else{ e -= ntok; sprintf(o, "%s:%s", toks[e / ntok], toks[e % ntok]); }
}
static uint64_t set_mask(const char *set, bool uid, bool *toobig){
    uint64_t m = 0; unsigned max = X->nv ? uid ? X->v[X->nv-1].uid : (unsigned)X->nv : 0;
    for(int i = 0; i < X->nv; i++) if(in_set(set, strlen(set), uid ? X->v[i].uid : (unsigned)i + 1, max)) m |= 1ull << i;
    *toobig = false;
    for(const char *p = set; *p; ){
        if(*p == '*' && !X->nv) *toobig = true;
        if(isdigit((unsigned char)*p)){ if(strtoul(p, (char**)&p, 10) > (unsigned)X->nv) *toobig = true; } else p++;
    }
    if(uid) *toobig = false;
    return m;
}
static void one_set(const char *set, const char *kinds){
    char c[200]; bool big, bigu;
    uint64_t ws = set_mask(set, false, &big), wu = set_mask(set, true, &bigu), got;
    for(const char *k = kinds; *k; k++) switch(*k){
        case 's': case 'S':     // by sequence number
            if(!search(*k == 'S', set, strlen(set), &got)){
                MC_CHECK(big, "set-refused", "%sSEARCH %s was answered %s", *k == 'S' ? "UID " : "", set, X->stline);
            }else MC_CHECK(got == ws, "set-wrong", "%sSEARCH %s found%s, should be%s", *k == 'S' ? "UID " : "", set, bits(got), bits(ws));
            break;
        case 'u': case 'U':
            snprintf(c, sizeof(c), "UID %s", set);
            MC_CHECK(search(*k == 'U', c, strlen(c), &got), "set-refused", "SEARCH UID %s was answered %s", set, X->stline);
            MC_CHECK(got == wu, "set-wrong", "SEARCH UID %s found%s, should be%s", set, bits(got), bits(wu));
            break;
        case 'f': case 'F': {
            bool uid = *k == 'F';
            snprintf(c, sizeof(c), "%sFETCH %s (UID)", uid ? "UID " : "", set);
            X->uidmode = uid;
            command(OP_FETCH, c, strlen(c));
            got = 0;
            for(int i = 0; i < X->nv; i++) if(X->v[i].fetched) got |= 1ull << i;
            if(X->status != 1) MC_CHECK(!uid && big && !got, "set-refused", "%s was answered %s", c, X->stline);
            else MC_CHECK(got == (uid ? wu : ws), "set-wrong", "%s returned messages%s, should be%s", c, bits(got), bits(uid ? wu : ws));
        } break;
        case 't': case 'T': {
            bool uid = *k == 'T';
            uint64_t before = with_flag(F_FLAG);
            snprintf(c, sizeof(c), "%sSTORE %s %cFLAGS (\\Flagged)", uid ? "UID " : "", set, before ? '-' : '+');
            X->uidmode = uid;
            want_store = before ? '-' : '+';
            command(OP_STORE, c, strlen(c));
            want_store = 0;
            uint64_t after = with_flag(F_FLAG), w = uid ? wu : ws;
            if(X->status != 1){ MC_CHECK(!uid && big, "set-refused", "%s was answered %s", c, X->stline); w = 0; }
            MC_CHECK(after == (before ? before & ~w : w), "set-wrong", "%s on flagged messages%s left flagged%s", c, bits(before), bits(after));
            // start again
            if(before && after) { for(int i = 0; i < mb[0].n; i++) if(mb[0].m[i].fl & F_FLAG){ mb[0].m[i].fl &= ~F_FLAG; mb[0].m[i].modseq = ++mb[0].himodseq; } command(OP_NOOP, "NOOP", 4); }
        } break;
        case 'c': case 'C': {
            bool uid = *k == 'C';
            snprintf(c, sizeof(c), "%sCOPY %s Other", uid ? "UID " : "", set);
            X->uidmode = uid;
            command(OP_COPY, c, strlen(c));
            got = 0;
            for(int i = 0; i < X->nv; i++) for(int j = 0; j < mb[1].n; j++) if(mb[1].m[j].content == X->v[i].content){
                MC_CHECK(!(got >> i & 1), "copied-twice", "%s copied message %d twice", c, i + 1);
                got |= 1ull << i;
            }
            while(mb[1].n) mb_del(1, 0);
            mb[1].nvan = 0;
            if(X->status != 1) MC_CHECK(!uid && big && !got, "set-refused", "%s was answered %s", c, X->stline);
            else MC_CHECK(got == (uid ? wu : ws), "set-wrong", "%s copied messages%s, should be%s", c, bits(got), bits(uid ? wu : ws));
        } break;
        default: mc_error("kind");
    }
    mc_outcome(ws * 64 + wu);
    mc_case(strlen(kinds));
}
static void run_sets(void){
    int n = (int)mc_opt("len", 2);
    const char *kinds = mc_opts("kinds", "sSuUfF");
    int box = (int)mc_choose(3, "mailbox");
    PART = (int)mc_choose((unsigned)PARTS, "part");
    // 8 messages of which 3 are gone; a mailbox of one; an empty one
    for(int i = 0; i < (box == 0 ? 8 : box == 1 ? 1 : 0); i++){ char t[60]; int l = sprintf(t, "Subject: %d\r\n\r\nx%d\r\n", i, i); add_msg(t, (size_t)l, 0, NULL); }
    open_box(box == 0 ? 0x52 : 0, false);      // UIDs 1 3 4 6 8
    char set[200], e[40];
    for(int u = 0; u < 2; u++){
        toks = u ? TOK_UID : TOK_SEQ; ntok = (int)(u ? sizeof(TOK_UID) : sizeof(TOK_SEQ)) / (int)sizeof(*toks);
        long tot = 0, pw = 1, idx = 0;
        for(int l = 1; l <= n; l++){
            pw *= nelem(); tot += pw;
            for(long i = 0; i < pw; i++, idx++){
                if(!mine(idx)) continue;
                *set = 0;
                for(long k = i, j = 0; j < l; j++, k /= nelem()){ elem(k % nelem(), e); if(j) strcat(set, ","); strcat(set, e); }
                one_set(set, kinds);
            }
        }
    }
    if(PART == 0){
        // what is no set
        static const char *bad[] = { "0", "0:1", "1:0", "1:", ":1", "1,", ",1", "1,,2", "1:2:3", "-1", "+1", "01x", "1 :2", "4294967296", "99999999999999999999", "**", "*1", "1-2", "" };
        for(size_t i = 0; i < sizeof(bad) / sizeof(*bad); i++){
            char c[100]; uint64_t got;
            snprintf(c, sizeof(c), "UID FETCH %s (UID)", bad[i]);
            X->uidmode = true;
            command(OP_FETCH, c, strlen(c));
            MC_CHECK(X->status == 3, "set-bad", "%s was answered %s", c, X->stline);
            snprintf(c, sizeof(c), "UID %s", bad[i]);
            MC_CHECK(!search(false, c, strlen(c), &got), "set-bad", "SEARCH UID %s was answered %s", bad[i], X->stline);
        }
    }
}

// ------------------------------------------------------------- expressions
typedef struct { char t[80]; uint64_t m; } atom_t;
static atom_t atoms[200]; static int natoms;
__attribute__((format(printf, 2, 3)))
static void at(uint64_t m, const char *f, ...){ va_list ap; va_start(ap, f); vsnprintf(atoms[natoms].t, sizeof(atoms[0].t), f, ap); va_end(ap); atoms[natoms++].m = m & ALL; }
static const struct { const char *text, *date; unsigned fl; } MSGS[] = {
    { "Subject: Hello World\r\nFrom: Alice <alice@a.com>\r\nTo: bob@b.com\r\nDate: Thu, 31 Dec 2020 23:59:59 -0500\r\n\r\nbody text one\r\n", "31-Dec-2020 23:59:59 +0000", F_SEEN },
    { "From: carol@c.com\r\nTo: x@x\r\nTo: dave@d.com\r\nSubject: second\r\nSubject: hello\r\nDate: 1 Jan 2021 00:00:00 +1400\r\n\r\ntwo\r\n", " 1-Jan-2021 00:00:00 -0800", F_ANS },
    { "subject:\r\nfrom:\r\ncc: Carol\r\nbcc: eve\r\nX-Long: a\r\n b\r\n\tc\r\nDATE: Fri, 01 Jan 2021 12:00:00 +0000 (UTC)\r\n\r\n", " 1-Jan-2021 23:00:00 +1400", F_FLAG | F_SEEN },
    { "Subject: gone\r\n\r\nwill be expunged\r\n", NULL, 0 },
    { "X-Spam: yes\r\n\r\nHELLO in the body only\r\nSubject: not a header\r\n", "11-Jun-2021 01:41:00 +0000", F_DEL },
    { "\r\nno headers at all\r\n", "28-Feb-2020 00:00:00 +0000", F_DRAFT | F_DEL },
    { "Cc: a\r\nCC: b@b.com\r\nBcc: x\r\nBCC: dave\r\nFrom: a@a\r\nFrom: b@b\r\nDate: nonsense\r\n\r\n\xc3\xa9t\xc3\xa9 \"quoted\" back\\slash\r\n", "29-Feb-2020 12:30:00 +0530", F_SEEN | F_ANS | F_FLAG | F_DRAFT | F_DEL },
    { "Date: 1 Feb 2021 10:00 +0000\r\nSubject: bo\r\n\r\ndy te\r\n", " 1-Mar-2020 00:00:00 -1200", 0 },
};
static void make_atoms(void){
    natoms = 0;
    at(ALL, "ALL");
    static const struct { const char *y, *n; unsigned f; } FL[] = { {"ANSWERED", "UNANSWERED", F_ANS}, {"DELETED", "UNDELETED", F_DEL}, {"FLAGGED", "UNFLAGGED", F_FLAG}, {"SEEN", "UNSEEN", F_SEEN}, {"DRAFT", "UNDRAFT", F_DRAFT} };
    for(int i = 0; i < 5; i++){ at(with_flag(FL[i].f), "%s", FL[i].y); at(~with_flag(FL[i].f), "%s", FL[i].n); }
    // no message is ever recent here (the server says 0 RECENT)
    at(0, "NEW"); at(ALL, "OLD"); at(0, "RECENT"); at(0, "KEYWORD foo"); at(ALL, "UNKEYWORD foo");
    at(1 | (ALL & ~(ALL >> 1)), "1,*"); at(6, "3:2");
    for(int i = 0; i < X->nv; i++) if(i != 1) at(1ull << i, "UID %u", X->v[i].uid);
    static const char *W[] = { "hello", "HELLO", "b", "", "carol", "dave", "zzz" };
    for(size_t i = 0; i < sizeof(W) / sizeof(*W); i++){
        size_t l = strlen(W[i]);
        at(with_header("Subject", W[i], l), "SUBJECT \"%s\"", W[i]);
        at(with_header("To", W[i], l), "TO \"%s\"", W[i]);
        at(with_header("Cc", W[i], l), "CC \"%s\"", W[i]);
        at(with_header("Bcc", W[i], l), "BCC \"%s\"", W[i]);
        at(with_header("From", W[i], l), "FROM \"%s\"", W[i]);
        at(with_text(true, W[i], l), "BODY \"%s\"", W[i]);
        at(with_text(false, W[i], l), "TEXT \"%s\"", W[i]);
        at(with_header("X-Spam", W[i], l), "HEADER x-spam \"%s\"", W[i]);
    }
    at(with_header("X-Spam", "yes", 3), "HEADER \"X-SPAM\" yes");
    at(with_header("Subject", "hello", 5), "HEADER Subject hello");
    at(with_header("Date", "jan", 3), "HEADER date JAN");
    static const char *D[] = { "31-Dec-2020", "1-Jan-2021", "01-Jan-2021", "29-Feb-2020" };
    for(int i = 0; i < 4; i++){
        int d = datenum(D[i], strlen(D[i]));
        at(with_date(false, -1, d), "BEFORE %s", D[i]); at(with_date(false, 0, d), "ON \"%s\"", D[i]); at(with_date(false, 1, d), "SINCE %s", D[i]);
        at(with_date(true, -1, d), "SENTBEFORE %s", D[i]); at(with_date(true, 0, d), "SENTON %s", D[i]); at(with_date(true, 1, d), "SENTSINCE \"%s\"", D[i]);
    }
    at(with_size(1, 60), "LARGER 60"); at(with_size(-1, 60), "SMALLER 60");
}
static void fill_msgs(void){ for(size_t i = 0; i < sizeof(MSGS) / sizeof(*MSGS); i++) add_msg(MSGS[i].text, strlen(MSGS[i].text), MSGS[i].fl, MSGS[i].date); }
// a composite of depth <= d: writes its text, returns its mask
static uint64_t comp(char **o, int shape, const atom_t *a, const atom_t *b, const atom_t *c){
    switch(shape){
        case 0: *o += sprintf(*o, "%s", a->t); return a->m;
        case 1: *o += sprintf(*o, "NOT %s", a->t); return ALL & ~a->m;
        case 2: *o += sprintf(*o, "(%s)", a->t); return a->m;
        case 3: *o += sprintf(*o, "NOT NOT (%s)", a->t); return a->m;
        case 4: *o += sprintf(*o, "%s %s", a->t, b->t); return a->m & b->m;
        case 5: *o += sprintf(*o, "OR %s %s", a->t, b->t); return a->m | b->m;
        case 6: *o += sprintf(*o, "NOT (%s %s)", a->t, b->t); return ALL & ~(a->m & b->m);
        case 7: *o += sprintf(*o, "NOT OR %s NOT %s", a->t, b->t); return ALL & ~(a->m | ~b->m);
        case 8: *o += sprintf(*o, "NOT %s (%s)", a->t, b->t); return ALL & ~a->m & b->m;
        case 9: *o += sprintf(*o, "%s OR %s %s", a->t, b->t, c->t); return a->m & (b->m | c->m);
        case 10: *o += sprintf(*o, "OR %s %s %s", a->t, b->t, c->t); return (a->m | b->m) & c->m;
        case 11: *o += sprintf(*o, "OR (%s %s) NOT %s", a->t, b->t, c->t); return (a->m & b->m) | (ALL & ~c->m);
        case 12: *o += sprintf(*o, "OR OR %s %s %s", a->t, b->t, c->t); return a->m | b->m | c->m;
        default: *o += sprintf(*o, "(NOT %s) (%s %s)", a->t, b->t, c->t); return ALL & ~a->m & b->m & c->m;
    }
}
static void run_expr(void){
    int n = (int)mc_opt("ops", 2);
    bool exam = mc_choose(2, "read-only");
    PART = (int)mc_choose((unsigned)PARTS, "part");
    fill_msgs();
    open_box(1ull << 3, exam);
    make_atoms();
    // the third operand from a few atoms
    static const int third[] = { 1, 4, 8, 20, 26 };
    long idx = 0; char t[600], *o;
    for(int s = 0; s < 14; s++){
        int nb = s >= 4 ? natoms : 1, nc = s >= 9 ? 5 : 1;
        if(n < 2 && s >= 4) break;
        if(n < 3 && s >= 9) break;
        for(int a = 0; a < natoms; a++) for(int b = 0; b < nb; b++) for(int c = 0; c < nc; c++, idx++){
            if(!mine(idx)) continue;
            o = t; if(idx / PARTS % 3 == 1) o += sprintf(o, "CHARSET UTF-8 ");
            uint64_t m = comp(&o, s, &atoms[a], &atoms[b], &atoms[third[c]]);
            expect(idx / PARTS % 2, t, strlen(t), m);
        }
    }
}
// nested and long expressions
static void run_deep(void){
    int shape = (int)mc_choose(6, "shape");
    int depth = 1 + (int)mc_choose((unsigned)mc_opt("max", 40), "depth") * (int)mc_opt("step", 37);
    fill_msgs(); open_box(1ull << 3, false);
    static buf_t b; b.n = 0;
    uint64_t fl = with_flag(F_SEEN), w;
    if(shape == 0){ for(int i = 0; i < depth; i++) b_fmt(&b, "NOT "); b_fmt(&b, "SEEN"); w = depth % 2 ? ALL & ~fl : fl; }
    else if(shape == 1){ for(int i = 0; i < depth; i++) b_fmt(&b, "("); b_fmt(&b, "SEEN"); for(int i = 0; i < depth; i++) b_fmt(&b, ")"); w = fl; }
    else if(shape == 2){ for(int i = 0; i < depth; i++) b_fmt(&b, "OLD "); b_fmt(&b, "SEEN"); w = fl; }
    else if(shape == 3){ for(int i = 0; i < depth; i++) b_fmt(&b, "OR NEW "); b_fmt(&b, "SEEN"); w = fl; }
    else if(shape == 5){ if(depth > 20000) depth = 20000; for(int i = 0; i < depth; i++) b_fmt(&b, i ? ",%d" : "%d", 1 + i % 2); w = depth > 1 ? 3 : 1; }
    else{ for(int i = 0; i < depth; i++) b_fmt(&b, "OR "); b_fmt(&b, "SEEN"); for(int i = 0; i < depth; i++) b_fmt(&b, " NEW"); w = fl; }
    uint64_t got;
    // being refused, even by being disconnected, is a possible answer to a
    // search which is nested more deeply than anyone needs; a wrong one is not
    deep_ok = depth >= 100 && shape != 2 && shape != 5;
    if(deep_ok) X->mayend = true;
    if(search(false, b.p, b.n, &got)) MC_CHECK(got == w, "deep-wrong", "a search of depth %d (%.20s...) found%s, should be%s", depth, b.p, bits(got), bits(w));
    else if(!X->used) { mc_case(1); return; }
    else MC_CHECK(deep_ok, "deep-refused", "a search of depth %d (%.20s...) was answered %s", depth, b.p, X->stline);
    expect(false, "SEEN", 4, fl);
    mc_case(2);
}
// every substring of every message, in each way to write a string
static void run_text(void){
    int len = (int)mc_opt("len", 8);
    PART = (int)mc_choose((unsigned)PARTS, "part");
    fill_msgs(); open_box(1ull << 3, true);
    static const char *KEY[] = { "TEXT ", "BODY ", "SUBJECT ", "HEADER X-LONG ", "TO ", "FROM ", "HEADER date " };
    long idx = 0;
    for(int i = 0; i < X->nv; i++){
        buf_t *p = &conts[X->v[i].content].plain;
        for(size_t s = 0; s < p->n; s++) for(size_t l = 1; l <= (size_t)len && s + l <= p->n; l++, idx++){
            if(!mine(idx)) continue;
            const char *q = p->p + s; bool crlf = false;
            for(size_t k = 0; k < l; k++) crlf |= q[k] == '\r' || q[k] == '\n';
            int form = crlf ? 2 : (int)(idx / PARTS % 3);
            for(int key = 0; key < 7; key++){
                // whether folding counts as white space is not judged
                if(key >= 2 && crlf) continue;
                static buf_t b; b.n = 0;
                b_fmt(&b, "%s", KEY[key]);
                if(form < 2){
                    b_fmt(&b, "\"");
                    for(size_t k = 0; k < l; k++){ if(q[k] == '"' || q[k] == '\\') b_fmt(&b, "\\"); char c = q[k]; if(form && isalpha((unsigned char)c)) c ^= 32; b_add(&b, &c, 1); }
                    b_fmt(&b, "\"");
                }else{ b_fmt(&b, "{%zu}\r\n", l); b_add(&b, q, l); }
                uint64_t w = key == 0 ? with_text(false, q, l) : key == 1 ? with_text(true, q, l) : key == 2 ? with_header("Subject", q, l) : key == 3 ? with_header("X-Long", q, l) :
                    key == 4 ? with_header("To", q, l) : key == 5 ? with_header("From", q, l) : with_header("Date", q, l);
                expect(false, b.p, b.n, w);
            }
        }
    }
}
// all dates around the messages' dates, all sizes, all flag combinations
static void run_keys(void){
    int what = (int)mc_choose(2, "messages");
    PART = (int)mc_choose(16, "part"); PARTS = 16;
    long idx = 0; char t[80];
    if(what == 0){
        for(unsigned f = 0; f < 32; f++){ char m[80]; int l = sprintf(m, "Subject: %u\r\n\r\n%.*s\r\n", f, (int)f, "12345678901234567890123456789012345678901234567890"); add_msg(m, (size_t)l, f, NULL); }
        open_box(0, PART % 2);
        natoms = 0; make_atoms();
        for(int a = 0; a < 16; a++) for(int b = 0; b < 16; b++, idx++) if(mine(idx)){ char *o = t; uint64_t m = comp(&o, 4, &atoms[a], &atoms[b], NULL); expect(false, t, strlen(t), m); }
        for(unsigned s = 0; s < 80; s++, idx++) if(mine(idx)){
            int l = sprintf(t, "LARGER %u", s); expect(false, t, (size_t)l, with_size(1, s));
            l = sprintf(t, "SMALLER %u", s); expect(false, t, (size_t)l, with_size(-1, s));
        }
        expect(false, "LARGER 4294967295", 17, 0); expect(false, "SMALLER 4294967295", 18, ALL); expect(false, "SMALLER 0", 9, 0);
    }else{
        static const int Y[] = { 1999, 2019, 2020, 2021, 2022 };
        int k = 0;
        for(int y = 2019; y <= 2021; y++) for(int m = 1; m <= 12; m += y == 2020 ? 1 : 11) for(int d = 1; d <= 28; d += 27){
            char m1[200], d1[40];
            snprintf(d1, sizeof(d1), "%2d-%s-%d %02d:%02d:00 %c%02d00", d, MON[m-1], y, k % 24, k % 60, k % 2 ? '+' : '-', 1 + k % 13);
            int l = snprintf(m1, sizeof(m1), "Date: %d %s %d %02d:00:00 %c%02d30\r\nSubject: %d\r\n\r\n", 29 - d, MON[12 - m], y, k % 24, k % 3 ? '+' : '-', k % 12, k);
            add_msg(m1, (size_t)l, 0, d1); k++;
        }
        open_box(0, PART % 2);
        for(int yi = 0; yi < 5; yi++) for(int m = 1; m <= 12; m++) for(int d = 1; d <= 31; d++) for(int q = 0; q < 6; q++, idx++) if(mine(idx)){
            static const char *K[] = { "BEFORE", "ON", "SINCE" };
            int l = sprintf(t, "%s%s %s%d-%s-%d%s", q >= 3 ? "SENT" : "", K[q % 3], idx % 7 ? "" : "\"", d, MON[m-1], Y[yi], idx % 7 ? "" : "\"");
            expect(idx % 2, t, (size_t)l, with_date(q >= 3, q % 3 - 1, Y[yi] * 10000 + m * 100 + d));
        }
    }
}

static void run9(void){
    deep_ok = false;
    static const struct { const char *n; void (*f)(void); } m[] = { {"sets", run_sets}, {"expr", run_expr}, {"deep", run_deep}, {"text", run_text}, {"keys", run_keys} };
    const char *s = mc_opts("mode", "sets");
    PARTS = (int)mc_opt("parts", 64);
    reset();
    for(size_t i = 0; i < sizeof(m) / sizeof(*m); i++) if(!strcmp(m[i].n, s)){
        m[i].f();
        nodev = true;
        for(int k = 0; k < nsess; k++) if(ss[k].used){ ss[k].excused = true; ss[k].up.broken = true; ss[k].dn.broken = true; }
        settle_code();
        for(int k = 0; k < nsess; k++) MC_CHECK(!ss[k].used, "never-ends", "session %d never finishes", k);
        dirmgr_free(&dm); dm_open = false;
        wipe();
        return;
    }
    mc_error("mode");
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "a09_search", .run = run9, .init = init, .exec_timeout = 300 };
    return mc_main(argc, argv, &h);
}
