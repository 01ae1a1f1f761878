/* D01: text written by the program is read back to the same meaning, however
 * it is cut, in both directions.
 * mode=round   every command and response template x awkward strings
 * mode=bytes   every string of one or two bytes in every string position */
#include "d_imap.h"

/* ---- enumeration inside one run ---- */
static unsigned pk[32], pn[32];
static int pd, ptop, psplit;
static bool g_bytes;     /* all one and two byte strings in the varied position */
static unsigned g_rest;  /* then: the first or last choice in everything else */
static unsigned PP(unsigned n){
    if(pd >= 32) mc_error("picks");
    /* the first few choices are the explorer's (spread over the workers) */
    if(pd == ptop){ pk[pd] = pd < psplit ? mc_choose(n, "pick") : 0; ptop++; }
    pn[pd] = n;
    return pk[pd++];
}
/* quick: once a string of the full list was picked, the other choices follow
 * from it, and choices inside of big structures are limited to the first few */
static unsigned g_slim, g_few, g_inner;
static bool o_slim;
static unsigned P(unsigned n){
    if(g_bytes) return g_rest ? n - 1 : 0;
    if(g_slim) return g_slim % n;
    return PP(n);
}
static unsigned PF(unsigned n){ return P(g_inner && g_few && n > g_few ? g_few : n); }
static bool p_next(void){
    ptop = pd;
    while(ptop > psplit){
        if(++pk[ptop-1] < pn[ptop-1]) return true;
        ptop--;
    }
    return false;
}

typedef struct { const char *p; size_t n; } st_t;
#define L(x) { x, sizeof(x) - 1 }
#define X10 "xxxxxxxxxx"
/* strings for astring, string and mailbox positions */
static const st_t W[] = {
    L("a"), L(""), L("INBOX"), L("inBox"), L("inBOX/x"), L("INBOXx"), L("NIL"), L("nil"), L(" "), L("a b"), L("\""),
    L("\\"), L("a\\\"b"), L("("), L(")"), L("{"), L("{3}"), L("{3}\r\nabc"), L("{1+}"), L("%"), L("*"), L("]"),
    L("a]b"), L("["), L("[]"), L("="), L("a=b"), L("@"), L("j@h.x"), L(";"), L("?"), L("+"), L("a+b"), L("-"),
    L("."), L(":"), L(","), L("<"), L(">"), L("}"), L("1"), L("00"), L("18446744073709551616"), L("BODY"),
    L("UID"), L("Jan"), L("\r"), L("\n"), L("\r\n"), L("\0"), L("a\0b"), L("\0\0"), L("\x01"), L("\x7f"),
    L("\x0f"), L("\x1e"), L("\x1f"), L("\x80"), L("\xff"), L("\xc3\xa9"), L("a\tb"), L("~!#$&'`^_|/"),
    L("UNCHANGEDSINCE"), L("UNCHANGEDSINCEX"), L("xUNCHANGEDSINC"), L("\\\\\\\\\\\\\\\\"), L("\"\"\"\""),
    L(X10 X10 X10 X10 X10 X10 X10 "xx"), L(X10 X10 X10 X10 X10 X10 X10 "xxx"),
    L(X10 X10 X10 X10 X10 X10 X10 "x\""), L(X10 "\\" X10 "\"" X10 " \\" X10),
};
#define NW (sizeof(W) / sizeof(*W))
/* atoms */
static const st_t AT[] = {
    L("a"), L("NIL"), L("="), L("@"), L("+"), L("a+b"), L(";"), L("?"), L("["), L("}"), L("1"), L("Deletedx"),
    L("Foo"), L("INBOX"), L("~"), L("-"), L("."), L("AUTH=PLAIN"), L("<"), L(">"), L(":"), L(","), L("'"), L("$MDNSent"),
    L("UNCHANGEDSINCEX"), L("XKEYSYNC"), L("18446744073709551616"),
};
#define NAT (sizeof(AT) / sizeof(*AT))
static const st_t TG[] = {
    L("a"), L("A1"), L("1"), L("1=2"), L("]"), L("@"), L("?"), L("OK"), L("sc1"), L("maildir_up17"), L("imaildir3"),
    L("NIL"), L("INBOX"), L("-"), L("."), L("UNCHANGEDSINCEX"), L("DONE"), L("LOGIN"),
};
#define NTG (sizeof(TG) / sizeof(*TG))
/* human-readable text (never starts with '[', which announces a code) */
static const st_t TX[] = {
    L("x"), L("a b"), L("x]"), L("]"), L("="), L("a=1=2"), L("("), L("){3}"), L("{3}"), L("\""), L("\\"), L("\x01"), L("\x0f"),
    L("\x1e"), L("\x1f"), L("\x7f"), L("\t"), L("1"), L("OK"), L("NIL"), L(" x"), L("  "), L("*"), L("%"), L("+"), L("x [ALERT] y"), L("x["),
    L("UNCHANGEDSINCEX"), L("@;?"), L("try again, later: <now>."), L("\"a\" {b} (c) [d]"), L("\xc3\xa9"),
    L(X10 X10 X10 X10 X10 X10 X10 X10 " " X10),
};
#define NTX (sizeof(TX) / sizeof(*TX))
/* text inside of a code: no ']' */
static const st_t TC[] = {
    L("x"), L("a b"), L("="), L("("), L("{3}"), L("\""), L("\\"), L("\x01"), L("\x0f"), L("\x7f"), L("1"), L("["), L(" x"), L("*%+"), L("@;?"),
    L("UNCHANGEDSINCEX"),
};
#define NTC (sizeof(TC) / sizeof(*TC))
static const unsigned NUMS[] = { 1, 2, 10, 4294967295u, 0 };
static const uint64_t MSN[] = { 1, 42, 9223372036854775807ull };

static derr_t *E;
static unsigned g_small; /* number of strings of the other positions */
static unsigned g_bhi;
static char bbuf[2];
static st_t pick(const st_t *t, unsigned n){ return t[P(n)]; }
static ie_dstr_t *ds(st_t s){
    return ie_dstr_new2(E, (dstr_t){ .data = (char*)(uintptr_t)s.p, .len = s.n, .size = s.n, .fixed_size = true });
}
/* at most one position of an object takes all values, the others a few */
static int g_varied, g_pos;
static st_t vary(const st_t *t, unsigned n){
    bool full = g_pos++ == g_varied;
    if(full && g_bytes){
        /* every byte string of length 1 or 2 whose first byte is g_bhi */
        unsigned k = PP(257);
        bbuf[0] = (char)g_bhi;
        if(k) bbuf[1] = (char)(k - 1);
        return (st_t){ bbuf, k ? 2 : 1 };
    }
    if(!full || g_slim) return pick(t, n < g_small ? n : g_small);
    unsigned k = PP(n);
    if(o_slim && k >= 2) g_slim = k;
    return t[k];
}
static st_t wstr(void){ return vary(W, NW); }
static st_t pat(void){ return vary(W, NW); }
static ie_dstr_t *w(void){ return ds(wstr()); }
static ie_dstr_t *at(void){ return ds(g_bytes ? AT[0] : vary(AT, NAT)); }
static ie_dstr_t *tx(void){
    st_t t = vary(TX, NTX);
    if(t.n && t.p[0] == '[') t = (st_t){ "a", 1 }; /* would be a code */
    return ds(t);
}
static ie_dstr_t *tag(void){ return ds(g_bytes ? TG[0] : vary(TG, NTG)); }
static ie_mailbox_t *mbx(void){ return ie_mailbox_new_noninbox(E, w()); }
static unsigned nz(void){ return NUMS[PF(4)]; }
static unsigned nzs(void){ return NUMS[P(2)]; }
static unsigned nm(void){ return NUMS[PF(5)]; }
static uint64_t msn(void){ return MSN[PF(3)]; }
/* sets: with and without '*' */
static ie_seq_set_t *set(bool star){
    switch(PF(star ? 7 : 4)){
        case 0: return ie_seq_set_new(E, 1, 1);
        case 1: return ie_seq_set_append(E, ie_seq_set_new(E, 4294967295u, 2), ie_seq_set_new(E, 7, 7));
        case 2: return ie_seq_set_append(E, ie_seq_set_append(E, ie_seq_set_new(E, 1, 10), ie_seq_set_new(E, 3, 4)), ie_seq_set_new(E, 12, 12));
        case 3: return ie_seq_set_new(E, 10, 4294967295u);
        case 4: return ie_seq_set_new(E, 0, 0);
        case 5: return ie_seq_set_append(E, ie_seq_set_new(E, 1, 0), ie_seq_set_new(E, 0, 5));
        default: return ie_seq_set_append(E, ie_seq_set_new(E, 3, 3), ie_seq_set_new(E, 0, 0));
    }
}
static ie_dstr_t *list(ie_dstr_t *(*one)(void), bool empty){
    switch(P(empty ? 3 : 2)){
        case 0: return one();
        case 1: return ie_dstr_add(E, one(), one());
        default: return NULL;
    }
}
static imap_time_t date(void){
    static const imap_time_t T[] = {
        { 2021, 1, 1, 0, 0, 0, 0, 0 }, { 1000, 12, 31, 23, 59, 59, 12, 45 }, { 9999, 10, 10, 9, 9, 9, -9, 30 },
        { 2000, 2, 29, 10, 20, 30, -11, 0 }, { 1999, 9, 9, 1, 2, 3, 0, 30 },
    };
    return T[PF(5)];
}
static ie_flags_t *flags(void){
    unsigned m = PF(8);
    ie_flags_t *f = ie_flags_new(E);
    /* each of the five alone, none, all, and all with keywords */
    for(unsigned i = 0; i < 5; i++) if(m == i + 1 || m > 5) f = ie_flags_add_simple(E, f, (ie_flag_type_t)i);
    if(m == 7 || m == 0){
        f = ie_flags_add_kw(E, f, at());
        f = ie_flags_add_ext(E, f, at());
        f = ie_flags_add_kw(E, f, ds((st_t)L("zz")));
        f = ie_flags_add_ext(E, f, ds((st_t)L("yy")));
    }
    return f;
}
static ie_select_params_t *params(void){
    unsigned m = P(6);
    if(m == 0) return NULL;
    g_inner = m > 3;
    if(m == 1) return ie_select_params_new(E, IE_SELECT_PARAM_CONDSTORE, (ie_select_param_arg_t){0});
    ie_select_param_arg_t a = { .qresync = { .uidvld = nz(), .last_modseq = msn() } };
    if(m & 1) a.qresync.known_uids = set(false);
    if(m >= 4){ a.qresync.seq_keys = set(false); a.qresync.uid_vals = set(false); }
    ie_select_params_t *p = ie_select_params_new(E, IE_SELECT_PARAM_QRESYNC, a);
    if(P(2)) p = ie_select_params_add(E, p, ie_select_params_new(E, IE_SELECT_PARAM_CONDSTORE, (ie_select_param_arg_t){0}));
    return p;
}
static ie_search_key_t *skey(int depth){
    unsigned n0 = 14, m = P(n0 + 8 + 2 + 6 + 2 + 2 + 2 + (depth ? 5 : 0));
    if(m < 14){
        static const ie_search_key_type_t t[] = {
            IE_SEARCH_ALL, IE_SEARCH_ANSWERED, IE_SEARCH_DELETED, IE_SEARCH_FLAGGED, IE_SEARCH_NEW, IE_SEARCH_OLD, IE_SEARCH_RECENT,
            IE_SEARCH_SEEN, IE_SEARCH_UNANSWERED, IE_SEARCH_UNDELETED, IE_SEARCH_UNFLAGGED, IE_SEARCH_UNSEEN, IE_SEARCH_DRAFT, IE_SEARCH_UNDRAFT };
        return ie_search_0(E, t[m]);
    }
    m -= 14;
    if(m < 8){
        static const ie_search_key_type_t t[] = { IE_SEARCH_SUBJECT, IE_SEARCH_BCC, IE_SEARCH_BODY, IE_SEARCH_CC, IE_SEARCH_FROM,
            IE_SEARCH_TEXT, IE_SEARCH_TO, IE_SEARCH_HEADER };
        if(m == 7){ ie_dstr_t *a = w(), *b = w(); return ie_search_header(E, IE_SEARCH_HEADER, a, b); }
        return ie_search_dstr(E, t[m], w());
    }
    m -= 8;
    if(m < 2) return ie_search_dstr(E, m ? IE_SEARCH_KEYWORD : IE_SEARCH_UNKEYWORD, at());
    m -= 2;
    if(m < 6){
        static const ie_search_key_type_t t[] = { IE_SEARCH_BEFORE, IE_SEARCH_ON, IE_SEARCH_SINCE, IE_SEARCH_SENTBEFORE, IE_SEARCH_SENTON, IE_SEARCH_SENTSINCE };
        imap_time_t d = date();
        return ie_search_date(E, t[m], (imap_time_t){ .year = d.year, .month = d.month, .day = d.day });
    }
    m -= 6;
    if(m < 2) return ie_search_num(E, m ? IE_SEARCH_LARGER : IE_SEARCH_SMALLER, nm());
    m -= 2;
    if(m < 2) return ie_search_seq_set(E, m ? IE_SEARCH_UID : IE_SEARCH_SEQ_SET, set(true));
    m -= 2;
    if(m < 2){
        ie_search_modseq_ext_t *x = NULL;
        if(m){ ie_dstr_t *n = ds((st_t)L("/flags/\\\\draft")); x = ie_search_modseq_ext_new(E, n, (ie_entry_type_t)P(3)); }
        return ie_search_modseq(E, x, P(2) ? 0 : msn());
    }
    m -= 2;
    ie_search_key_t *a, *b;
    g_inner = 1;
    switch(m){
        case 0: return ie_search_not(E, skey(depth - 1));
        case 1: return ie_search_group(E, skey(depth - 1));
        case 2: a = skey(depth - 1); b = skey(depth - 1); return ie_search_pair(E, IE_SEARCH_OR, a, b);
        case 3: a = skey(depth - 1); b = skey(0); return ie_search_pair(E, IE_SEARCH_AND, a, b);
        default: a = skey(depth - 1); b = ie_search_seq_set(E, IE_SEARCH_SEQ_SET, set(true));
            return ie_search_not(E, ie_search_group(E, ie_search_pair(E, IE_SEARCH_AND, a, b)));
    }
}
static ie_sect_t *sect(void){
    unsigned m = P(11);
    ie_sect_part_t *p = NULL;
    if(m == 0) return NULL;
    if(m <= 5 || m >= 9){
        p = ie_sect_part_new(E, nzs());
        if(P(2)) p = ie_sect_part_add(E, p, ie_sect_part_new(E, 3));
    }
    ie_sect_txt_t *t = NULL;
    switch(m){
        case 1: break;
        case 2: t = ie_sect_txt_new(E, IE_SECT_MIME, NULL); break;
        case 3: case 6: t = ie_sect_txt_new(E, IE_SECT_TEXT, NULL); break;
        case 4: case 7: t = ie_sect_txt_new(E, IE_SECT_HEADER, NULL); break;
        case 5: case 8: t = ie_sect_txt_new(E, IE_SECT_HDR_FLDS, list(w, false)); break;
        default: t = ie_sect_txt_new(E, IE_SECT_HDR_FLDS_NOT, list(w, false)); break;
    }
    return ie_sect_new(E, p, t);
}
static ie_fetch_attrs_t *attrs(void){
    unsigned m = P(15);
    ie_fetch_attrs_t *f = ie_fetch_attrs_new(E);
    for(unsigned i = 0; i < 11; i++)
        if(m == i || m == 11 || (m == 12 && i % 2)) f = ie_fetch_attrs_add_simple(E, f, (ie_fetch_simple_t)i);
    if(m >= 12){
        g_inner = 1;
        bool peek = P(2);
        ie_sect_t *s = sect();
        ie_partial_t *p = P(2) ? ie_partial_new(E, nm(), nz()) : NULL;
        f = ie_fetch_attrs_add_extra(E, f, ie_fetch_extra_new(E, peek, s, p));
        if(m == 14) f = ie_fetch_attrs_add_extra(E, f, ie_fetch_extra_new(E, true, NULL, NULL));
    }
    return f;
}

/* ---- command templates ---- */
#define NCMD 30
static imap_cmd_t *cmd(imap_cmd_type_t t, ie_dstr_t *tg, imap_cmd_arg_t a){ return imap_cmd_new(E, tg, t, a); }
/* returns how many commands */
static int build_cmd(int t, imap_cmd_t **o){
    ie_dstr_t *tg = t == 0 ? tag() : ds(TG[0]), *a, *b;
    ie_mailbox_t *m, *m2;
    imap_cmd_arg_t A = {0};
    bool uid;
    switch(t){
        case 0:{
            static const imap_cmd_type_t k[] = { IMAP_CMD_CAPA, IMAP_CMD_NOOP, IMAP_CMD_LOGOUT, IMAP_CMD_STARTTLS, IMAP_CMD_CHECK, IMAP_CMD_CLOSE,
                IMAP_CMD_UNSELECT, IMAP_CMD_EXPUNGE };
            o[0] = cmd(k[P(8)], tg, A);
        }   return 1;
        case 1: a = w(); b = w(); A.login = ie_login_cmd_new(E, a, b); o[0] = cmd(IMAP_CMD_LOGIN, tg, A); return 1;
        case 2: m = mbx(); A.select = ie_select_cmd_new(E, m, params()); o[0] = cmd(IMAP_CMD_SELECT, tg, A); return 1;
        case 3: m = mbx(); A.examine = ie_select_cmd_new(E, m, params()); o[0] = cmd(IMAP_CMD_EXAMINE, tg, A); return 1;
        case 4: A.create = mbx(); o[0] = cmd(IMAP_CMD_CREATE, tg, A); return 1;
        case 5: A.delete = mbx(); o[0] = cmd(IMAP_CMD_DELETE, tg, A); return 1;
        case 6: m = mbx(); m2 = mbx(); A.rename = ie_rename_cmd_new(E, m, m2); o[0] = cmd(IMAP_CMD_RENAME, tg, A); return 1;
        case 7: A.sub = mbx(); o[0] = cmd(IMAP_CMD_SUB, tg, A); return 1;
        case 8: A.unsub = mbx(); o[0] = cmd(IMAP_CMD_UNSUB, tg, A); return 1;
        case 9: m = mbx(); A.list = ie_list_cmd_new(E, m, ds(pat())); o[0] = cmd(IMAP_CMD_LIST, tg, A); return 1;
        case 10: m = mbx(); A.lsub = ie_list_cmd_new(E, m, ds(pat())); o[0] = cmd(IMAP_CMD_LSUB, tg, A); return 1;
        case 11: m = mbx(); A.status = ie_status_cmd_new(E, m, P(63) + 1); o[0] = cmd(IMAP_CMD_STATUS, tg, A); return 1;
        case 12:{
            m = mbx();
            ie_flags_t *f = P(2) ? flags() : NULL;
            imap_time_t d = P(2) ? date() : (imap_time_t){0};
            A.append = ie_append_cmd_new(E, m, f, d, w());
            o[0] = cmd(IMAP_CMD_APPEND, tg, A);
        }   return 1;
        case 13: A.uid_expunge = set(false); o[0] = cmd(IMAP_CMD_EXPUNGE, tg, A); return 1;
        case 14: case 15:
            a = P(2) ? w() : NULL; uid = P(2);
            A.search = ie_search_cmd_new(E, uid, a, skey(t - 14)); o[0] = cmd(IMAP_CMD_SEARCH, tg, A); return 1;
        case 16:{
            uid = P(2);
            ie_seq_set_t *s = ie_seq_set_new(E, 1, 0);
            ie_fetch_attrs_t *f = attrs();
            A.fetch = ie_fetch_cmd_new(E, uid, s, f, NULL); o[0] = cmd(IMAP_CMD_FETCH, tg, A);
        }   return 1;
        case 17:{
            uid = P(2);
            ie_seq_set_t *s = set(true);
            ie_fetch_attrs_t *f = ie_fetch_attrs_add_simple(E, ie_fetch_attrs_new(E), IE_FETCH_ATTR_UID);
            ie_fetch_mods_t *x = ie_fetch_mods_new(E, IE_FETCH_MOD_CHGSINCE, (ie_fetch_mod_arg_t){ .chgsince = msn() });
            if(uid && P(2)) x = ie_fetch_mods_add(E, x, ie_fetch_mods_new(E, IE_FETCH_MOD_VANISHED, (ie_fetch_mod_arg_t){0}));
            A.fetch = ie_fetch_cmd_new(E, uid, s, f, x); o[0] = cmd(IMAP_CMD_FETCH, tg, A);
        }   return 1;
        case 18:{
            uid = P(2);
            ie_seq_set_t *s = set(true);
            ie_store_mods_t *x = P(2) ? ie_store_mods_unchgsince(E, P(2) ? 0 : msn()) : NULL;
            int sign = (int)P(3) - 1;
            bool silent = P(2);
            A.store = ie_store_cmd_new(E, uid, s, x, sign, silent, flags()); o[0] = cmd(IMAP_CMD_STORE, tg, A);
        }   return 1;
        case 19:{
            uid = P(2);
            ie_seq_set_t *s = set(true);
            A.copy = ie_copy_cmd_new(E, uid, s, mbx()); o[0] = cmd(IMAP_CMD_COPY, tg, A);
        }   return 1;
        case 20: A.enable = list(at, false); o[0] = cmd(IMAP_CMD_ENABLE, tg, A); return 1;
        case 21: o[0] = cmd(IMAP_CMD_IDLE, tg, A); o[1] = cmd(IMAP_CMD_IDLE_DONE, NULL, A); o[2] = cmd(IMAP_CMD_NOOP, ds(TG[1]), A); return 3;
        case 22:
            A.xkeysync = list(at, true);
            o[0] = cmd(IMAP_CMD_XKEYSYNC, tg, A);
            A.xkeysync_done = ds(TG[0]);
            o[1] = cmd(IMAP_CMD_XKEYSYNC_DONE, NULL, A); A = (imap_cmd_arg_t){0}; o[2] = cmd(IMAP_CMD_NOOP, ds(TG[1]), A); return 3;
        case 23: A.xkeyadd = w(); o[0] = cmd(IMAP_CMD_XKEYADD, tg, A); return 1;
        /* pipelined commands with literals */
        case 24:
            a = w(); b = w(); A.login = ie_login_cmd_new(E, a, b); o[0] = cmd(IMAP_CMD_LOGIN, tg, A);
            A.create = mbx(); o[1] = cmd(IMAP_CMD_CREATE, ds(TG[1]), A);
            A = (imap_cmd_arg_t){0}; o[2] = cmd(IMAP_CMD_LOGOUT, ds(TG[2]), A);
            return 3;
    }
    imap_cmd_free(NULL);
    ie_dstr_free(tg);
    return 0;
}

/* ---- response templates ---- */
#define NRESP 24
static imap_resp_t *resp(imap_resp_type_t t, imap_resp_arg_t a){ return imap_resp_new(E, t, a); }
static ie_mflags_t *mflags(void){
    unsigned m = P(5);
    ie_mflags_t *f = ie_mflags_new(E);
    static const ie_selectable_t s[] = { IE_SELECTABLE_NONE, IE_SELECTABLE_NOSELECT, IE_SELECTABLE_MARKED, IE_SELECTABLE_UNMARKED, IE_SELECTABLE_NONE };
    if(s[m]) f = ie_mflags_set_selectable(E, f, s[m]);
    if(P(2)) f = ie_mflags_add_noinf(E, f);
    if(m > 2){ f = ie_mflags_add_ext(E, f, at()); f = ie_mflags_add_ext(E, f, ds(AT[0])); }
    return f;
}
static ie_fflags_t *fflags(void){
    unsigned m = PF(8);
    ie_fflags_t *f = ie_fflags_new(E);
    for(unsigned i = 0; i < 6; i++) if(m == i + 1 || m > 6) f = ie_fflags_add_simple(E, f, (ie_fflag_type_t)(i == 5 ? 6 : i));
    if(m == 7){ f = ie_fflags_add_kw(E, f, at()); f = ie_fflags_add_ext(E, f, at()); }
    return f;
}
static ie_st_code_t *code(unsigned which){
    ie_st_code_arg_t a = {0};
    ie_st_code_type_t t = (ie_st_code_type_t)which;
    switch(t){
        case IE_ST_CODE_UIDNEXT: a.uidnext = nz(); break;
        case IE_ST_CODE_UIDVLD: a.uidvld = nz(); break;
        case IE_ST_CODE_UNSEEN: a.unseen = nz(); break;
        case IE_ST_CODE_PERMFLAGS:{
            ie_pflags_t *f = ie_pflags_new(E);
            unsigned m = P(9);
            for(unsigned i = 0; i < 6; i++) if(m == i + 1 || m > 6) f = ie_pflags_add_simple(E, f, (ie_pflag_type_t)i);
            if(m == 8){ f = ie_pflags_add_kw(E, f, at()); f = ie_pflags_add_ext(E, f, at()); }
            a.pflags = f;
        }   break;
        case IE_ST_CODE_CAPA: a.capa = list(at, false); break;
        case IE_ST_CODE_ATOM: a.atom.name = ds(P(2) ? (st_t)L("XFOO") : (st_t)L("UNKNOWN-CTE")); if(P(2)) a.atom.text = ds(vary(TC, NTC)); break;
        case IE_ST_CODE_APPENDUID: a.appenduid.uidvld = nz(); a.appenduid.uid = nz(); break;
        case IE_ST_CODE_COPYUID: a.copyuid.uidvld = nz(); a.copyuid.uids_in = set(false); a.copyuid.uids_out = set(false); break;
        case IE_ST_CODE_HIMODSEQ: a.himodseq = msn(); break;
        case IE_ST_CODE_MODIFIED: a.modified = set(true); break;
        default: break;
    }
    return ie_st_code_new(E, t, a);
}
static int build_resp(int t, imap_resp_t **o){
    imap_resp_arg_t A = {0};
    ie_mailbox_t *m;
    ie_st_code_t *c = NULL;
    ie_dstr_t *a, *b;
    switch(t){
        case 0: if(P(2)) c = code(P(IE_ST_CODE_CLOSED + 1)); A.plus = ie_plus_resp_new(E, c, c ? ds(TX[0]) : tx()); o[0] = resp(IMAP_RESP_PLUS, A); return 1;
        case 1:
            a = P(2) ? tag() : NULL;
            A.status_type = ie_st_resp_new(E, a, (ie_status_t)P(5), NULL, tx()); o[0] = resp(IMAP_RESP_STATUS_TYPE, A); return 1;
        case 2:
            c = code(P(IE_ST_CODE_CLOSED + 1));
            A.status_type = ie_st_resp_new(E, ds(TG[0]), IE_ST_OK, c, P(2) ? ds((st_t)L("[x] y")) : tx()); o[0] = resp(IMAP_RESP_STATUS_TYPE, A); return 1;
        case 3: A.capa = list(at, false); o[0] = resp(IMAP_RESP_CAPA, A); return 1;
        case 4: case 5:{
            ie_mflags_t *f = mflags();
            static const char seps[] = "/.\\\"( ]{1a=\x01\x7f+";
            char s = seps[P(sizeof(seps) - 1)];
            m = mbx();
            ie_list_resp_t *l = ie_list_resp_new(E, f, s, m);
            if(t == 4) A.list = l; else A.lsub = l;
            o[0] = resp(t == 4 ? IMAP_RESP_LIST : IMAP_RESP_LSUB, A);
        }   return 1;
        case 6:{
            m = mbx();
            ie_status_attr_resp_t sa = {0};
            unsigned mask = P(64), k = P(3);
            static const unsigned nk[] = { 0, 17, 4294967295u };
            for(unsigned i = 0; i < 5; i++) if(mask & 1u << i)
                sa = ie_status_attr_resp_add(sa, ie_status_attr_resp_new_32(E, (ie_status_attr_t)(1 << i), nk[(k + i) % 3]));
            if(mask & 32) sa = ie_status_attr_resp_add(sa, ie_status_attr_resp_new_64(E, IE_STATUS_ATTR_HIMODSEQ, k ? msn() : 0));
            A.status = ie_status_resp_new(E, m, sa); o[0] = resp(IMAP_RESP_STATUS, A);
        }   return 1;
        case 7: A.flags = flags(); o[0] = resp(IMAP_RESP_FLAGS, A); return 1;
        case 8:{
            ie_nums_t *n = NULL;
            unsigned k = P(4);
            for(unsigned i = 0; i < k; i++) n = ie_nums_append(E, n, ie_nums_new(E, nz()));
            bool ms = k && P(2);
            A.search = ie_search_resp_new(E, n, ms, ms ? msn() : 0); o[0] = resp(IMAP_RESP_SEARCH, A);
        }   return 1;
        case 9: A.exists = nm(); o[0] = resp(IMAP_RESP_EXISTS, A); return 1;
        case 10: A.expunge = nz(); o[0] = resp(IMAP_RESP_EXPUNGE, A); return 1;
        case 11: A.recent = nm(); o[0] = resp(IMAP_RESP_RECENT, A); return 1;
        case 12:{
            ie_fetch_resp_t *f = ie_fetch_resp_seq_num(E, ie_fetch_resp_new(E), nz());
            unsigned k = P(63) + 1;
            g_inner = k & (k - 1);
            if(k & 1) f = ie_fetch_resp_flags(E, f, fflags());
            if(k & 2) f = ie_fetch_resp_uid(E, f, nzs());
            if(k & 4) f = ie_fetch_resp_intdate(E, f, date());
            if(k & 8) f = ie_fetch_resp_rfc822(E, f, w());
            if(k & 16) f = ie_fetch_resp_modseq(E, f, msn());
            if(k & 32){
                f = ie_fetch_resp_add_extra(E, f, ie_fetch_resp_extra_new(E, NULL, NULL, w()));
                if(k == 33) f = ie_fetch_resp_add_extra(E, f, ie_fetch_resp_extra_new(E, NULL, NULL, w()));
            }
            A.fetch = f; o[0] = resp(IMAP_RESP_FETCH, A);
        }   return 1;
        case 13: A.enabled = list(at, false); o[0] = resp(IMAP_RESP_ENABLED, A); return 1;
        case 14:{ bool e = P(2); A.vanished = ie_vanished_resp_new(E, e, set(false)); o[0] = resp(IMAP_RESP_VANISHED, A); }   return 1;
        case 15:
            switch(P(3)){
                case 0: break;
                case 1: A.xkeysync = ie_xkeysync_resp_new(E, w(), NULL); break;
                default: A.xkeysync = ie_xkeysync_resp_new(E, NULL, at()); break;
            }
            o[0] = resp(IMAP_RESP_XKEYSYNC, A); return 1;
        case 16: /* a stream of responses with literals */
            m = mbx(); A.list = ie_list_resp_new(E, ie_mflags_new(E), '/', m); o[0] = resp(IMAP_RESP_LIST, A);
            A.fetch = ie_fetch_resp_add_extra(E, ie_fetch_resp_seq_num(E, ie_fetch_resp_new(E), 3), ie_fetch_resp_extra_new(E, NULL, NULL, w()));
            o[1] = resp(IMAP_RESP_FETCH, A);
            a = tx(); b = ds(TG[1]);
            A.status_type = ie_st_resp_new(E, b, IE_ST_NO, NULL, a); o[2] = resp(IMAP_RESP_STATUS_TYPE, A);
            return 3;
    }
    return 0;
}

/* ---- what is checked of one object list ---- */
static uint64_t n_case, n_unwr;
static void check_pieces(bool iscmd, const void *o, const str_t *txt, size_t at0, size_t len, const extensions_t *x){
    char buf[600];
    for(size_t sz = 2; sz <= len + 1; sz += sz < 24 ? 1 : sz / 3){
        for(size_t pre = 0; pre < 2; pre++){ /* with something else in the buffer already */
            size_t skip = 0, want = 1, done = 0;
            for(int i = 0; want; i++){
                if(i > (int)len + 2) mc_fail("pieces", "writing in pieces of %zu never ends: %.200s", sz, txt->b + at0);
                if(sz + pre > sizeof(buf)) mc_error("buf");
                memset(buf, 'p', pre);
                dstr_t d = { .data = buf, .len = pre, .size = sz + pre, .fixed_size = true };
                derr_t e = iscmd ? imap_cmd_write(o, &d, &skip, &want, x) : imap_resp_write(o, &d, &skip, &want, x);
                if(is_error(e)) mc_fail("pieces", "writing in pieces of %zu fails: %.200s", sz, txt->b + at0);
                size_t got = d.len - pre;
                if(done + got > len || memcmp(buf + pre, txt->b + at0 + done, got))
                    mc_fail("pieces", "in pieces of %zu, piece %d differs from the text: %.200s", sz, i, txt->b + at0);
                done += got;
                if(done + want != len)
                    mc_fail("pieces", "in pieces of %zu, after %zu of %zu bytes, %zu more are announced", sz, done, len, want);
            }
            if(done != len) mc_fail("pieces", "in pieces of %zu, %zu of %zu bytes are written", sz, done, len);
        }
    }
}
static unsigned count_lines(const str_t *s, const char *prefix){
    unsigned n = 0;
    size_t pl = strlen(prefix);
    for(size_t i = 0; i < s->n; i++)
        if((i == 0 || s->b[i-1] == '\n') && s->n - i >= pl && !memcmp(s->b + i, prefix, pl)) n++;
    return n;
}
static str_t drop_lines(const str_t *s, const char *prefix){
    str_t o = {0};
    size_t pl = strlen(prefix), i = 0;
    while(i < s->n){
        size_t j = i;
        while(j < s->n && s->b[j] != '\n') j++;
        j = j < s->n ? j + 1 : j;
        if(!(s->n - i >= pl && !memcmp(s->b + i, prefix, pl))) s_raw(&o, s->b + i, j - i);
        i = j;
    }
    return o;
}
static unsigned count_literals(const char *t, size_t n){
    unsigned c = 0;
    for(size_t i = 0; i < n;){
        if(t[i] == '"'){ size_t j = i + 1; while(j < n && t[j] != '"') j += t[j] == '\\' ? 2 : 1; i = j + 1; continue; }
        if(t[i] == '{'){
            size_t j = i + 1, v = 0;
            while(j < n && t[j] >= '0' && t[j] <= '9') v = v * 10 + (size_t)(t[j++] - '0');
            if(j > i + 1 && j + 2 < n && !memcmp(t + j, "}\r\n", 3)){ c++; i = j + 3 + v; continue; }
        }
        i++;
    }
    return c;
}
/* may this object be refused by the writer? */
static bool g_may_refuse;
static void check_objs(bool iscmd, void **o, int n, int cutdepth){
    extensions_t x = exts_of(2);
    str_t want = {0}, txt = {0};
    bool refused = false;
    for(int i = 0; i < n; i++){
        if(iscmd) d_cmd(&want, o[i]); else d_resp(&want, o[i]);
        dstr_t d = {0};
        derr_t e = iscmd ? imap_cmd_print(o[i], &d, &x) : imap_resp_print(o[i], &d, &x);
        if(is_error(e)){
            DROP_VAR(&e);
            refused = true;
            if(!g_may_refuse) mc_fail("refused", "cannot be written: %s", s_c(&want));
        }else{
            size_t at0 = txt.n;
            s_raw(&txt, d.data, d.len);
            bool plain = false;
            if(!iscmd){
                imap_resp_t *r = o[i];
                plain = r->type == IMAP_RESP_PLUS || r->type == IMAP_RESP_STATUS_TYPE;
            }
            if((plain ? frame_text : frame)(txt.b, txt.n, at0) != txt.n)
                mc_fail("frame", "%s is written as a text which does not end exactly with the line: [%.300s]", s_c(&want), txt.b + at0);
            if(!g_bytes || n_case % 64 == 0) check_pieces(iscmd, o[i], &txt, at0, d.len, &x);
        }
        dstr_free(&d);
        /* copies mean the same */
        if(iscmd && !refused){
            derr_t e2 = E_OK;
            imap_cmd_t *c = imap_cmd_copy(&e2, o[i]);
            if(is_error(e2) || !c) mc_error("copy");
            str_t a = {0}, b = {0};
            d_cmd(&a, o[i]); d_cmd(&b, c);
            if(!s_eq(&a, &b)) mc_fail("copy", "a copy of %s is %s", s_c(&a), s_c(&b));
            s_free(&a); s_free(&b);
            imap_cmd_free(c);
        }
        if(!iscmd && !refused){
            derr_t e2 = E_OK;
            imap_resp_t *r = o[i];
            imap_resp_t c = *r;
            bool did = true;
            switch(r->type){
                case IMAP_RESP_PLUS: c.arg.plus = ie_plus_resp_copy(&e2, r->arg.plus); break;
                case IMAP_RESP_STATUS_TYPE: c.arg.status_type = ie_st_resp_copy(&e2, r->arg.status_type); break;
                case IMAP_RESP_LIST: c.arg.list = ie_list_resp_copy(&e2, r->arg.list); break;
                case IMAP_RESP_LSUB: c.arg.lsub = ie_list_resp_copy(&e2, r->arg.lsub); break;
                case IMAP_RESP_STATUS: c.arg.status = ie_status_resp_copy(&e2, r->arg.status); break;
                default: did = false;
            }
            if(is_error(e2)) mc_error("copy");
            if(did){
                str_t a = {0}, b = {0};
                d_resp(&a, r); d_resp(&b, &c);
                if(!s_eq(&a, &b)) mc_fail("copy", "a copy of %s is %s", s_c(&a), s_c(&b));
                s_free(&a); s_free(&b);
                switch(r->type){
                    case IMAP_RESP_PLUS: ie_plus_resp_free(c.arg.plus); break;
                    case IMAP_RESP_STATUS_TYPE: ie_st_resp_free(c.arg.status_type); break;
                    case IMAP_RESP_LIST: ie_list_resp_free(c.arg.list); break;
                    case IMAP_RESP_LSUB: ie_list_resp_free(c.arg.lsub); break;
                    case IMAP_RESP_STATUS: ie_status_resp_free(c.arg.status); break;
                    default: break;
                }
            }
        }
    }
    n_case++;
    if(refused){ n_unwr++; s_free(&want); s_free(&txt); return; }
    bool f;
    str_t t2 = {0}, got, got2;
    if(iscmd) t2 = unplus(txt.b, txt.n); else s_raw(&t2, txt.b, txt.n);
    got = iscmd ? read_cmds(t2.b, t2.n, NULL, 0, 2, &f) : read_resps(t2.b, t2.n, NULL, 0, 2, &f);
    if(iscmd){
        unsigned np = count_lines(&got, "PLUS_REQ"), nl = count_literals(t2.b, t2.n);
        if(np != nl) mc_fail("literal", "%u continuation requests for %u literals: [%.300s]", np, nl, t2.b);
        got2 = drop_lines(&got, "PLUS_REQ");
    }else{ got2 = (str_t){0}; s_raw(&got2, got.b, got.n); }
    if(!s_eq(&got2, &want)) mc_fail("round", "%s is written as [%.300s] and read back as %s", s_c(&want), t2.b, s_c(&got2));
    check_cuts(iscmd, t2.b, t2.n, 2, &got, cutdepth);
    mc_outcome(mc_hash(1, t2.b, t2.n));
    s_free(&want); s_free(&txt); s_free(&t2); s_free(&got); s_free(&got2);
}

static void run_round(void){
    bool iscmd = mc_choose(2, "side") == 0;
    int t = (int)mc_choose(iscmd ? 25 : 17, "template");
    g_bytes = !strcmp(mc_opts("mode", "round"), "bytes");
    /* quick: the templates with one position of each kind of string */
    if(g_bytes && mc_opt("quick", 0)){
        static const bool c[25] = { [1] = 1, [4] = 1, [9] = 1, [12] = 1, [16] = 1, [24] = 1 }, r[17] = { [1] = 1, [2] = 1, [4] = 1, [12] = 1, [16] = 1 };
        if(!(iscmd ? c : r)[t]) return;
    }
    int nvar = 3;
    g_varied = (int)mc_choose((unsigned)nvar, "position");
    if(g_bytes){ g_rest = mc_choose(mc_opt("quick", 0) ? 1 : 2, "rest"); g_bhi = mc_choose(256, "byte"); }
    g_small = (unsigned)mc_opt("small", 2);
    int depth = (int)mc_opt("cuts", 1);
    /* templates with many dimensions are split up further */
    derr_t e = E_OK;
    E = &e;
    g_may_refuse = g_bytes;
    g_few = (unsigned)mc_opt("few", 2);
    o_slim = mc_opt("slim", 1);
    ptop = 0;
    psplit = g_bytes ? 0 : (int)mc_opt("split", 2);
    int used = 0;
    uint64_t k = 0, cap = (uint64_t)mc_opt("cap", 0);
    do{
        pd = 0; g_pos = 0; g_slim = 0; g_inner = 0;
        void *o[4] = {0};
        int n = iscmd ? build_cmd(t, (imap_cmd_t**)o) : build_resp(t, (imap_resp_t**)o);
        if(is_error(e)) mc_error("building template %d: %s", t, error_to_dstr(e.type).data);
        if(!n) mc_error("template %d", t);
        if(g_pos > used) used = g_pos;
        if(mc_verbose() && cap) mc_log("case %lu", (unsigned long)k);
        /* nothing varies in this position in any of its cases: done by position 0 */
        if(g_varied == 0 || g_pos > g_varied) check_objs(iscmd, o, n, depth);
        for(int i = 0; i < n; i++){ if(iscmd) imap_cmd_free(o[i]); else imap_resp_free(o[i]); }
        k++;
        if(g_bytes && g_varied >= g_pos && g_varied) break;
        if(g_bytes && g_varied == 0 && g_pos == 0) break;
    }while(p_next());
    mc_case(k);
    if(mc_opt("only", 0)) fprintf(stderr, "T %d %d %d %lu\n", iscmd, t, g_varied, (unsigned long)k);
}

static void run(void){
    const char *m = mc_opts("mode", "round");
    if(!strcmp(m, "round") || !strcmp(m, "bytes")) run_round();
    else mc_error("mode");
}
static const mc_harness_t H = { .name = "d01_imap", .init = feed_init, .run = run, .exec_timeout = 300 };
int main(int argc, char **argv){ return mc_main(argc, argv, &H); }
