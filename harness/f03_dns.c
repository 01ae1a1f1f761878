// F03: every DNS packet gets a well-formed, correct answer or none.
// The real handle_packet() runs on exhaustively enumerated packets placed
// against a guard page; an independent reference parser/responder decides.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <unistd.h>

#include "server/dns/libdns.h"
#include "mc/mc.h"

typedef unsigned char u8;

// ---------------------------------------------------------------- guards
#define AREA 8192
static u8 *qarea, *rarea; // end of area is followed by an inaccessible page

static u8 *guarded(void){
    u8 *p = mmap(NULL, AREA + 8192, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED) mc_error("mmap");
    if(mprotect(p + 4096, AREA, PROT_READ|PROT_WRITE)) mc_error("mprotect");
    return p + 4096;
}

static void init(void){
    qarea = guarded();
    rarea = guarded();
}

// ---------------------------------------------------------------- reference
typedef struct { u8 len; u8 txt[63]; } lab_t;
typedef struct { lab_t l[130]; int n; } name_t;

typedef struct {
    bool bad;
    unsigned id, qr, opcode, rd, aa, tc, ra, z, rcode;
    unsigned cnt[4];
    name_t q; unsigned qtype, qclass;
    bool edns; unsigned udp;
} req_t;

// returns new position or -1
static int r_name(const u8 *b, int len, int pos, name_t *out){
    int ret = -1, total = 0;
    bool lastptr = false;
    if(out) out->n = 0;
    while(true){
        if(pos >= len) return -1;
        int c = b[pos++];
        if(c >= 0xc0){
            if(lastptr || pos >= len) return -1;
            int to = (c & 0x3f) << 8 | b[pos++];
            if(ret < 0) ret = pos;
            pos = to;
            lastptr = true;
            continue;
        }
        lastptr = false;
        if(c > 63) return -1;
        total += c + 1;
        if(total > 255) return -1;
        if(pos + c > len) return -1;
        if(c == 0) return ret < 0 ? pos : ret;
        if(out){
            out->l[out->n].len = (u8)c;
            memcpy(out->l[out->n].txt, b + pos, (size_t)c);
            out->n++;
        }
        pos += c;
    }
}

#define U16(p) ((unsigned)((p)[0] << 8 | (p)[1]))
#define U32(p) (((unsigned)U16(p) << 16) | U16((p)+2))

typedef struct {
    name_t name; int nameoff; unsigned type, class, ttl, rdlen; int rdoff;
} refrr_t;

static int r_rr(const u8 *b, int len, int pos, refrr_t *rr){
    rr->nameoff = pos;
    pos = r_name(b, len, pos, &rr->name);
    if(pos < 0 || pos + 10 > len) return -1;
    rr->type = U16(b+pos); rr->class = U16(b+pos+2);
    rr->ttl = U32(b+pos+4); rr->rdlen = U16(b+pos+8);
    rr->rdoff = pos + 10;
    pos += 10;
    if(pos + (int)rr->rdlen > len) return -1;
    return pos + (int)rr->rdlen;
}

static void r_parse(req_t *r, const u8 *b, int len){
    static refrr_t rr;
    memset(r, 0, sizeof(*r));
    r->bad = true;
    if(len < 12) return;
    r->id = U16(b);
    r->qr = b[2] >> 7; r->opcode = b[2] >> 3 & 15; r->aa = b[2] >> 2 & 1;
    r->tc = b[2] >> 1 & 1; r->rd = b[2] & 1;
    r->ra = b[3] >> 7; r->z = b[3] >> 4 & 7; r->rcode = b[3] & 15;
    for(int i = 0; i < 4; i++) r->cnt[i] = U16(b + 4 + 2*i);
    int pos = 12;
    if(r->cnt[0] != 1) return; // never served anyway
    pos = r_name(b, len, pos, &r->q);
    if(pos < 0 || pos + 4 > len) return;
    r->qtype = U16(b+pos); r->qclass = U16(b+pos+2);
    pos += 4;
    for(int s = 1; s < 4; s++) for(unsigned i = 0; i < r->cnt[s]; i++){
        pos = r_rr(b, len, pos, &rr);
        if(pos < 0) return;
        if(s == 3 && rr.type == 41){
            if(r->edns) return; // two OPTs
            if(b[rr.nameoff]) return;
            int o = rr.rdoff, end = rr.rdoff + (int)rr.rdlen;
            while(o < end){
                if(o + 4 > end) return;
                int ol = (int)U16(b+o+2);
                if(o + 4 + ol > end) return;
                o += 4 + ol;
            }
            r->edns = true;
            r->udp = rr.class;
        }
    }
    r->bad = false;
}

static bool labeq(const lab_t *l, const char *s){
    if(l->len != strlen(s)) return false;
    for(int i = 0; i < l->len; i++){
        int a = l->txt[i], c = (u8)s[i];
        if(a >= 'A' && a <= 'Z') a += 32;
        if(c >= 'A' && c <= 'Z') c += 32;
        if(a != c) return false;
    }
    return true;
}
// i counted from the root
static bool top(const name_t *n, int i, const char *s){
    return i < n->n && labeq(&n->l[n->n - 1 - i], s);
}
static bool nameis(const name_t *n, const char *a, const char *b, const char *c){
    return n->n == 3 && top(n, 0, c) && top(n, 1, b) && top(n, 2, a);
}
static bool sameci(const name_t *a, const name_t *b){
    if(a->n != b->n) return false;
    for(int i = 0; i < a->n; i++){
        char s[64] = {0};
        if(memchr(b->l[i].txt, 0, b->l[i].len)){
            if(a->l[i].len != b->l[i].len || memcmp(a->l[i].txt, b->l[i].txt, a->l[i].len)) return false;
            continue;
        }
        memcpy(s, b->l[i].txt, b->l[i].len);
        if(!labeq(&a->l[i], s)) return false;
    }
    return true;
}

// ---------------------------------------------------------------- record source
enum { S_NONE, S_UNSURE, S_SHORT, S_43, S_255, S_N };
static char secret[256];
static int sstate;
static bool asked; static char asked_user[64]; static size_t asked_len;
static dstr_t sval;
static const dstr_t *iget(kvp_i *i, lstr_t user){
    (void)i;
    asked = true;
    asked_len = user.len;
    if(user.len <= 63) memcpy(asked_user, user.str, user.len);
    if(sstate == S_NONE) return NULL;
    if(sstate == S_UNSURE) return UNSURE;
    return &sval;
}
static size_t slen(void){
    return sstate == S_SHORT ? 1 : sstate == S_43 ? 43 : 255;
}

// ---------------------------------------------------------------- check one
static char hexbuf[4096];
static const char *hex(const u8 *b, int len){
    int o = 0;
    for(int i = 0; i < len && o + 3 < (int)sizeof(hexbuf); i++) o += sprintf(hexbuf + o, "%02x", b[i]);
    return hexbuf;
}
#define BADR(key, ...) do { \
    char _m[400]; snprintf(_m, sizeof(_m), __VA_ARGS__); \
    mc_log("packet %s", hex(pkt, len)); mc_log("secret state %d rcap %zu", sstate, rcap); \
    if(n) mc_log("response %s", hex(resp, (int)n)); \
    mc_fail(key, "%s (packet %s)", _m, hex(pkt, len)); \
} while(0)

static bool want_fmt;
static uint64_t nresp;

static void check(const u8 *data, int len, size_t rcap){
    static req_t r;
    u8 *pkt = qarea + AREA - len;
    memcpy(pkt, data, (size_t)len);
    // poison what lies before
    memset(pkt - 64, 0x3f, 64);
    u8 *resp = rarea + AREA - rcap;
    memset(resp - 16, 0xa5, rcap + 16);
    asked = false;
    sval = (dstr_t){ .data = secret, .len = slen(), .size = 256, .fixed_size = true };
    kvp_i kvp = { .iget = iget };
    size_t n = handle_packet((char*)pkt, (size_t)len, &kvp, (char*)resp, rcap);
    if(memcmp(pkt, data, (size_t)len)) BADR("query-modified", "the query was overwritten");
    for(int i = 1; i <= 16; i++) if(resp[-i] != 0xa5) BADR("underrun", "write before the response buffer");

    if(want_fmt){
        // what debug logging would do
        dns_pkt_t p;
        if(!is_bad_parse(parse_pkt(&p, (char*)pkt, (size_t)len))){
            DSTR_VAR(tmp, 4096);
            DROP_CMD( FMT(&tmp, "%x", FPKT(p)) );
        }
    }

    r_parse(&r, pkt, len);
    bool silent = r.bad || r.qr || r.opcode || r.cnt[0] != 1 || r.qclass != 1 || r.qtype == 0
        || !top(&r.q, 0, "com") || !top(&r.q, 1, "splintermail") || !top(&r.q, 2, "user");
    if(silent){
        if(n) BADR(r.bad ? "malformed-answered" : "answered", "expected silence for a %s packet, got %zu bytes",
            r.bad ? "malformed" : "foreign", n);
        return;
    }
    if(!n) BADR("unanswered", "no answer to a valid query");
    nresp++;
    size_t lim = 512;
    if(r.edns){ lim = r.udp < rcap ? r.udp : rcap; if(lim < 512) lim = 512; }
    if(n > lim) BADR("too-big", "response of %zu bytes, the client takes %zu", n, lim);
    for(size_t i = n; i < rcap; i++) if(resp[i] != 0xa5){
        // scratch bytes behind the response are harmless, overflows hit the guard
        break;
    }
    // expected
    int nl = r.q.n;
    enum { OK=0, SRV=2, NX=3, NI=4 };
    unsigned rcode = OK; bool aa = true, soa = false, wantask = false;
    unsigned ans[2]; int nans = 0;
    if(r.qtype > 16 && r.qtype != 28 && r.qtype != 257){ rcode = NI; aa = false; }
    else if(nl == 3){
        if(r.qtype == 6) ans[nans++] = 6;
        else if(r.qtype == 2){ ans[nans++] = 2; ans[nans++] = 2; }
        else if(r.qtype == 257) ans[nans++] = 257;
        else soa = true;
    }else if(nl == 4){
        if(r.qtype == 1 || r.qtype == 28 || r.qtype == 257) ans[nans++] = r.qtype;
        else soa = true;
    }else if(nl == 5 && top(&r.q, 4, "_acme-challenge")){
        wantask = true;
        if(r.qtype != 16) soa = true;
        else if(sstate == S_NONE) soa = true;
        else if(sstate == S_UNSURE) rcode = SRV;
        else ans[nans++] = 16;
    }else{ rcode = NX; soa = true; }
    if(wantask && r.qtype == 16){
        lab_t *u = &r.q.l[1];
        if(!asked) BADR("no-lookup", "challenge answered without a lookup");
        if(asked_len != u->len || memcmp(asked_user, u->txt, u->len)) BADR("wrong-user", "wrong user looked up");
    }
    // response header
    req_t h;
    memset(&h, 0, sizeof(h));
    if(n < 12) BADR("short", "response of %zu bytes", n);
    h.id = U16(resp);
    if(h.id != r.id) BADR("id", "id %x for %x", h.id, r.id);
    if(!(resp[2] >> 7)) BADR("qr", "response bit not set");
    if(resp[2] >> 3 & 15) BADR("opcode", "opcode in response");
    if((resp[2] & 1u) != r.rd) BADR("rd", "rd bit not copied");
    if((resp[2] >> 2 & 1) != aa) BADR("aa", "aa bit should be %d", aa);
    if(resp[2] >> 1 & 1) BADR("tc", "truncated though everything fits");
    if(resp[3] >> 4) BADR("raz", "ra or z bits set");
    if((resp[3] & 15u) != rcode) BADR("rcode", "rcode %u expected %u", resp[3] & 15u, rcode);
    unsigned c[4]; for(int i = 0; i < 4; i++) c[i] = U16(resp + 4 + 2*i);
    if(c[0] != 1) BADR("qdcount", "qdcount %u", c[0]);
    if((int)c[1] != nans) BADR("ancount", "%u answers, expected %d", c[1], nans);
    if(c[2] != (unsigned)soa) BADR("nscount", "%u authority records, expected %d", c[2], soa);
    if(c[3] != (unsigned)r.edns) BADR("arcount", "%u additional records, expected %d", c[3], r.edns);
    int pos = 12; static name_t qn;
    pos = r_name(resp, (int)n, pos, &qn);
    if(pos < 0 || pos + 4 > (int)n) BADR("question", "bad question in response");
    if(qn.n != r.q.n || memcmp(qn.l, r.q.l, sizeof(lab_t) * 0)) BADR("question", "question changed");
    for(int i = 0; i < qn.n; i++)
        if(qn.l[i].len != r.q.l[i].len || memcmp(qn.l[i].txt, r.q.l[i].txt, qn.l[i].len)) BADR("question", "question changed");
    if(U16(resp+pos) != r.qtype || U16(resp+pos+2) != r.qclass) BADR("question", "question type changed");
    pos += 4;
    int nsseen = 0; bool ns1 = false, ns2 = false;
    for(int s = 1; s < 4; s++) for(unsigned i = 0; i < c[s]; i++){
        static refrr_t rr; static name_t nm;
        pos = r_rr(resp, (int)n, pos, &rr);
        if(pos < 0) BADR("resp-rr", "malformed record in response");
        const u8 *rd = resp + rr.rdoff;
        unsigned want = s == 1 ? ans[i] : s == 2 ? 6 : 41;
        if(rr.type != want) BADR("rr-type", "record type %u expected %u", rr.type, want);
        if(want == 41){
            if(rr.name.n || rr.rdlen || rr.ttl || rr.class < 512) BADR("edns", "bad OPT record");
            continue;
        }
        if(rr.class != 1) BADR("rr-class", "class %u", rr.class);
        if(s == 1 && !sameci(&rr.name, &r.q)) BADR("rr-name", "answer for another name");
        if(s == 2 && !nameis(&rr.name, "user", "splintermail", "com")) BADR("soa-name", "SOA for another zone");
        unsigned ttl = want == 16 || want == 257 ? 60 : 86400;
        if(rr.ttl != ttl) BADR("ttl", "ttl %u expected %u", rr.ttl, ttl);
        switch(want){
            case 1: if(rr.rdlen != 4 || memcmp(rd, "\x7f\0\0\x01", 4)) BADR("rdata", "A record"); break;
            case 28: if(rr.rdlen != 16 || memcmp(rd, "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\1", 16)) BADR("rdata", "AAAA record"); break;
            case 257: if(rr.rdlen != 22 || memcmp(rd, "\x80\x05issueletsencrypt.org", 22)) BADR("rdata", "CAA record"); break;
            case 16: if(rr.rdlen != slen() + 1 || rd[0] != slen() || memcmp(rd + 1, secret, slen())) BADR("rdata", "TXT record"); break;
            case 2: {
                int e = r_name(resp, (int)n, rr.rdoff, &nm);
                if(e != rr.rdoff + (int)rr.rdlen) BADR("rdata", "NS record length");
                nsseen++;
                if(nameis(&nm, "ns1", "splintermail", "com")) ns1 = true;
                else if(nameis(&nm, "ns2", "splintermail", "com")) ns2 = true;
                else BADR("rdata", "NS name");
                break;
            }
            case 6: {
                int e = r_name(resp, (int)n, rr.rdoff, &nm);
                if(e < 0 || !nameis(&nm, "ns1", "splintermail", "com")) BADR("rdata", "SOA mname");
                e = r_name(resp, (int)n, e, &nm);
                if(e < 0 || !nameis(&nm, "hostmaster", "splintermail", "com")) BADR("rdata", "SOA rname");
                if(e + 20 != rr.rdoff + (int)rr.rdlen) BADR("rdata", "SOA length");
                const u8 *p = resp + e;
                if(U32(p+4) != 300 || U32(p+8) != 60 || U32(p+12) != 86400 || U32(p+16) != 60) BADR("rdata", "SOA numbers");
                break;
            }
        }
    }
    if(nsseen && !(ns1 && ns2)) BADR("ns-pair", "name servers incomplete");
    if(pos != (int)n) BADR("trailing", "%d bytes behind the last record", (int)n - pos);
}

// ---------------------------------------------------------------- builders
typedef struct { u8 b[4096]; int n; } buf_t;
static void p8(buf_t *b, unsigned v){ b->b[b->n++] = (u8)v; }
static void p16(buf_t *b, unsigned v){ p8(b, v >> 8); p8(b, v & 255); }
static void p32(buf_t *b, unsigned v){ p16(b, v >> 16); p16(b, v & 65535); }
static void plab(buf_t *b, const char *s){
    size_t l = strlen(s);
    p8(b, (unsigned)l); memcpy(b->b + b->n, s, l); b->n += (int)l;
}
static void hdr(buf_t *b, unsigned f2, unsigned f3, unsigned qd, unsigned an, unsigned ns, unsigned ar){
    b->n = 0;
    p16(b, 0xbe3f); p8(b, f2); p8(b, f3); p16(b, qd); p16(b, an); p16(b, ns); p16(b, ar);
}

static const unsigned qtypes[] = {0,1,2,3,5,6,12,15,16,17,27,28,29,41,252,255,256,257,258,0x1001,0xffff};
#define NQT (sizeof(qtypes)/sizeof(*qtypes))

// all label sequences up to depth over an alphabet, by type and record state
static const char *alpha[] = {"com","splintermail","user","_acme-challenge","x","uSer",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa","co","comm"};
static void names_rec(const unsigned *lab, int n, int edns){
    buf_t b;
    hdr(&b, 1, 0, 1, 0, 0, edns ? 1 : 0);
    for(int i = n - 1; i >= 0; i--) plab(&b, alpha[lab[i]]);
    p8(&b, 0);
    int at = b.n;
    for(size_t t = 0; t < NQT; t++){
        b.n = at;
        p16(&b, qtypes[t]); p16(&b, 1);
        if(edns){ p8(&b, 0); p16(&b, 41); p16(&b, edns == 1 ? 100 : 4096); p32(&b, 0); p16(&b, 0); }
        bool acme = n == 5;
        for(sstate = 0; sstate < (acme && qtypes[t] == 16 ? S_N : 1); sstate++){
            check(b.b, b.n, 1280);
            mc_case(1);
        }
    }
}
static void run_names(void){
    unsigned na = sizeof(alpha)/sizeof(*alpha), lab[8];
    int depth = (int)mc_opt("depth", 6);
    int edns = (int)mc_choose(3, "edns");
    // fixed-prefix zone first, then all
    int n = (int)mc_choose((unsigned)depth + 1, "nlabels");
    bool zone = n >= 3 && mc_choose(2, "zone") == 0;
    if(zone){ lab[0] = 0; lab[1] = 1; lab[2] = mc_choose(2, "case") ? 5 : 2; }
    int from = zone ? 3 : 0;
    if(!zone && n > 4){ // foreign names are silent: shorter depth is enough
        n = 4;
    }
    int split = from < n ? from + 1 : from;
    for(int i = from; i < split; i++) lab[i] = mc_choose(na, "label");
    unsigned idx[8] = {0};
    while(true){
        for(int i = split; i < n; i++) lab[i] = idx[i];
        names_rec(lab, n, edns);
        int i = split;
        while(i < n && ++idx[i] == na) idx[i++] = 0;
        if(i >= n) break;
    }
}

// header fields and qclass
static void run_hdr(void){
    buf_t b;
    unsigned f2 = mc_choose(256, "f2");
    for(unsigned f3 = 0; f3 < 256; f3 += (f2 ? 15 : 1)) for(unsigned qd = 0; qd < 4; qd++)
        for(unsigned qc = 0; qc < 4; qc++) for(unsigned ex = 0; ex < 3; ex++){
            hdr(&b, f2, f3, qd == 3 ? 256 : qd, 0, 0, 0);
            for(unsigned i = 0; i < (qd == 0 ? (ex ? 1 : 0) : qd == 3 ? 1 : qd); i++){
                if(ex == 2) p16(&b, 0xc000 + 12);
                else{ plab(&b, "x"); plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); p8(&b, 0); }
            }
            p16(&b, 1); p16(&b, qc == 3 ? 255 : qc);
            sstate = S_NONE;
            check(b.b, b.n, 1280);
            check(b.b, b.n, 512);
            mc_case(2);
        }
}

// names made of odd pieces: pointers to every offset, long labels, reserved
// label types, embedded zero bytes
static void run_odd(void){
    buf_t b;
    unsigned pre = mc_choose(6, "prefix"), k = mc_choose(5, "kind");
    // the zone name starts in the additional record (offset known), or inline
    for(unsigned arg = 0; arg < 512; arg++) for(unsigned qt = 0; qt < 3; qt++){
        hdr(&b, 0, 0, 1, 0, 0, qt == 2 ? 1 : 0);
        switch(pre){
            case 0: break;
            case 1: plab(&b, "x"); break;
            case 2: plab(&b, "_Acme-challenge"); plab(&b, "Bob"); break;
            case 3: for(int i = 0; i < 3; i++) plab(&b, alpha[6]); break;
            case 4: for(int i = 0; i < 100; i++) plab(&b, "a"); break;
            case 5: plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); p8(&b, 0); b.n = 12; p8(&b, 4); b.n = 12; 
                    plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); break;
        }
        if(k == 0){ // pointer to every offset (low), target may be itself
            p16(&b, 0xc000 + arg);
        }else if(k == 1){ // reserved/length byte
            if(arg > 255) break;
            p8(&b, arg);
            for(unsigned i = 0; i < (arg & 63); i++) p8(&b, 'u');
            p8(&b, 0);
        }else if(k == 2){ // label with embedded nul / case bytes
            if(arg > 255) break;
            plab(&b, "user"); plab(&b, "splintermail");
            p8(&b, 3); p8(&b, 'c'); p8(&b, 'o'); p8(&b, arg); p8(&b, 0);
        }else if(k == 3){ // total length around 255
            if(arg > 70) break;
            int l = 255 - 23 - (b.n - 12) - 35 + (int)arg; // spans the limit
            if(l > 63){ plab(&b, alpha[6]); l -= 64; }
            if(l > 63){ plab(&b, alpha[6]); l -= 64; }
            if(l > 63){ plab(&b, alpha[6]); l -= 64; }
            if(l > 0 && l < 64){ p8(&b, (unsigned)l); for(int i = 0; i < l; i++) p8(&b, 'q'); }
            plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); p8(&b, 0);
        }else{ // pointer chains
            int at = b.n;
            p16(&b, 0xc000 + (unsigned)(at + 2 + (int)(arg % 64)));
        }
        p16(&b, qt == 1 ? 16 : 1); p16(&b, 1);
        if(qt == 2){ // a record that carries the zone name
            plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); p8(&b, 0);
            p16(&b, 1); p16(&b, 1); p32(&b, 0); p16(&b, 4); p32(&b, 0xc00cc00c);
        }
        for(sstate = 0; sstate < (pre == 2 && qt == 1 ? S_N : 1); sstate++){ check(b.b, b.n, 1280); mc_case(1); }
        // extra room behind the packet must not matter
        plab(&b, "com"); p8(&b, 0);
        sstate = 0;
        check(b.b, b.n, 1280); mc_case(1);
    }
}

// records: every combination of up to nrr records from an alphabet, and every
// truncation of each such packet
static void prr(buf_t *b, unsigned c){
    // c: name 5 x kind 14
    switch(c % 5){
        case 0: p8(b, 0); break;
        case 1: plab(b, "a"); p8(b, 0); break;
        case 2: p16(b, 0xc00c); break;
        case 3: p16(b, 0xc000 + (unsigned)b->n); break;   // itself
        case 4: plab(b, "b"); p16(b, 0xc000 + 12 + 2); break; // into the middle
    }
    static const struct { unsigned type, class; int rdlen; unsigned n; u8 d[12]; } k[] = {
        {41, 0, 0, 0, {0}}, {41, 512, 0, 0, {0}}, {41, 4096, 0, 0, {0}},
        {41, 1000, 4, 4, {0,3,0,0}}, {41, 600, 6, 6, {0,10,0,2,9,9}},
        {41, 600, 8, 8, {0,10,0,0,0,11,0,0}},
        {41, 600, 3, 3, {0,10,0}}, {41, 600, 5, 5, {0,10,0,2,9}}, {41, 600, 4, 4, {0,10,1,0}},
        {1, 1, 4, 4, {127,0,0,1}}, {1, 1, 4, 4, {0xc0,0xff,0xc0,0xff}},
        {1, 1, 11, 11, {0,0,41,2,0,0,0,0,0,0,0}}, // rdata looking like an OPT record
        {16, 1, 4, 4, {63,63,191,191}}, {1, 1, 200, 4, {0,0,0,0}},
    };
    unsigned q = c / 5;
    p16(b, k[q].type); p16(b, k[q].class); p32(b, 0); p16(b, (unsigned)k[q].rdlen);
    for(unsigned i = 0; i < k[q].n; i++) p8(b, k[q].d[i]);
}
#define NRR 70
static void one_rrs(unsigned na, unsigned nn, unsigned nr, const unsigned *rr, bool cuts){
    buf_t b;
    hdr(&b, 0, 0, 1, na, nn, nr);
    plab(&b, "x"); plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); p8(&b, 0);
    p16(&b, 1); p16(&b, 1);
    for(unsigned i = 0; i < na + nn + nr; i++) prr(&b, rr[i]);
    sstate = S_NONE;
    check(b.b, b.n, 1280); mc_case(1);
    if(cuts) for(int l = 0; l < b.n; l++){ check(b.b, l, 1280); mc_case(1); }
    // an announced record which is missing
    b.b[11]++;
    check(b.b, b.n, 1280); mc_case(1);
}
static void run_rrs(void){
    unsigned max = (unsigned)mc_opt("nrr", 2), rr[4];
    unsigned n = mc_choose(max + 1, "nrr");
    unsigned na = n ? mc_choose(n + 1, "an") : 0;
    unsigned nn = n - na ? mc_choose(n - na + 1, "ns") : 0;
    unsigned idx[4] = {0};
    unsigned split = n ? 1 : 0;
    if(n) rr[0] = mc_choose(NRR, "rr0");
    want_fmt = n <= 2;
    while(true){
        for(unsigned i = split; i < n; i++) rr[i] = idx[i];
        one_rrs(na, nn, n - na - nn, rr, n <= 2);
        unsigned i = split;
        while(i < n && ++idx[i] == NRR) idx[i++] = 0;
        if(i >= n) break;
    }
    want_fmt = false;
}

// all byte strings up to a length over an alphabet behind a header (question
// part and record part)
static void run_bytes(void){
    static const u8 al[] = {0, 1, 3, 'u', 0xc0, 0x0c, 41, 0xff, 0x40, 14};
    unsigned na = sizeof(al), max = (unsigned)mc_opt("len", 6);
    unsigned part = mc_choose(3, "part");
    unsigned n = mc_choose(max + 1, "n");
    unsigned idx[16] = {0};
    unsigned split = n ? 1 : 0;
    if(n) idx[0] = mc_choose(na, "b0");
    if(n > 1){ idx[1] = mc_choose(na, "b1"); split = 2; }
    buf_t b;
    want_fmt = false;
    while(true){
        if(part == 0){
            hdr(&b, 0, 0, 1, 0, 0, 0);
            for(unsigned i = 0; i < n; i++) p8(&b, al[idx[i]]);
        }else if(part == 1){ // raw bytes as additional record after a good question
            hdr(&b, 0, 0, 1, 0, 0, 1);
            plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); p8(&b, 0);
            p16(&b, 6); p16(&b, 1);
            // name bytes vary, then a complete OPT header
            for(unsigned i = 0; i < n; i++) p8(&b, al[idx[i]]);
            p16(&b, 41); p16(&b, 1000); p32(&b, 0); p16(&b, 0);
        }else{ // options vary
            hdr(&b, 0, 0, 1, 0, 0, 1);
            plab(&b, "user"); plab(&b, "splintermail"); plab(&b, "com"); p8(&b, 0);
            p16(&b, 6); p16(&b, 1);
            p8(&b, 0); p16(&b, 41); p16(&b, 1000); p32(&b, 0); p16(&b, n);
            for(unsigned i = 0; i < n; i++) p8(&b, al[idx[i]]);
        }
        sstate = S_NONE;
        check(b.b, b.n, 1280); mc_case(1);
        unsigned i = split;
        while(i < n && ++idx[i] == na) idx[i++] = 0;
        if(i >= n) break;
    }
}

static void run(void){
    for(int i = 0; i < 256; i++) secret[i] = (char)(i * 7 + 1);
    nresp = 0;
    const char *mode = mc_opts("mode", "names");
    if(!strcmp(mode, "names")) run_names();
    else if(!strcmp(mode, "hdr")) run_hdr();
    else if(!strcmp(mode, "odd")) run_odd();
    else if(!strcmp(mode, "rrs")) run_rrs();
    else if(!strcmp(mode, "bytes")) run_bytes();
    else mc_error("unknown mode");
    mc_outcome(nresp);
}

int main(int argc, char **argv){
    mc_harness_t h = { .name = "f03_dns", .run = run, .init = init, .exec_timeout = 60 };
    return mc_main(argc, argv, &h);
}
