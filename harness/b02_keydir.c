#define _GNU_SOURCE
// B02: what the real keydir makes of downloaded messages: encrypted, altered,
// and not encrypted at all.  B03: which keys are announced to the user, over
// all short histories of keys appearing and disappearing, mailboxes synced and
// messages decrypted, with restarts, crash points and failing writes.
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include "mc/mc.h"
#include "libdstr/libdstr.h"
#include "libcrypto/libcrypto.h"
#include "libcitm/libcitm.h"
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/pem.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <setjmp.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>

static sigjmp_buf env;
static bool crash_on;
static bool armed(void){ return crash_on && mc_dev_left(); }
static void crash(const char *what){ mc_log("CRASH at %s", what); siglongjmp(env, 1); }
static void on_disk_full(void){ mc_log("disk full"); }
#include "harness/crash.h"
int __real_fsync(int fd); int __wrap_fsync(int fd);
int __wrap_fsync(int fd){ (void)fd; return 0; }
// reading a private key may fail for want of file descriptors
static bool flaky_open; static int nflaky;
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...){
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if(flaky_open && (fl & O_ACCMODE) == O_RDONLY && strstr(p, ".pem") && mc_dev(2, "EMFILE")){ mc_log("no file descriptor left for %s", strrchr(p, '/')); nflaky++; errno = EMFILE; return -1; }
    return __real_open(p, fl, mode);
}
// key generation is slow
static EVP_PKEY *gen; static int ngen;
EVP_PKEY *__wrap_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *c, const char *pq, const char *type, ...);
EVP_PKEY *__wrap_EVP_PKEY_Q_keygen(OSSL_LIB_CTX *c, const char *pq, const char *type, ...){ (void)c; (void)pq; (void)type; ngen++; EVP_PKEY_up_ref(gen); return gen; }

static uint64_t rstate;
static int r_bytes(unsigned char *b, int n){ for(int i = 0; i < n; i++){ rstate = rstate * 6364136223846793005ull + 1442695040888963407ull; b[i] = (unsigned char)(rstate >> 56); if(!b[i]) b[i] = 1; } return 1; }
static int r_stat(void){ return 1; }
static int r_seed(const void *p, int n){ (void)p; (void)n; return 1; }
static int r_add(const void *p, int n, double d){ (void)p; (void)n; (void)d; return 1; }
static RAND_METHOD rm = { r_seed, r_bytes, NULL, r_add, r_bytes, r_stat };

typedef struct { char *p; size_t n, cap; } sb_t;
static void add(sb_t *s, const void *p, size_t n){ if(s->n + n + 1 > s->cap){ s->cap = (s->n + n + 64) * 2; s->p = realloc(s->p, s->cap); } if(n) memcpy(s->p + s->n, p, n); s->n += n; s->p[s->n] = 0; }
static void adds(sb_t *s, const char *p){ add(s, p, strlen(p)); }
#define HS 8
static const char *hex(const char *p, size_t n){ static char o[HS][400]; static int w; char *q = o[w++ % HS]; size_t k = 0; for(size_t i = 0; i < n && k < 380; i++) k += (size_t)sprintf(q + k, (unsigned char)p[i] < 32 || (unsigned char)p[i] > 126 ? "<%02x>" : "%c", (unsigned char)p[i]); q[k] = 0; return q; }

#define NPEER 4
typedef struct { keypair_t *kp; sb_t pem, pub; char hex[80]; char bin[80]; size_t nbin; } key_t_;
static key_t_ me, peer[NPEER];

static char root[300];
static string_builder_t rootsb;
static keydir_i *kd;
static const char *inboxdir(void){ static char p[400]; snprintf(p, sizeof(p), "%s/u@x/mail/INBOX/cur", root); return p; }
static bool slurp(const char *p, sb_t *o){ o->n = 0; add(o, "", 0); FILE *f = fopen(p, "r"); if(!f) return false; char b[4096]; size_t n; while((n = fread(b, 1, sizeof(b), f))) add(o, b, n); fclose(f); return true; }
static void spit(const char *p, const sb_t *s){ FILE *f = fopen(p, "w"); if(!f) mc_error("spit %s", p); if(fwrite(s->p, 1, s->n, f) != s->n) mc_error("spit"); fclose(f); }

static void wipe(void){ char c[400]; snprintf(c, sizeof(c), "%s/u@x", root); string_builder_t p = SBS(c); DROP_CMD( rm_rf_path(&p) ); }
static void fresh(void){
    wipe();
    char p[400]; snprintf(p, sizeof(p), "%s/u@x", root); mkdir(p, 0700); snprintf(p, sizeof(p), "%s/u@x/keys", root); mkdir(p, 0700);
    snprintf(p, sizeof(p), "%s/u@x/keys/mykey.pem", root); spit(p, &me.pem);
}
static dstr_t wrap(const void *p, size_t n){ dstr_t d; DSTR_WRAP(d, (char*)(uintptr_t)p, n, false); return d; }

static void encrypt(const key_t_ **keys, size_t nk, const char *p, size_t n, sb_t *out){
    static encrypter_t ec; static bool have;
    derr_t e; if(!have){ e = encrypter_new(&ec); if(is_error(e)) mc_error("encrypter"); have = true; }
    link_t list; link_init(&list);
    for(size_t i = 0; i < nk; i++){ keypair_t *cp; e = keypair_copy(keys[i]->kp, &cp); if(is_error(e)) mc_error("copy"); link_list_append(&list, &cp->link); }
    dstr_t o; e = dstr_new(&o, 16); if(is_error(e)) mc_error("oom");
    e = encrypter_start(&ec, &list, &o); if(is_error(e)) mc_error("encrypt");
    dstr_t in = wrap(p, n);
    e = encrypter_update(&ec, &in, &o); if(is_error(e)) mc_error("encrypt");
    e = encrypter_finish(&ec, &o); if(is_error(e)) mc_error("encrypt");
    link_t *l; while((l = link_list_pop_first(&list))){ keypair_t *kp = CONTAINER_OF(l, keypair_t, link); keypair_free(&kp); }
    out->n = 0; add(out, o.data, o.len);
    dstr_free(&o);
}
// the hook the mailboxes call for every downloaded message
typedef struct { derr_type_t t; bool not4me; size_t len; bool file; sb_t out; } res_t;
static void process(const char *mbx, const sb_t *m, res_t *r){
    char p[400]; snprintf(p, sizeof(p), "%s/processed", root); unlink(p);
    string_builder_t path = SBS(p);
    dstr_t d = wrap(m->p, m->n), mb = wrap(mbx, strlen(mbx));
    imaildir_hooks_i *h = kd->dirmgr(kd)->imaildir_hooks;
    r->not4me = false; r->len = 0;
    derr_t e = h->process_msg(h, &mb, &path, &d, &r->len, &r->not4me);
    r->t = e.type; DROP_VAR(&e);
    bool c = crash_on; crash_on = false; r->file = slurp(p, &r->out); crash_on = c;
}
// "name: value" lines, then an empty line; returns where the body starts or 0
static size_t headers_end(const char *p, size_t n){
    size_t i = 0;
    while(i < n){
        const char *nl = memchr(p + i, '\n', n - i);
        if(!nl) return 0;
        size_t l = (size_t)(nl - p) - i; if(l && p[i + l - 1] == '\r') l--;
        if(l == 0) return (size_t)(nl - p) + 1;
        i = (size_t)(nl - p) + 1;
    }
    return 0;
}
static bool has_header(const char *p, size_t n, const char *name, const char *val){
    size_t i = 0, ln = strlen(name);
    while(i < n){
        const char *nl = memchr(p + i, '\n', n - i); if(!nl) return false;
        size_t l = (size_t)(nl - p) - i;
        if(l > ln && !strncasecmp(p + i, name, ln) && p[i + ln] == ':') return memmem(p + i + ln, l - ln, val, strlen(val)) != NULL;
        i += l + 1;
    }
    return false;
}
static void well_explained(const res_t *r, const sb_t *m, const char *what){
    MC_CHECK(r->file, "explained", "%s: no message is left", what);
    MC_CHECK(r->len == r->out.n, "explained", "%s: the length of the explanatory message is given as %zu, it is %zu", what, r->len, r->out.n);
    size_t h = headers_end(r->out.p, r->out.n);
    MC_CHECK(h, "explained", "%s: the explanatory message has no end of headers", what);
    // every header line is a header or a continuation, ended by CRLF
    for(size_t i = 0; i < h;){
        const char *nl = memchr(r->out.p + i, '\n', h - i); size_t l = (size_t)(nl - r->out.p) - i;
        MC_CHECK(l >= 1 && nl[-1] == '\r', "explained", "%s: a header line without carriage return", what);
        if(l > 1){ const char *c = memchr(r->out.p + i, ':', l); MC_CHECK(c && c > r->out.p + i, "explained", "%s: a malformed header line \"%s\"", what, hex(r->out.p + i, l)); }
        i += l + 1;
    }
    MC_CHECK(has_header(r->out.p, h, "Subject", "decrypt") && has_header(r->out.p, h, "From", "@") && has_header(r->out.p, h, "Date", ":"), "explained", "%s: the explanatory message lacks headers: %s", what, hex(r->out.p, h));
    MC_CHECK(r->out.n >= h + m->n && !memcmp(r->out.p + r->out.n - m->n, m->p, m->n), "explained", "%s: the explanatory message does not carry the original", what);
}

// ------------------------------------------------------------- not encrypted
static void judge_plain(const sb_t *m){
    res_t r = {0}; static sb_t keep; r.out = keep;
    process("INBOX", m, &r); keep = r.out;
    const char *w = hex(m->p, m->n);
    MC_CHECK(r.t == E_NONE && !r.not4me, "plain", "the unencrypted message \"%s\" ends the session (%s)", w, error_to_dstr(r.t).data);
    MC_CHECK(r.file && r.len == r.out.n, "plain", "the unencrypted message \"%s\" leaves a file of %zu bytes, said to have %zu", w, r.out.n, r.len);
    // the headers of the original: lines up to the first empty one
    static const char MARK[] = "NOT ENCRYPTED:";
    size_t i = 0; bool subj = false, ended = false; size_t sval = 0, end = 0;
    while(i < m->n){
        const char *nl = memchr(m->p + i, '\n', m->n - i);
        size_t l = nl ? (size_t)(nl - m->p) - i : m->n - i;
        if(nl && (l == 0 || (l == 1 && m->p[i] == '\r'))){ ended = true; end = i; break; }
        if(!subj && l >= 8 && !strncasecmp(m->p + i, "subject:", 8)){ subj = true; sval = i + 8; }
        if(!nl) break;
        i += l + 1;
    }
    if(!subj && !ended){
        // neither a subject nor an end of the headers: nothing is known of it
        MC_CHECK(r.out.n >= m->n && memmem(r.out.p, r.out.n, m->p, m->n), "plain", "the unencrypted message \"%s\" became \"%s\"", w, hex(r.out.p, r.out.n));
        return;
    }
    size_t at = subj ? sval : end;
    size_t more = r.out.n - m->n;
    MC_CHECK(r.out.n > m->n && !memcmp(r.out.p, m->p, at) && !memcmp(r.out.p + at + more, m->p + at, m->n - at), "plain", "the unencrypted message \"%s\" became \"%s\"", w, hex(r.out.p, r.out.n));
    // what was added
    const char *a = r.out.p + at;
    if(subj){ MC_CHECK(memmem(a, more, MARK, sizeof(MARK) - 1) && !memchr(a, '\n', more) && !memchr(a, '\r', more), "plain", "the subject of \"%s\" became \"%s\"", w, hex(r.out.p, r.out.n)); }
    else MC_CHECK(!strncasecmp(a, "Subject:", 8) && memmem(a, more, MARK, sizeof(MARK) - 1) && a[more-1] == '\n' && memchr(a, '\n', more) == a + more - 1, "plain", "the unencrypted message \"%s\" without subject became \"%s\"", w, hex(r.out.p, r.out.n));
}
static void run_plain(void){
    static const char *tok[] = { "Subject:", "subject:", "SUBJECT:", "\n", "\r\n", "\r", " ", "x", "From: a", "-----BEGIN SPLINTERMAIL MESSAGE-----", "y" };
    int nt = 10, len = (int)mc_opt("len", 5);
    unsigned a = mc_choose((unsigned)nt, "first"), b = mc_choose((unsigned)nt, "second");
    long pw = 1; for(int i = 2; i < len; i++) pw *= nt;
    static sb_t m;
    for(long x = 0; x < pw; x++){
        m.n = 0; adds(&m, tok[a]); adds(&m, tok[b]);
        long y = x; for(int i = 2; i < len; i++, y /= nt) adds(&m, tok[y % nt]);
        if(!strncmp(m.p, tok[9], strlen(tok[9]))){
            res_t r = {0}; process("INBOX", &m, &r);
            MC_CHECK(r.t == E_NONE, "broken", "the message \"%s\" ends the session (%s)", hex(m.p, m.n), error_to_dstr(r.t).data);
            MC_CHECK(!r.not4me, "broken", "the broken message \"%s\" is dropped", hex(m.p, m.n));
            well_explained(&r, &m, hex(m.p, m.n)); free(r.out.p);
        } else judge_plain(&m);
        mc_case(1);
    }
    // shorter ones
    if(a == 0 && b == 0) for(int k = 0; k < nt + 1; k++){ m.n = 0; add(&m, "", 0); if(k < nt && k != 9) adds(&m, tok[k]); judge_plain(&m); mc_case(1); }
}

// ----------------------------------------------------------------- encrypted
static char text[3000];
static size_t meta_b64(const key_t_ **keys, size_t nk){ (void)keys; size_t raw = 4 + nk * (5 + 32 + 1 + 4 + 128 + 1) + 6 + 12 + 3; return raw; }
static void judge_enc(const sb_t *m, size_t n, bool meta, const char *what, long a, long b){
    char w[100]; snprintf(w, sizeof(w), "a message altered by %s (%ld, %ld)", what, a, b);
    res_t r = {0}; static sb_t keep; r.out = keep;
    process("INBOX", m, &r); keep = r.out;
    MC_CHECK(r.t == E_NONE, "altered", "%s ends the session (%s)", w, error_to_dstr(r.t).data);
    mc_case(1);
    if(r.not4me){ MC_CHECK(meta, "dropped", "%s in its encrypted part is taken for somebody else's and dropped", w); mc_outcome(1); return; }
    MC_CHECK(r.file, "altered", "%s leaves no file", w);
    // an intact one
    if(r.out.n == n && !memcmp(r.out.p, text, n)){ MC_CHECK(r.len == n, "altered", "%s: wrong length", w); mc_outcome(2); return; }
    // an altered beginning makes it an unencrypted message
    static const char H[] = "-----BEGIN SPLINTERMAIL MESSAGE-----";
    if(m->n < sizeof(H) - 1 || memcmp(m->p, H, sizeof(H) - 1)){ judge_plain(m); mc_outcome(3); return; }
    well_explained(&r, m, w); mc_outcome(4);
}
static void run_enc(void){
    unsigned part = mc_choose(64, "part"), len = mc_choose(3, "length"), nk = mc_choose(2, "keys");
    size_t n = len == 0 ? 0 : len == 1 ? 40 : 200;
    const key_t_ *keys[2]; keys[0] = nk ? &peer[0] : &me; keys[1] = &me;
    static sb_t msg, m;
    encrypt(keys, 1 + nk, text, n, &msg);
    if(part == 0){
        // unaltered: with this device's key, and without
        res_t r = {0}; process("INBOX", &msg, &r);
        MC_CHECK(r.t == E_NONE && !r.not4me && r.file && r.out.n == n && r.len == n && !memcmp(r.out.p, text, n), "decrypt", "a message of %zu bytes to %u keys was not decrypted (%s, not for me %d, %zu bytes)", n, 1 + nk, error_to_dstr(r.t).data, r.not4me, r.out.n);
        const key_t_ *o[2] = { &peer[0], &peer[1] }; sb_t x = {0};
        encrypt(o, 1 + nk, text, n, &x);
        process("INBOX", &x, &r);
        MC_CHECK(r.t == E_NONE && r.not4me, "not4me", "a message for other devices is not recognized as such (%s)", error_to_dstr(r.t).data);
        MC_CHECK(!r.file, "not4me", "a message for other devices leaves a file behind");
        free(x.p); free(r.out.p); mc_case(2);
    }
    static const char rep[] = "A\n=\0/-+\r zV:\xff";
    // the characters which hold metadata: header line, then 64 to a line
    size_t nb = (meta_b64(keys, 1 + nk) + 2) / 3 * 4, hd = 37, mend = hd + nb + nb / 64 + 2;
    long idx = 0;
    #define MINE (idx++ % 64 == part)
    for(size_t i = 0; i < msg.n; i++){
        for(size_t k = 0; k < 3 + sizeof(rep) - 1; k++) if(MINE){
            m.n = 0; add(&m, msg.p, msg.n);
            m.p[i] = k < 3 ? (char)(m.p[i] ^ (1 << k)) : rep[k - 3];
            judge_enc(&m, n, i < mend, "replacing a byte", (long)i, m.p[i]);
        }
        for(size_t k = 0; k < sizeof(rep) - 1; k++) if(MINE){ m.n = 0; add(&m, msg.p, i); add(&m, rep + k, 1); add(&m, msg.p + i, msg.n - i); judge_enc(&m, n, i < mend, "inserting a byte", (long)i, rep[k]); }
        if(MINE){ m.n = 0; add(&m, msg.p, i); judge_enc(&m, n, i < mend, "truncation", (long)i, 0); }
        for(size_t l = 1; l <= 5 && i + l <= msg.n; l++) if(MINE){ m.n = 0; add(&m, msg.p, i); add(&m, msg.p + i + l, msg.n - i - l); judge_enc(&m, n, i < mend, "deleting bytes", (long)i, (long)l); }
    }
    size_t ls[64]; int nl = 0; ls[nl++] = 0;
    for(size_t i = 0; i < msg.n; i++) if(msg.p[i] == '\n') ls[nl++] = i + 1;
    for(int a = 0; a + 1 < nl; a++) for(int b = 0; b + 1 < nl; b++) if(MINE){
        m.n = 0;
        for(int i = 0; i + 1 < nl; i++){ int w = i == a ? b : i == b ? a : i; add(&m, msg.p + ls[w], ls[w+1] - ls[w]); }
        judge_enc(&m, n, true, "exchanging lines", a, b);
    }
    // as a mail server may hand it out
    if(MINE){
        m.n = 0; for(size_t i = 0; i < msg.n; i++){ if(msg.p[i] == '\n') add(&m, "\r", 1); add(&m, msg.p + i, 1); }
        res_t r = {0}; process("INBOX", &m, &r);
        MC_CHECK(r.t == E_NONE && !r.not4me && r.out.n == n && !memcmp(r.out.p, text, n), "crlf", "a message with CRLF line ends was not decrypted");
        free(r.out.p);
    }
}
// metadata made of tokens
static void run_meta(void){
    static struct { const char *p; size_t n; } tok[16]; int nt = 0;
    #define TK(s) do{ tok[nt].p = s; tok[nt++].n = sizeof(s) - 1; }while(0)
    TK("V:1\n"); TK("R:"); TK("32:"); tok[nt].p = me.bin; tok[nt++].n = 32; TK(":"); TK("1:x"); TK("\n"); TK("IV:"); TK("12:123456789012\n"); TK("M:"); TK("4294967295:"); TK("0:"); TK("2000:");
    int len = (int)mc_opt("len", 4);
    unsigned first = mc_choose((unsigned)nt, "first"), second = mc_choose((unsigned)nt, "second");
    static sb_t raw, m;
    long pw = 1; for(int i = 2; i < len; i++) pw *= nt;
    for(long x = 0; x < pw; x++) for(int v = 0; v < 3; v++){
        raw.n = 0;
        if(v) adds(&raw, "V:1\n");
        add(&raw, tok[first].p, tok[first].n); add(&raw, tok[second].p, tok[second].n);
        long y = x; for(int i = 2; i < len; i++, y /= nt) add(&raw, tok[y % nt].p, tok[y % nt].n);
        if(v == 2) for(int i = 0; i < 900; i++) adds(&raw, "yyyz");
        m.n = 0; adds(&m, "-----BEGIN SPLINTERMAIL MESSAGE-----\n");
        dstr_t d = wrap(raw.p, raw.n), o;
        derr_t e = dstr_new(&o, 64); if(is_error(e)) mc_error("oom");
        e = bin2b64_stream(&d, &o, 64, true); if(is_error(e)) mc_error("b64");
        add(&m, o.data, o.len); dstr_free(&o);
        adds(&m, "=AAAAAAAAAAAAAAAAAAAAAA==\n-----END SPLINTERMAIL MESSAGE-----\n");
        judge_enc(&m, 1, true, hex(raw.p, raw.n < 60 ? raw.n : 60), v, 0);
    }
}

// --------------------------------------------------------------- histories
static struct { bool in[NPEER]; bool known[NPEER]; int alerts[NPEER]; bool slack[NPEER]; bool sync[2], xks; } ref;
static const char *MB[2] = { "INBOX", "Other" };
static bool kd_open(void){
    derr_t e = keydir_new(&rootsb, DSTR_LIT("u@x"), &kd);
    if(is_error(e)){ mc_log("keydir_new: %s", error_to_dstr(e.type).data); DROP_VAR(&e); kd = NULL; return false; }
    return true;
}
static void kd_close(void){ if(kd){ bool c = crash_on; crash_on = false; kd->free(kd); kd = NULL; crash_on = c; } }
static int count_alerts(int *tot, int *per){
    for(int i = 0; i < NPEER + 1; i++) per[i] = 0;
    *tot = 0;
    DIR *d = opendir(inboxdir()); if(!d) return 0;
    struct dirent *de; static sb_t b;
    while((de = readdir(d))){
        if(de->d_name[0] == '.') continue;
        char p[700]; snprintf(p, sizeof(p), "%s/%s", inboxdir(), de->d_name);
        if(!slurp(p, &b)) continue;
        (*tot)++;
        bool any = false;
        for(int i = 0; i <= NPEER; i++){ const char *h = i < NPEER ? peer[i].hex : me.hex; if(strcasestr(b.p, h)){ per[i]++; any = true; } }
        MC_CHECK(any, "alert", "a message which names no key was put into the mailbox: \"%s\"", hex(b.p, b.n < 300 ? b.n : 300));
        MC_CHECK(headers_end(b.p, b.n), "alert", "a malformed message was put into the mailbox");
    }
    closedir(d);
    return 1;
}
static void check_alerts(const char *when){
    int tot, per[NPEER + 1]; count_alerts(&tot, per);
    MC_CHECK(per[NPEER] == 0, "alert-own", "%s: the user was warned of this device's own key", when);
    for(int i = 0; i < NPEER; i++){
        if(per[i] == ref.alerts[i]) continue;
        // a crash may have come between the warning and its record
        if(ref.slack[i] && per[i] == ref.alerts[i] + 1){ ref.alerts[i]++; ref.slack[i] = false; continue; }
        mc_fail("alert", "%s: the user was warned %d times of key %d, not %d times", when, per[i], i, ref.alerts[i]);
    }
}
static void check_keys(const char *when){
    int np[NPEER] = {0}, na[NPEER] = {0}, mine = 0;
    keypair_t *k;
    LINK_FOR_EACH(k, kd->peers(kd), keypair_t, link){
        bool f = false;
        for(int i = 0; i < NPEER; i++) if(k->fingerprint->len == peer[i].nbin && !memcmp(k->fingerprint->data, peer[i].bin, peer[i].nbin)){ np[i]++; f = true; }
        MC_CHECK(f, "keys", "%s: an unknown peer appeared", when);
    }
    LINK_FOR_EACH(k, kd->all_keys(kd), keypair_t, link){
        bool f = false;
        for(int i = 0; i < NPEER; i++) if(k->fingerprint->len == peer[i].nbin && !memcmp(k->fingerprint->data, peer[i].bin, peer[i].nbin)){ na[i]++; f = true; }
        if(!f){ MC_CHECK(k->fingerprint->len == me.nbin && !memcmp(k->fingerprint->data, me.bin, me.nbin), "keys", "%s: messages would be encrypted to an unknown key", when); mine++; }
    }
    MC_CHECK(mine == 1, "keys", "%s: messages would be encrypted %d times to this device's own key", when, mine);
    const keypair_t *mk = kd->mykey(kd);
    MC_CHECK(mk->fingerprint->len == me.nbin && !memcmp(mk->fingerprint->data, me.bin, me.nbin), "mykey", "%s: this device's key was replaced", when);
    for(int i = 0; i < NPEER; i++){
        MC_CHECK(np[i] == ref.in[i], "keys", "%s: the key %d is %d times among the peers, not %d times", when, i, np[i], ref.in[i]);
        MC_CHECK(na[i] == ref.in[i], "keys", "%s: messages would be encrypted %d times to key %d, not %d times", when, na[i], i, ref.in[i]);
    }
}
static void expect_alert(int i, bool due){ if(!ref.known[i]){ if(due) ref.alerts[i]++; ref.known[i] = true; } }
// one operation on the real thing; false if it failed
static sb_t msgs[2][3];     // recipients: me and peer 0; peer 2 and me; everybody
static bool do_op(int op){
    derr_t e = E_OK;
    if(op < 4){ e = kd->add_key(kd, wrap(peer[op].pub.p, peer[op].pub.n)); }
    else if(op < 6) kd->delete_key(kd, wrap(peer[op - 4].bin, peer[op - 4].nbin));
    else if(op == 6) e = keydir_keysync_completed(kd);
    else if(op < 9) e = kd->mailbox_synced(kd, wrap(MB[op - 7], strlen(MB[op - 7])));
    else {
        int w = (op - 9) / 2, mb = (op - 9) % 2;
        res_t r = {0}; process(MB[mb], &msgs[0][w], &r);
        bool ok = r.t == E_NONE;
        if(ok) MC_CHECK(!r.not4me && r.out.n == 7 && !memcmp(r.out.p, "message", 7), "decrypt", "a message was not decrypted");
        free(r.out.p);
        return ok;
    }
    bool ok = !is_error(e);
    if(!ok) mc_log("failed: %s", error_to_dstr(e.type).data);
    DROP_VAR(&e);
    return ok;
}
static void effect(int op){
    if(op == 15) return;
    if(op < 4){ ref.in[op] = true; expect_alert(op, ref.xks); }
    else if(op < 6) ref.in[op - 4] = false;
    else if(op == 6) ref.xks = true;
    else if(op < 9) ref.sync[op - 7] = true;
    else {
        int w = (op - 9) / 2; bool due = ref.sync[(op - 9) % 2];
        if(w == 0) expect_alert(0, due);
        else if(w == 1) expect_alert(2, due);
        else for(int i = 0; i < NPEER; i++) expect_alert(i, due);
    }
}
static const char *opname(int op){
    static char b[60];
    if(op < 4) snprintf(b, sizeof(b), "key %d appears", op);
    else if(op < 6) snprintf(b, sizeof(b), "key %d disappears", op - 4);
    else if(op == 6) snprintf(b, sizeof(b), "first key synchronization completed");
    else if(op < 9) snprintf(b, sizeof(b), "mailbox %s synchronized", MB[op - 7]);
    else if(op < 15) snprintf(b, sizeof(b), "message %d decrypted in %s", (op - 9) / 2, MB[(op - 9) % 2]);
    else snprintf(b, sizeof(b), "restart");
    return b;
}
static void run_fpr(void){
    fresh(); memset(&ref, 0, sizeof(ref)); kd = NULL; crash_on = false;
    disk_full = mc_opt("full", 0);
    int depth = (int)mc_opt("depth", 3), pre = (int)mc_opt("pre", 0), inj = (int)mc_opt("inject", 0);
    const char *menu = mc_opts("menu", "0123456789abcdef");
    if(!kd_open()) mc_error("keydir_new");
    // a start: some keys already there, everything synchronized
    int seq[40], n = 0;
    if(pre >= 1){ seq[n++] = 1; seq[n++] = 6; }
    if(pre >= 2){ seq[n++] = 7; }
    int npre = n;
    for(int d = 0; d < depth + npre; d++){
        int op;
        if(d < npre) op = seq[d];
        else { char c = menu[mc_choose((unsigned)strlen(menu), "operation")]; op = c <= '9' ? c - '0' : c - 'a' + 10; }
        mc_log("%s", opname(op));
        volatile bool redo = false, dead = false;
        for(int tries = 0;; tries++){
            if(tries > 8) mc_error("too many crashes");
            bool ok = false;
            if(sigsetjmp(env, 0) == 0){
                crash_on = d >= npre && inj;
                if(op == 15 || dead){
                    kd_close(); dead = true;
                    if(kd_open()){ dead = false; crash_on = false; check_keys("after a restart"); ok = op == 15 || redo; }
                    else ok = false;
                    if(!dead && redo){ ok = false; redo = false; crash_on = inj; if(op == 15) ok = true; else ok = do_op(op); }
                } else ok = do_op(op);
                crash_on = false;
            } else {
                // the process died: what it had in memory is lost
                crash_on = false; kd = NULL; ok = false;
            }
            if(ok && !dead) break;
            // after a crash or an error everything is started anew, and the server repeats the event
            mc_log("start again");
            if(kd){ kd_close(); }
            for(int i = 0; i < NPEER; i++) if(!ref.known[i]) ref.slack[i] = true;
            // what is under way may or may not have happened
            if(op < 4 || (op >= 4 && op < 6)){
                int k = op < 4 ? op : op - 4;
                if(!kd_open()) mc_error("keydir_new failed after a crash");
                keypair_t *q; bool f = false;
                LINK_FOR_EACH(q, kd->peers(kd), keypair_t, link) if(!memcmp(q->fingerprint->data, peer[k].bin, peer[k].nbin)) f = true;
                ref.in[k] = f;
                kd_close();
            }
            dead = true; redo = true;
        }
        effect(op);
        check_keys(opname(op)); check_alerts(opname(op));
        for(int i = 0; i < NPEER; i++) ref.slack[i] = false;
    }
    // all is remembered by the next start; every key known by then is no news
    kd_close();
    if(!kd_open()) mc_fail("restart", "the key directory cannot be opened again");
    check_keys("in the end"); check_alerts("in the end");
    for(int i = 0; i < NPEER; i++){ if(!do_op(i)) mc_fail("add", "a key cannot be added"); effect(i); }
    if(!do_op(6)) mc_fail("add", "keydir_keysync_completed failed");
    check_alerts("in the end, with all keys"); check_keys("in the end, with all keys");
    kd_close();
    uint64_t h = 0; for(int i = 0; i < NPEER; i++) h = h * 64 + (uint64_t)(ref.alerts[i] * 8 + ref.in[i] * 4 + ref.known[i] * 2);
    mc_outcome(h); mc_note(h * 8 + ref.sync[0] * 4 + ref.sync[1] * 2 + ref.xks);
}
// the first start and the private key
static void run_mykey(void){
    unsigned first = mc_choose(3, "key file");
    wipe(); kd = NULL; ngen = 0; disk_full = true; nflaky = 0;
    if(first >= 1) fresh();
    if(first == 2){ char p[400]; snprintf(p, sizeof(p), "%s/u@x/keys/%s.pem", root, peer[0].hex); spit(p, &peer[0].pub); }
    crash_on = true; flaky_open = true;
    char fpr[80] = "";
    for(int i = 0; i < 4; i++){
        if(i == 3){ crash_on = false; flaky_open = false; }
        bool c = crash_on;
        int before = nflaky;
        if(sigsetjmp(env, 0) == 0){
            if(kd_open()){
                crash_on = false;
                const keypair_t *mk = kd->mykey(kd); char h[80];
                for(size_t k = 0; k < mk->fingerprint->len && k < 32; k++) sprintf(h + 2 * k, "%02x", (unsigned char)mk->fingerprint->data[k]);
                mc_log("key %.8s", h);
                if(first) MC_CHECK(!strcmp(h, me.hex), "mykey", "this device's private key was replaced by a new one");
                MC_CHECK(!*fpr || !strcmp(h, fpr), "mykey", "this device's private key changed from %s to %s", fpr, h);
                strcpy(fpr, h);
                struct stat st; char p[400]; snprintf(p, sizeof(p), "%s/u@x/keys", root);
                if(!first && !stat(p, &st)) MC_CHECK((st.st_mode & 077) == 0, "mode", "others may look into the key directory (mode %o)", st.st_mode & 0777);
                int np = 0; keypair_t *k; LINK_FOR_EACH(k, kd->peers(kd), keypair_t, link) np++;
                if(first == 2 && nflaky == before) MC_CHECK(np == 1 || nflaky, "keys", "the peer's key is lost");
                crash_on = c;
                kd_close();
            } else MC_CHECK(i < 3, "start", "the key directory cannot be opened");
        } else { crash_on = false; kd = NULL; }
        crash_on = c;
    }
    crash_on = false; flaky_open = false;
}

static void mkkey(key_t_ *o, int bits){
    EVP_PKEY *k = NULL; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, NULL);
    if(EVP_PKEY_keygen_init(c) != 1 || EVP_PKEY_CTX_set_rsa_keygen_bits(c, bits) != 1 || EVP_PKEY_keygen(c, &k) != 1) mc_error("keygen");
    EVP_PKEY_CTX_free(c);
    BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL);
    char *p; long n = BIO_get_mem_data(b, &p); add(&o->pem, p, (size_t)n);
    BIO *b2 = BIO_new(BIO_s_mem()); PEM_write_bio_PUBKEY(b2, k);
    n = BIO_get_mem_data(b2, &p); add(&o->pub, p, (size_t)n);
    derr_t e = keypair_from_private_pem(&o->kp, wrap(o->pem.p, o->pem.n)); if(is_error(e)) mc_error("key");
    o->nbin = o->kp->fingerprint->len; memcpy(o->bin, o->kp->fingerprint->data, o->nbin);
    for(size_t i = 0; i < o->nbin; i++) sprintf(o->hex + 2 * i, "%02x", (unsigned char)o->bin[i]);
    BIO_free(b); BIO_free(b2);
    if(!gen) gen = k; else EVP_PKEY_free(k);
}
static bool ready;
static void prep(void){
    if(ready) return;
    ready = true;
    snprintf(root, sizeof(root), "%s/root", mc_scratch()); mkdir(root, 0700); rootsb = SBS(root);
    rstate = 99;
    const key_t_ *a[2] = { &me, &peer[0] }, *b[2] = { &peer[2], &me }, *c[5] = { &peer[3], &peer[1], &me, &peer[0], &peer[2] };
    encrypt(a, 2, "message", 7, &msgs[0][0]); encrypt(b, 2, "message", 7, &msgs[0][1]); encrypt(c, 5, "message", 7, &msgs[0][2]);
    const char *m = mc_opts("mode", "fpr");
    if(strcmp(m, "fpr") && strcmp(m, "mykey")){ fresh(); if(!kd_open()) mc_error("keydir_new"); }
}
static void init(void){
    derr_t e = crypto_library_init(); if(is_error(e)) mc_error("init");
    RAND_set_rand_method(&rm);
    for(size_t i = 0; i < sizeof(text); i++) text[i] = (char)(i * 7 + i / 256);
    rstate = 12345;
    key_t_ dummy = {0}; mkkey(&dummy, 1024);
    mkkey(&me, 1024); for(int i = 0; i < NPEER; i++) mkkey(&peer[i], 1024);
}
static void run(void){
    static const struct { const char *n; void (*f)(void); } m[] = { {"plain", run_plain}, {"enc", run_enc}, {"meta", run_meta}, {"fpr", run_fpr}, {"mykey", run_mykey} };
    const char *s = mc_opts("mode", "fpr");
    prep();
    rstate = 4711;
    for(size_t i = 0; i < sizeof(m) / sizeof(*m); i++) if(!strcmp(m[i].n, s)){ m[i].f(); return; }
    mc_error("mode");
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "b02_keydir", .run = run, .init = init, .exec_timeout = 120 };
    return mc_main(argc, argv, &h);
}
