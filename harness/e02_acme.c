// E02: the certificate manager.  The real manager with real files, keys and
// certificates against a modelled ACME server, API server and clock: every
// request may be lost before or after the server saw it, refused, or answered
// late; time may jump to the next deadline; the manager may be killed between
// any two events or at any call which changes a file (with torn writes), and
// is then started again.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include <openssl/ssl.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include "libcitm/libcitm.h"
#include "mc/mc.h"

#define DAY 86400
static bool crash_on; static sigjmp_buf env;
static bool armed(void){ return crash_on && mc_dev_left(); }
static void crash(const char *what){ mc_log("KILLED at %s", what); siglongjmp(env, 1); }
static void on_disk_full(void){}
#include "harness/crash.h"

// ---------------------------------------------------- keys and certificates
#define NKEY 12
static EVP_PKEY *pool[NKEY], *cakey; static char keypem[NKEY][2000]; static char capem[4000]; static X509 *ca;
static unsigned nkeys;   // how many were made in this history
static X509 *mkx(EVP_PKEY *pub, const char *cn, const char *o, time_t from, time_t to){
    X509 *x = X509_new(); X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 7);
    ASN1_TIME_set(X509_getm_notBefore(x), from); ASN1_TIME_set(X509_getm_notAfter(x), to);
    X509_NAME *n = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)cn, -1, -1, 0);
    for(int i = 0; o && i < 4; i++) X509_NAME_add_entry_by_txt(n, "O", MBSTRING_ASC, (const unsigned char*)o, -1, -1, 0);
    X509_set_pubkey(x, pub);
    if(!X509_sign(x, cakey, EVP_sha256())) mc_error("sign");
    return x;
}
static size_t pem(X509 *x, char *o, size_t n){ BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x); int k = BIO_read(b, o, (int)n - 1); BIO_free(b); o[k] = 0; return (size_t)k; }
static void init(void){
    cakey = EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256");
    for(int i = 0; i < NKEY; i++){
        pool[i] = EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256");
        BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, pool[i], NULL, NULL, 0, NULL, NULL);
        int k = BIO_read(b, keypem[i], 1999); keypem[i][k] = 0; BIO_free(b);
    }
    ca = mkx(cakey, "the intermediate", "a rather long organization name to make this certificate longer", 0, 4000000000);
    pem(ca, capem, sizeof(capem));
}
// a new key is the next of the pool
derr_t __wrap_gen_key_path(int bits, const string_builder_t *path);
derr_t __wrap_gen_key_path(int bits, const string_builder_t *path){
    MC_CHECK(bits >= 2048, "key-size", "a key of %d bits is made", bits);
    derr_t e = E_OK;
    FILE *f = NULL;
    PROP(&e, dfopen_path(path, "w", &f) );
    fputs(keypem[nkeys % NKEY], f); nkeys++;
    PROP(&e, dfclose2(&f) );
    return e;
}

// ------------------------------------------------------------------- world
static acme_manager_t am;
static time_t now, T0 = 1700000000;
static struct { time_t t; bool on; } dl[3];
static const char *domains[] = { "yomamma.user.splintermail.com", "other.user.splintermail.com" }; static unsigned domain;
// the acme server
enum { S_INVALID, S_PENDING, S_READY, S_PROCESSING, S_VALID };
typedef struct { unsigned st, owner, dom; unsigned ch; /* challenge */ EVP_PKEY *key; time_t issued; bool gone; } order_t;
#define MAXO 32
static order_t O[MAXO]; static unsigned no, nacct;
static char dns[40]; static bool dns_set;    // what is served for the challenge
// requests under way
enum { C_KEYGEN, C_PREPARE, C_UNPREPARE, C_ACCT, C_ORDER, C_GETORDER, C_AUTHZ, C_CHALLENGE, C_CHFINISH, C_FINALIZE, C_FINPROC, C_FINVALID, C_CLOSE };
static const char *CN[] = { "keygen", "prepare", "unprepare", "new account", "new order", "get order", "get authorization", "challenge", "challenge finish", "finalize", "finalize from processing", "finalize from valid", "close" };
typedef struct { int what; unsigned o, acct, dom; char proof[40]; EVP_PKEY *key; key_i *jwk; json_t *json; string_builder_t path; } call_t;
static call_t in[8]; static unsigned nin;
static int ncalls_now; static time_t calls_t; static bool failed_now; static time_t failed_t;
static uint64_t last_nonce; static bool alive, ended; static derr_type_t end_type; static int ndone; static bool want_end;

static bool stale; static bool tls; static time_t tls_exp;      // the certificate handed out
static int maj, min_; static bool conf;
static time_t good; static unsigned gooddom; // a certificate which was handed out: how long it lasts
static int ngot;
static char dir[200];

static const char *file(const char *n){ static char b[2][300]; static int k; k = !k; snprintf(b[k], 300, "%s/%s", dir, n); return b[k]; }
static bool fexists(const char *n){ struct stat st; return !stat(file(n), &st); }
static void new_call(int what, call_t c){
    c.what = what;
    MC_CHECK(alive, "after-end", "%s after the end", CN[what]);
    for(unsigned i = 0; i < nin; i++){
        MC_CHECK(in[i].what != what, "twice", "%s is started while it is under way", CN[what]);
        MC_CHECK(what == C_CLOSE || what == C_KEYGEN || in[i].what == C_KEYGEN, "two-calls", "%s is started while %s is under way", CN[what], CN[in[i].what]);
    }
    if(calls_t != now){ calls_t = now; ncalls_now = 0; }
    MC_CHECK(++ncalls_now < 60, "busy", "%d requests are made without any time passing", ncalls_now);
    if(what != C_CLOSE && what != C_KEYGEN && what != C_UNPREPARE) MC_CHECK(!(failed_now && failed_t == now), "retry-at-once", "%s right after a failure, without waiting", CN[what]);
    if(nin == 8) mc_error("calls");
    in[nin++] = c;
    mc_log("  -> %s", CN[what]);
}
static unsigned num(dstr_t d, const char *pre){ char b[60]; snprintf(b, sizeof(b), "%.*s", (int)(d.len < 50 ? d.len : 50), d.data); size_t n = strlen(pre); MC_CHECK(!strncmp(b, pre, n) && b[n] >= '0' && b[n] <= '9', "url", "the address %s is used instead of %s*", b, pre); return (unsigned)atoi(b + n); }
static time_t i_now(acme_manager_i *i){ (void)i; return now; }
static void i_dcert(acme_manager_i *i, time_t t){ (void)i; dl[0].t = t; dl[0].on = true; }
static void i_dback(acme_manager_i *i, time_t t){ (void)i; dl[1].t = t; dl[1].on = true; }
static void i_dunp(acme_manager_i *i, time_t t){ (void)i; dl[2].t = t; dl[2].on = true; }
static void nonce(api_token_t t){ MC_CHECK(t.key == 777, "token", "token %u is used", t.key); MC_CHECK(t.nonce > last_nonce, "nonce", "request number %llu after %llu", (unsigned long long)t.nonce, (unsigned long long)last_nonce); last_nonce = t.nonce; }
static void i_prepare(acme_manager_i *i, api_token_t t, json_t *j, dstr_t proof){ (void)i; nonce(t); call_t c = { .json = j }; snprintf(c.proof, sizeof(c.proof), "%.*s", (int)proof.len, proof.data); new_call(C_PREPARE, c); }
static void i_unprepare(acme_manager_i *i, api_token_t t, json_t *j){ (void)i; nonce(t); new_call(C_UNPREPARE, (call_t){ .json = j }); }
static derr_t i_keygen(acme_manager_i *i, string_builder_t p){ (void)i; new_call(C_KEYGEN, (call_t){ .path = p }); return E_OK; }
static void i_acct(acme_manager_i *i, key_i **k, const dstr_t mail){ (void)i; MC_CHECK(dstr_eq(mail, DSTR_LIT("me@yo.com")), "email", "the account is made with another address"); call_t c = { .jwk = *k }; *k = NULL; new_call(C_ACCT, c); }
static unsigned owner(const acme_account_t a){ return num(a.kid, "kid"); }
static void i_order(acme_manager_i *i, const acme_account_t a, const dstr_t d){ (void)i; MC_CHECK(d.len == strlen(domains[domain]) && !memcmp(d.data, domains[domain], d.len), "domain", "an order is made for another domain"); new_call(C_ORDER, (call_t){ .acct = owner(a), .dom = domain }); }
static void i_get(acme_manager_i *i, const acme_account_t a, const dstr_t o){ (void)i; new_call(C_GETORDER, (call_t){ .acct = owner(a), .o = num(o, "o") }); }
static void i_authz(acme_manager_i *i, const acme_account_t a, const dstr_t z){ (void)i; new_call(C_AUTHZ, (call_t){ .acct = owner(a), .o = num(z, "z") }); }
static void chk_dns(unsigned o){ char w[40]; snprintf(w, sizeof(w), "proof%u", o); MC_CHECK(dns_set && !strcmp(dns, w), "unprepared", "the challenge %s is requested while %s is served", w, dns_set ? dns : "nothing"); }
static void i_challenge(acme_manager_i *i, const acme_account_t a, const dstr_t z, const dstr_t c){ (void)i; unsigned o = num(z, "z"); MC_CHECK(o == num(c, "c"), "url", "the challenge of another order is used"); chk_dns(o); new_call(C_CHALLENGE, (call_t){ .acct = owner(a), .o = o }); }
static void i_chfin(acme_manager_i *i, const acme_account_t a, const dstr_t z, time_t r){ (void)i; (void)r; new_call(C_CHFINISH, (call_t){ .acct = owner(a), .o = num(z, "z") }); }
static void i_fin(acme_manager_i *i, const acme_account_t a, const dstr_t o, const dstr_t f, const dstr_t d, EVP_PKEY *k){
    (void)i; unsigned n = num(o, "o"); MC_CHECK(n == num(f, "f"), "url", "the finalize address of another order is used");
    MC_CHECK(d.len == strlen(domains[domain]) && !memcmp(d.data, domains[domain], d.len), "domain", "a certificate is requested for another domain");
    MC_CHECK(k, "no-key", "a certificate is requested without a key");
    EVP_PKEY_up_ref(k); new_call(C_FINALIZE, (call_t){ .acct = owner(a), .o = n, .key = k });
}
static void i_finproc(acme_manager_i *i, const acme_account_t a, const dstr_t o, time_t r){ (void)i; (void)r; new_call(C_FINPROC, (call_t){ .acct = owner(a), .o = num(o, "o") }); }
static void i_finvalid(acme_manager_i *i, const acme_account_t a, const dstr_t u){ (void)i; new_call(C_FINVALID, (call_t){ .acct = owner(a), .o = num(u, "u") }); }
static void i_close(acme_manager_i *i){ (void)i; new_call(C_CLOSE, (call_t){0}); }
static acme_manager_i ami = { .now = i_now, .deadline_cert = i_dcert, .deadline_backoff = i_dback, .deadline_unprepare = i_dunp, .prepare = i_prepare, .unprepare = i_unprepare, .keygen = i_keygen, .new_account = i_acct, .new_order = i_order, .get_order = i_get, .get_authz = i_authz, .challenge = i_challenge, .challenge_finish = i_chfin, .finalize = i_fin, .finalize_from_processing = i_finproc, .finalize_from_valid = i_finvalid, .close = i_close };

static void take_ctx(SSL_CTX *ctx){
    X509 *x = SSL_CTX_get0_certificate(ctx);
    MC_CHECK(x && SSL_CTX_check_private_key(ctx) == 1, "mismatch", "a certificate is handed out without its key");
    MC_CHECK(X509_check_host(x, domains[domain], 0, 0, NULL) == 1, "wrong-domain", "a certificate for another domain is handed out");
    STACK_OF(X509) *st = NULL; SSL_CTX_get0_chain_certs(ctx, &st);
    MC_CHECK(st && sk_X509_num(st) == 1 && !X509_cmp(sk_X509_value(st, 0), ca), "chain", "a certificate is handed out with %d of the 1 other certificates of its chain", st ? sk_X509_num(st) : 0);
    struct tm tm; ASN1_TIME_to_tm(X509_get0_notAfter(x), &tm); tls_exp = timegm(&tm);
    if(tls_exp <= now && stale) mc_soft("stale-valid-order", "an expired certificate is handed out");
    else MC_CHECK(tls_exp > now, "expired", "an expired certificate is handed out");
    tls = true; good = tls_exp; gooddom = domain;
    SSL_CTX_free(ctx);
}
static void on_status(void *d, status_maj_e ma, status_min_e mi, dstr_t dom){
    (void)d; maj = (int)ma; min_ = (int)mi; mc_log("  status: %.*s %.*s", (int)status_maj_dstr(ma).len, status_maj_dstr(ma).data, (int)status_min_dstr(mi).len, status_min_dstr(mi).data);
    if(ma != STATUS_MAJ_NEED_CONF) MC_CHECK(dom.len == strlen(domains[domain]) && !memcmp(dom.data, domains[domain], dom.len), "status-domain", "the status has the domain %.*s", (int)dom.len, dom.data);
}
static void on_update(void *d, SSL_CTX *ctx){ (void)d; mc_log("  certificate %s", ctx ? "handed out" : "withdrawn"); if(ctx){ take_ctx(ctx); ngot++; } else { MC_CHECK(tls && now >= tls_exp, "withdrawn", "a working certificate is withdrawn"); tls = false; } }
static void on_done(void *d, derr_t e){ (void)d; ndone++; end_type = e.type; DROP_VAR(&e); ended = true; alive = false; }

// what was under way when the manager was killed
static void forget(void){
    for(unsigned i = 0; i < nin; i++){ if(in[i].key) EVP_PKEY_free(in[i].key); if(in[i].jwk) in[i].jwk->free(in[i].jwk); }
    nin = 0; memset(dl, 0, sizeof(dl)); tls = false; alive = false;
}
static EVP_PKEY *rdkey(const char *n){ FILE *f = __real_fopen(file(n), "r"); if(!f) return NULL; EVP_PKEY *k = PEM_read_PrivateKey(f, NULL, NULL, NULL); __real_fclose(f); return k; }
static X509 *rdcert(const char *n){ FILE *f = __real_fopen(file(n), "r"); if(!f) return NULL; X509 *x = PEM_read_X509(f, NULL, NULL, NULL); __real_fclose(f); return x; }
static void judge_disk(void){
    // (only when something changed)
    static struct stat seen[2]; struct stat st[2]; memset(st, 0, sizeof(st));
    bool same = true;
    for(int i = 0; i < 2; i++){ if(stat(file(i ? "key.pem" : "cert.pem"), &st[i])) memset(&st[i], 0, sizeof(st[i])); st[i].st_atim.tv_sec = st[i].st_atim.tv_nsec = 0; same = same && !memcmp(&st[i], &seen[i], sizeof(st[i])); }
    if(same) return;
    memcpy(seen, st, sizeof(st));
    X509 *x = rdcert("cert.pem"); EVP_PKEY *k = rdkey("key.pem");
    if(x){ MC_CHECK(k, "mismatch", "there is a certificate on disk but no key"); MC_CHECK(X509_check_private_key(x, k) == 1, "mismatch", "the key on disk is not the certificate's"); }
    X509_free(x); EVP_PKEY_free(k);
}
static void judge(void){
    if(!alive) return;
    bool ready = maj == STATUS_MAJ_TLS_GOOD || maj == STATUS_MAJ_TLS_RENEW;
    MC_CHECK(ready == tls || stale, "status", "the status is %.*s while %s certificate is handed out", (int)status_maj_dstr((status_maj_e)maj).len, status_maj_dstr((status_maj_e)maj).data, tls ? "a" : "no");
    MC_CHECK(!tls || now < tls_exp || stale, "kept-expired", "an expired certificate is kept");
    judge_disk();
}
static void start(void){
    SSL_CTX *ctx; status_maj_e ma; status_min_e mi; dstr_t dom;
    static char p[200]; strcpy(p, dir);
    mc_log("start at day %ld%+ld", (long)((now - T0) / DAY), (long)((now - T0) % DAY));
    bool had_acct = fexists("account.json"), had_inst = fexists("installation.json");
    alive = true; ended = false; failed_now = false; want_end = false; ncalls_now = 0;
    tls = false;
    derr_t e = acme_manager_init(&am, &ami, SBS(p), on_status, on_update, on_done, NULL, &ctx, &ma, &mi, &dom);
    MC_CHECK(!is_error(e), "start", "the manager does not start: %s", error_to_dstr(e.type).data);
    maj = (int)ma; min_ = (int)mi;
    mc_log("  status: %.*s %.*s", (int)status_maj_dstr(ma).len, status_maj_dstr(ma).data, (int)status_min_dstr(mi).len, status_min_dstr(mi).data);
    if(had_inst) MC_CHECK(dom.len == strlen(domains[domain]) && !memcmp(dom.data, domains[domain], dom.len), "status-domain", "the first status has the domain %.*s", (int)dom.len, dom.data);
    if(ctx){ mc_log("  certificate handed out"); take_ctx(ctx); }
    if(had_inst && had_acct && gooddom == domain && now < good && fexists("account.json")) MC_CHECK(tls, "lost", "a working certificate is not handed out again");
    judge();
    conf = had_inst;
}
static const char *inst(void){ static char b[300]; snprintf(b, sizeof(b), "{\"email\":\"me@yo.com\",\"secret\":\"shhh\",\"subdomain\":\"%s\",\"token\":777}", domain ? "other" : "yomamma"); return b; }
static void put(const char *n, const char *s){ FILE *f = __real_fopen(file(n), "w"); fputs(s, f); __real_fclose(f); }

static derr_t err(derr_type_t t){ derr_t e = { .type = t }; return e; }
static dstr_t ds(const char *f, unsigned n){ char b[60]; snprintf(b, sizeof(b), f, n); dstr_t d = {0}; derr_t e = dstr_append(&d, &DSTR_LIT("")); DROP_VAR(&e); e = dstr_new(&d, 64); DROP_VAR(&e); e = FMT(&d, "%x", FS(b)); DROP_VAR(&e); return d; }
static dstr_t dcopy(const char *s){ dstr_t d; derr_t e = dstr_new(&d, 8192); DROP_VAR(&e); e = FMT(&d, "%x", FS(s)); DROP_VAR(&e); return d; }
static void json(json_t *j, const char *s){ static char b[300]; strcpy(b, s); derr_t e = json_parse(dstr_from_cstr(b), j); if(is_error(e)) mc_error("json"); }
// the server's certificate for an order
static void cert_of(order_t *o, char *out){ X509 *x = mkx(o->key, domains[o->dom], NULL, o->issued, o->issued + 90 * DAY); size_t n = pem(x, out, 6000); memcpy(out + n, capem, strlen(capem) + 1); X509_free(x); }
static bool remembers;
static order_t *ord(unsigned n, unsigned acct){ if(n >= no || O[n].owner != acct || O[n].gone) return NULL; return &O[n]; }
static acme_status_e ast(unsigned s){ return s == S_PENDING ? ACME_PENDING : s == S_READY ? ACME_READY : s == S_PROCESSING ? ACME_PROCESSING : s == S_VALID ? ACME_VALID : ACME_INVALID; }

// a request ends: the server sees it unless it was lost on the way there
static void complete(unsigned i){
    call_t c = in[i]; nin--; memmove(in + i, in + i + 1, sizeof(call_t) * (nin - i));
    order_t *o = ord(c.o, c.acct);
    bool closed = false; for(unsigned k = 0; k < nin; k++) if(in[k].what == C_CLOSE) closed = true;
    if(want_end) closed = true;
    bool canceled = closed && c.what != C_KEYGEN && c.what != C_CLOSE;
    // 0 as expected, 1 lost before, 2 lost after, 3 refused, more below
    static const unsigned nf[] = { 1, 6, 4, 3, 4, 4, 4, 4, 4, 4, 4, 4, 1 };
    unsigned fate = canceled ? 0 : mc_dev(nf[c.what], "fate");
    mc_log("%s: %s", CN[c.what], canceled ? "canceled" : fate == 0 ? "answered" : fate == 1 ? "lost on the way there" : fate == 2 ? "lost on the way back" : fate == 3 ? "refused" : fate == 4 ? "timeout" : "failure");
    bool seen = !canceled && (fate == 0 || fate == 2);
    derr_t e = canceled ? err(E_CANCELED) : fate == 1 || fate == 2 ? err(i & 1 ? E_SOCK : E_CONN) : fate == 3 ? err(E_RESPONSE) : E_OK;
    bool fails = is_error(e) || fate > 3;
    bool refuse = false;
    static char pems[9000];
    #define REFUSE() (refuse = true)
    switch(c.what){
        case C_KEYGEN: {
            EVP_PKEY *k = NULL;
            e = keygen_or_load(c.path, &k);
            am_keygen_done(&am, e, k); fails = false; break;
        }
        case C_PREPARE:
            if(seen){ strcpy(dns, c.proof); dns_set = true; }
            if(!is_error(e)) json(c.json, fate == 4 ? "{\"status\":\"success\",\"contents\":{\"result\":\"timeout\"}}" : fate == 5 ? "{\"status\":\"error\",\"contents\":\"no\"}" : "{\"status\":\"success\",\"contents\":{\"result\":\"ok\"}}");
            if(fate == 4) fails = false;
            am_prepare_done(&am, e, c.json); break;
        case C_UNPREPARE:
            if(seen) dns_set = false;
            if(!is_error(e)) json(c.json, "{\"status\":\"success\",\"contents\":\"ok\"}");
            am_unprepare_done(&am, e, c.json); fails = false; break;
        case C_ACCT: {
            acme_account_t a = {0};
            if(seen) nacct++;
            if(!is_error(e)){ a.key = c.jwk; a.kid = ds("kid%u", nacct - 1); } else c.jwk->free(c.jwk);
            am_new_account_done(&am, e, a); break;
        }
        case C_ORDER: {
            dstr_t w[4] = {{0}};
            if(seen){ if(no == MAXO) mc_error("orders"); O[no++] = (order_t){ .st = S_PENDING, .ch = S_PENDING, .owner = c.acct, .dom = c.dom }; }
            if(!is_error(e)){ w[0] = ds("o%u", no - 1); w[1] = ds("x%u", 0); w[2] = ds("z%u", no - 1); w[3] = ds("f%u", no - 1); }
            am_new_order_done(&am, e, w[0], w[1], w[2], w[3]); break;
        }
        case C_GETORDER: {
            dstr_t w[5] = {{0}};
            if(!remembers && o && (o->st == S_INVALID || (o->st == S_VALID && now - o->issued > 7 * DAY))) o = NULL;
            if(!is_error(e) && !o) e = err(E_RESPONSE);
            unsigned st = o ? o->st : 0;
            if(!is_error(e)){
                if(st == S_PROCESSING && !mc_dev(2, "still processing")) st = o->st = S_VALID;
                w[0] = dcopy(domains[o->dom]); w[1] = ds("x%u", 0); w[2] = ds("z%u", c.o); w[3] = ds("f%u", c.o); if(st == S_VALID) w[4] = ds("u%u", c.o);
            }
            am_get_order_done(&am, e, ast(st), w[0], w[1], w[2], w[3], w[4], 0); fails = false; break;
        }
        case C_AUTHZ: {
            dstr_t w[4] = {{0}};
            if(!is_error(e) && !o) e = err(E_RESPONSE), fails = true;
            unsigned ch = o ? o->ch : 0;
            if(!is_error(e)){
                if(ch == S_PROCESSING && !mc_dev(2, "still checking")) ch = o->ch = S_VALID, o->st = o->st == S_PENDING ? S_READY : o->st;
                w[0] = dcopy(domains[o->dom]); w[1] = ds("x%u", 0); w[2] = ds("c%u", c.o); w[3] = ds("proof%u", c.o);
                if(ch == S_INVALID) fails = true;
            }
            am_get_authz_done(&am, e, ast(ch), ast(ch), w[0], w[1], w[2], w[3], 0); break;
        }
        case C_CHALLENGE: case C_CHFINISH:
            if(o && o->st == S_PENDING && seen){
                if(fate == 2 && mc_dev(2, "only begun")) o->ch = S_PROCESSING;
                else { o->ch = S_VALID; o->st = S_READY; }
            }
            if(fate == 3 && o){ o->ch = o->st = S_INVALID; }
            if(!is_error(e) && (!o || o->ch != S_VALID)) e = err(E_RESPONSE), fails = true;
            am_challenge_done(&am, e); break;
        case C_FINALIZE: {
            dstr_t w = {0};
            if(seen){ if(o && o->st == S_READY){ o->st = fate == 2 ? S_PROCESSING : S_VALID; o->key = c.key; EVP_PKEY_up_ref(c.key); o->issued = now; } else REFUSE(); }
            if(!is_error(e) && refuse) e = err(E_RESPONSE), fails = true;
            if(!is_error(e)){ cert_of(o, pems); w = dcopy(pems); }
            am_finalize_done(&am, e, w); break;
        }
        case C_FINPROC: {
            dstr_t w = {0};
            if(o && o->st == S_PROCESSING && seen) o->st = S_VALID;
            if(!is_error(e) && (!o || o->st != S_VALID)) e = err(E_RESPONSE), fails = true;
            if(!is_error(e)){ cert_of(o, pems); w = dcopy(pems); }
            am_finalize_done(&am, e, w); break;
        }
        case C_FINVALID: {
            dstr_t w = {0};
            if(!is_error(e) && (!o || o->st != S_VALID)) e = err(E_RESPONSE), fails = true;
            if(!is_error(e)){ cert_of(o, pems); w = dcopy(pems); stale = now - o->issued >= 60 * DAY; }
            am_finalize_done(&am, e, w); break;
        }
        case C_CLOSE: am_close_done(&am); break;
    }
    if(c.what == C_FINALIZE || c.what == C_FINPROC) stale = false;
    if(c.key) EVP_PKEY_free(c.key);
    if(fails){ failed_now = true; failed_t = now; } else if(c.what != C_KEYGEN) failed_now = false;
}
static void advance(void){ am_advance_state(&am); judge(); }
static time_t next_deadline(int *which){ time_t t = 0; *which = -1; for(int i = 0; i < 3; i++) if(dl[i].on && (*which < 0 || dl[i].t < t)){ t = dl[i].t; *which = i; } return t; }
static void jump(int i){ if(dl[i].t > now) now = dl[i].t; dl[i].on = false; mc_log("timer %s at day %ld%+ld", i == 0 ? "certificate" : i == 1 ? "backoff" : "unprepare", (long)((now - T0) / DAY), (long)((now - T0) % DAY)); advance(); }
static void wipe(void){ DIR *d = opendir(dir); struct dirent *q; if(!d) return; while((q = readdir(d))) if(*q->d_name != '.') __real_unlink(file(q->d_name)); closedir(d); }
static void run(void){
    now = T0; nkeys = no = nacct = nin = 0; dns_set = false; memset(dl, 0, sizeof(dl)); last_nonce = 0; good = 0; ngot = 0; domain = 0; ndone = 0; alive = false; tls = false; stale = false;
    for(int i = 0; i < MAXO; i++){ if(O[i].key) EVP_PKEY_free(O[i].key); } memset(O, 0, sizeof(O));
    remembers = mc_opt("remembers", 1);
    int cycles = (int)mc_opt("cycles", 2); bool kills = mc_opt("kills", 1), jumps = mc_opt("jumps", 1), loss = mc_opt("loss", 0), off = mc_opt("off", 0), dom = mc_opt("dom", 0);
    int pre = (int)mc_opt("pre", 0); bool slowkey = mc_opt("slowkey", 0);
    snprintf(dir, sizeof(dir), "%s/acme", mc_scratch()); mkdir(dir, 0700); wipe();
    if(pre >= 1) put("installation.json", inst());
    int fdmark = dup(0); close(fdmark);
    volatile int steps = 0; volatile bool restart = true, closing = false;
    if(sigsetjmp(env, 1)){
        crash_on = false;
        for(int fd = fdmark; fd < fdmark + 8; fd++) close(fd);
        forget(); restart = true; closing = false;
    }
    crash_on = true;
    for(;;){
        if(restart){
            restart = false;
            crash_on = kills;
            start();
            advance();
        }
        if(++steps > 600) mc_fail("endless", "there is no certificate after %d events", steps);
        if(ended){
            // known: the certificate of an old order which was never fetched is past its renewal
            if(!want_end && end_type == E_INTERNAL && stale){ mc_soft("stale-valid-order", "the manager ends by itself: INTERNAL"); stale = false; want_end = true; end_type = E_CANCELED; }
            MC_CHECK(want_end && end_type == E_CANCELED, "ended", "the manager ends by itself: %s", error_to_dstr(end_type).data);
            MC_CHECK(!nin, "ended", "the manager ends while requests are under way");
            tls = false; memset(dl, 0, sizeof(dl));
            if(closing && ngot >= cycles) break;
            closing = false; mc_log("ended"); restart = true; continue;
        }
        // what may come next: requests under way, timers, then the rest
        int w; time_t t = next_deadline(&w);
        if(want_end){
            // the others are canceled first
            unsigned n = nin > 1 ? nin : 1, k = 0, idx[8], m = 0;
            for(unsigned i = 0; i < nin; i++) if(in[i].what != C_CLOSE || nin == 1) idx[m++] = i;
            (void)n;
            MC_CHECK(m, "close", "the manager does not end");
            k = mc_dev(m, "event");
            complete(idx[k]); if(!ended) advance();
            continue;
        }
        bool idle = !nin;
        if(idle && ngot >= cycles && tls && !dns_set && w == 0 && !closing){
            // all is well: end it
            closing = true; want_end = true; mc_log("close"); am_close(&am); advance(); continue;
        }
        if(idle && w < 0) mc_fail("stuck", "nothing is under way, no timer is set, and there is no certificate");
        unsigned ntimers = w >= 0 && (jumps || idle || t <= now) ? 1 : 0;
        bool early = ntimers && t <= now;      // a timer which is due comes first
        unsigned n = nin + ntimers, extra = 0; unsigned kx = 99, cx = 99, lx = 99, ix = 99, dx = 99, hx = 99, ox = 999;
        if(kills){ kx = n + extra++; }
        cx = n + extra++;
        if(off){ ox = n + extra; extra += 2; }
        if(loss && fexists("account.json")){ lx = n + extra++; }
        if(!conf && !fexists("installation.json")) ix = n + extra++;
        if(!conf) hx = n + extra++;
        if(dom && fexists("installation.json")) dx = n + extra++;
        // waiting for the user: it is configured after a while
        if(idle && !conf && !fexists("installation.json") && now - T0 >= 10){ crash_on = false; put("installation.json", inst()); crash_on = kills; mc_log("configured"); continue; }
        unsigned k = mc_dev(n + extra, "event");
        // with slowkey, keys take longer than anything else
        if(slowkey && k < n && !early){
            unsigned ord_[8], m = 0;
            for(unsigned i = 0; i < nin; i++) if(in[i].what != C_KEYGEN) ord_[m++] = i;
            if(ntimers && dl[w].t - now < DAY) ord_[m++] = nin;
            for(unsigned i = 0; i < nin; i++) if(in[i].what == C_KEYGEN) ord_[m++] = i;
            if(m < n) ord_[m++] = nin;
            k = ord_[k];
        }
        if(k == kx){ mc_log("KILLED"); forget(); am = (acme_manager_t){0}; restart = true; continue; }
        if(k == ox || k == ox + 1){ mc_log("KILLED, and off for %d days", k == ox ? 70 : 120); forget(); now += (k == ox ? 70 : 120) * DAY; restart = true; continue; }
        if(k == cx){ mc_log("close"); want_end = true; am_close(&am); advance(); continue; }
        if(k == lx){ mc_log("KILLED, and account.json is damaged"); forget(); if(truncate(file("account.json"), 20)) mc_error("truncate"); restart = true; continue; }
        if(k == ix){ mc_log("configured"); put("installation.json", inst()); continue; }
        if(k == hx){ mc_log("check"); am_check(&am); advance(); continue; }
        if(k == dx){ mc_log("KILLED, configured for another domain"); forget(); domain = !domain; put("installation.json", inst()); restart = true; continue; }
        if(early){ if(k == 0){ jump(w); continue; } k--; if(k < nin){ complete(k); advance(); continue; } }
        else if(k < nin){ complete(k); advance(); continue; }
        jump(w);
    }
    crash_on = false;
    MC_CHECK(nacct >= 1, "account", "no account");
    mc_case(1); mc_outcome((uint64_t)no * 64 + nkeys);
    for(int i = 0; i < MAXO; i++){ if(O[i].key) EVP_PKEY_free(O[i].key); O[i].key = NULL; }
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "e02_acme", .run = run, .init = init, .exec_timeout = 60 };
    return mc_main(argc, argv, &h);
}
