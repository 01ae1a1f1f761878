/* C02: two real TLS streams over a modelled byte pipe. */
#define _GNU_SOURCE
#define VSRC 32768
#define VMEM 4096
#define VUSERS 2
#define VCH mc_dev
#define OPENSSL_SUPPRESS_DEPRECATED
#include "c_base.h"
#include "c_user2.h"
#include "libduvtls/libduvtls.h"
#include "libcrypto/libcrypto.h"
#include <openssl/ssl.h>
#include <openssl/rand.h>
#include <openssl/x509v3.h>
#include <openssl/err.h>
#include <sys/mman.h>
#include <unistd.h>

/* ---- randomness which is the same in every execution */
static uint64_t rctr;
static int r_bytes(unsigned char *b, int n){
    for(int i = 0; i < n; i++){ if(i % 8 == 0) rctr++; b[i] = (unsigned char)(mc_hash_u(0x1234, rctr) >> (8 * (i % 8))); }
    return 1;
}
static int r_status(void){ return 1; }
static RAND_METHOD RM = { .bytes = r_bytes, .pseudorand = r_bytes, .status = r_status };

/* ---- certificates */
typedef struct {
    const char *name, *cn, *san; int from, to;   /* days */
    const char *eku; int signer;                /* 0 CA, 1 other CA, 2 self, 3 intermediate, 4 a leaf as an intermediate, 5 CA with a damaged signature, 6 expired intermediate */
    bool chain;                                 /* send the intermediate */
    bool ok;                                    /* trustworthy at all */
} cv_t;
static const cv_t CV[] = {
    { "good", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 0, false, true },
    { "good without EKU", "a.h.test", "DNS:a.h.test", -10, 10, NULL, 0, false, true },
    { "good with intermediate", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 3, true, true },
    { "several names", "x", "DNS:b.h.test,DNS:a.h.test,IP:127.0.0.1", -10, 10, "serverAuth", 0, false, true },
    { "wildcard", "x", "DNS:*.h.test", -10, 10, "serverAuth", 0, false, true },
    { "partial wildcard", "x", "DNS:a*.h.test", -10, 10, "serverAuth", 0, false, true },
    { "common name only", "a.h.test", NULL, -10, 10, "serverAuth", 0, false, true },
    { "common name is not a SAN", "a.h.test", "DNS:b.h.test", -10, 10, "serverAuth", 0, false, true },
    { "other name", "b.h.test", "DNS:b.h.test", -10, 10, "serverAuth", 0, false, true },
    { "suffix name", "x", "DNS:a.h.test.evil.h.test,DNS:xa.h.test,DNS:h.test", -10, 10, "serverAuth", 0, false, true },
    { "expired", "a.h.test", "DNS:a.h.test", -20, -10, "serverAuth", 0, false, false },
    { "not yet valid", "a.h.test", "DNS:a.h.test", 10, 20, "serverAuth", 0, false, false },
    { "unknown authority", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 1, false, false },
    { "self-signed", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 2, false, false },
    { "missing intermediate", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 3, false, false },
    { "issued by a leaf", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 4, true, false },
    { "damaged signature", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 5, false, false },
    { "expired intermediate", "a.h.test", "DNS:a.h.test", -10, 10, "serverAuth", 6, true, false },
    { "for clients only", "a.h.test", "DNS:a.h.test", -10, 10, "clientAuth", 0, false, false },
    { "other address", "x", "IP:127.0.0.2", -10, 10, "serverAuth", 0, false, true },
};
#define NCV (sizeof(CV) / sizeof(*CV))
static const char *const NAMES[] = { "a.h.test", "b.h.test", "h.test", "c.h.test", "A.H.Test", "x.a.h.test", "127.0.0.1", "ab.h.test" };
/* which names each certificate is good for, in the order of NAMES */
static const char *const MATCH[NCV] = {
    "10001000", "10001000", "10001000", "11001010", "11011?01", "00000000", "10001000", "01000000", "01000000", "00100000",
    "", "", "", "", "", "", "", "", "", "00000000",
};
static EVP_PKEY *K[7]; static X509 *C[7];
static EVP_PKEY *skey;
static char *CERTPEM[NCV]; static size_t CERTLEN[NCV];
static char *KEYPEM; static size_t KEYLEN;
static ssl_context_t CTX_S[2][NCV], CTX_C[2];
static void ext(X509 *x, X509 *issuer, int nid, const char *v){
    X509V3_CTX c; X509V3_set_ctx_nodb(&c); X509V3_set_ctx(&c, issuer, x, NULL, NULL, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, &c, nid, v);
    if(!e) mc_error("x509 extension");
    X509_add_ext(x, e, -1); X509_EXTENSION_free(e);
}
static X509 *mkcert(const char *cn, const char *san, int from, int to, const char *eku, bool ca, EVP_PKEY *pub, X509 *iss, EVP_PKEY *ik){
    static long serial = 1;
    X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
    time_t today = time(NULL) / 86400 * 86400; /* not to the second: a replay must make the same certificates */
    ASN1_TIME_set(X509_getm_notBefore(x), today + 86400L * from);
    ASN1_TIME_set(X509_getm_notAfter(x), today + 86400L * to);
    X509_set_pubkey(x, pub);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)cn, -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(iss ? iss : x));
    if(ca){ ext(x, iss ? iss : x, NID_basic_constraints, "critical,CA:TRUE"); ext(x, iss ? iss : x, NID_key_usage, "critical,keyCertSign,cRLSign"); }
    else ext(x, iss ? iss : x, NID_basic_constraints, "critical,CA:FALSE");
    if(san) ext(x, iss ? iss : x, NID_subject_alt_name, san);
    if(eku) ext(x, iss ? iss : x, NID_ext_key_usage, eku);
    if(!X509_sign(x, ik, EVP_sha256())) mc_error("x509 sign");
    return x;
}
static char *bio_take(BIO *b, size_t *n){
    char *p; long l = BIO_get_mem_data(b, &p);
    char *r = malloc((size_t)l); memcpy(r, p, (size_t)l); *n = (size_t)l;
    BIO_free(b);
    return r;
}
static void init(void){
    RAND_set_rand_method(&RM);
    if(is_error(ssl_library_init())) mc_error("ssl");
    for(int i = 0; i < 7; i++) K[i] = EVP_EC_gen("P-256");
    skey = EVP_EC_gen("P-256");
    C[0] = mkcert("root", NULL, -100, 100, NULL, true, K[0], NULL, K[0]);
    C[1] = mkcert("other root", NULL, -100, 100, NULL, true, K[1], NULL, K[1]);
    C[3] = mkcert("intermediate", NULL, -100, 100, NULL, true, K[3], C[0], K[0]);
    C[4] = mkcert("leaf", "DNS:leaf.test", -100, 100, NULL, false, K[4], C[0], K[0]);
    C[6] = mkcert("old intermediate", NULL, -100, -50, NULL, true, K[6], C[0], K[0]);
    for(size_t i = 0; i < NCV; i++){
        int s = CV[i].signer; X509 *iss = s == 2 ? NULL : s == 5 ? C[0] : C[s];
        /* a damaged signature: right issuer name, wrong key */
        X509 *x = mkcert(CV[i].cn, CV[i].san, CV[i].from, CV[i].to, CV[i].eku, false, skey, iss, s == 2 ? skey : s == 5 ? K[1] : K[s]);
        BIO *b = BIO_new(BIO_s_mem());
        PEM_write_bio_X509(b, x);
        if(CV[i].chain) PEM_write_bio_X509(b, C[s]);
        CERTPEM[i] = bio_take(b, &CERTLEN[i]);
        X509_free(x);
    }
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_PrivateKey(b, skey, NULL, NULL, 0, NULL, NULL);
    KEYPEM = bio_take(b, &KEYLEN);
    int fd = memfd_create("ca", 0);
    size_t n; b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, C[0]);
    char *pem = bio_take(b, &n);
    if(write(fd, pem, n) != (ssize_t)n) mc_error("ca file");
    char path[64]; snprintf(path, sizeof(path), "/proc/self/fd/%d", fd);
    const char *ca = path;
    for(int v = 0; v < 2; v++){
        if(is_error(ssl_context_new_client_ex(&CTX_C[v], false, &ca, 1))) mc_error("client context");
        if(!v) SSL_CTX_set_max_proto_version(CTX_C[v].ctx, TLS1_2_VERSION);
        for(size_t i = 0; i < NCV; i++){
            dstr_t chain, key; DSTR_WRAP(chain, CERTPEM[i], CERTLEN[i], false); DSTR_WRAP(key, KEYPEM, KEYLEN, false);
            derr_t e = ssl_context_new_server_pem(&CTX_S[v][i], chain, key);
            if(is_error(e)) mc_error("server context");
            SSL_CTX_set_session_cache_mode(CTX_S[v][i].ctx, SSL_SESS_CACHE_OFF);
        }
        SSL_CTX_set_session_cache_mode(CTX_C[v].ctx, SSL_SESS_CACHE_OFF);
    }
}

/* ---- the pipe: base stream 0 is the client's, 1 the server's */
#define WIRE (1 << 17)
static ms_t B[2];
static char wire[2][WIRE];              /* wire[i]: bytes written by i */
static struct {
    bool cut[2];                        /* end i's incoming direction ends early */
    bool lost[2], err[2];
    bool stalled[2];                    /* a write of i is not on the wire yet */
    int faults;
    bool eofed[2];
    size_t hsend[2];                    /* wire length when the handshake was over */
} P;
static duv_tls_t T[2];
static bool wrapped[2];
static bool plain_schedule, expect_refusal;
static unsigned dev(unsigned n, const char *l){ return plain_schedule ? 0 : mc_dev(n, l); }
static bool p_write(stream_i *i, stream_write_t *w, const dstr_t bufs[], unsigned int n, stream_write_cb cb){
    ms_t *b = CONTAINER_OF(i, ms_t, s); int id = b->id;
    if(!stream_write_checks(i, bufs, n)) return false;
    MC_CHECK(!P.stalled[id] && link_list_isempty(&b->writes), "one-write", "two writes in flight on the base");
    stream_write_init_nocopy(w, cb);
    w->nbufs = n;
    for(unsigned k = 0; k < n; k++) w->arraybufs[k] = bufs[k];
    link_list_append(&b->writes, &w->link);
    P.stalled[id] = true;
    if(!(mc_opt("stall", 1) && dev(2, "write stalls"))){
        for(unsigned k = 0; k < n; k++){
            if(b->outlen + bufs[k].len > WIRE) mc_error("wire too short");
            memcpy(wire[id] + b->outlen, bufs[k].data, bufs[k].len); b->outlen += bufs[k].len;
        }
        P.stalled[id] = false;
        B[!id].len = b->outlen;
    }
    return true;
}
static void p_write_done(int i){
    stream_write_t *w = CONTAINER_OF(link_list_pop_first(&B[i].writes), stream_write_t, link);
    if(P.stalled[i]){
        for(unsigned k = 0; k < w->nbufs; k++){ memcpy(wire[i] + B[i].outlen, w->arraybufs[k].data, w->arraybufs[k].len); B[i].outlen += w->arraybufs[k].len; }
        P.stalled[i] = false; B[!i].len = B[i].outlen;
    }
    w->cb(&B[i].s, w);
}
static void explain(void);
static void p_finish(int i, derr_type_t t){
    /* closed with a write in flight: what was behind it, like the closing
       alert, need not arrive; the other end may see a reset, but no end */
    if(P.stalled[i] || !link_list_isempty(&B[i].writes)) P.lost[i] = true;
    P.stalled[i] = false;
    explain();
    ms_finish(&B[i], t);
}
#define X_NONE 77
enum { P_SCHED = 1, P_WDONE, P_ALL, P_ONE, P_PART, P_EOF, P_CUT, P_FIN, P_FAIL };
static void p_menu(void){
    if(sch_pending()) menu_add(X_OTHER, NULL, P_SCHED);
    for(int i = 0; i < 2; i++){
        size_t o = (size_t)i * 16;
        if(B[i].s.awaited) continue;
        if(B[i].s.canceled){ menu_add(X_OTHER, NULL, o + P_FIN); continue; }
        if(!link_list_isempty(&B[i].writes)) menu_add(X_OTHER, NULL, o + P_WDONE);
        if(!link_list_isempty(&B[i].reads)){
            if(B[i].pos < B[i].len && !P.cut[i]){
                menu_add(X_OTHER, NULL, o + P_ALL);
                if(!plain_schedule){ menu_add(X_OTHER, NULL, o + P_ONE); if(B[i].len - B[i].pos > 6) menu_add(X_OTHER, NULL, o + P_PART); }
            }else if(!B[i].s.eof && (P.cut[i] || (B[!i].s.awaited))) menu_add(X_OTHER, NULL, o + P_EOF);
        }
    }
}
static void p_menu_faults(void){
    if(plain_schedule) return;
    for(int i = 0; i < 2; i++) if(wrapped[i] && VS[i].cancels_left > 0 && !VS[i].canceled){ menu_add(Y_CANCEL, NULL, 0); menu.a[menu.n - 1].b = (mb_t*)(void*)&VS[i]; }
    if(P.faults <= 0) return;
    for(int i = 0; i < 2; i++){
        if(B[i].s.awaited || B[i].s.canceled) continue;
        if(!P.cut[i]) menu_add(X_OTHER, NULL, (size_t)i * 16 + P_CUT);
        menu_add(X_OTHER, NULL, (size_t)i * 16 + P_FAIL);
    }
}
static void p_act(size_t x){
    int i = (int)(x / 16);
    switch(x % 16){
        case P_SCHED: sch_run_one(); break;
        case P_WDONE: mc_log("%c wire write done (%zu)", 'A' + i, B[i].outlen); p_write_done(i); break;
        case P_ALL: { size_t n = ms_room(&B[i]); mc_log("%c wire gets %zu", 'A' + i, n); ms_deliver(&B[i], n); } break;
        case P_ONE: mc_log("%c wire gets 1", 'A' + i); ms_deliver(&B[i], 1); break;
        case P_PART: mc_log("%c wire gets 6", 'A' + i); ms_deliver(&B[i], ms_room(&B[i]) < 6 ? ms_room(&B[i]) : 6); break;
        case P_EOF: mc_log("%c wire eof", 'A' + i); P.eofed[i] = true; ms_eof(&B[i]); break;
        case P_CUT: mc_log("%c wire is cut at %zu", 'A' + i, B[i].pos); P.faults--; P.cut[i] = true; break;
        case P_FIN: mc_log("%c wire closed", 'A' + i); p_finish(i, E_CANCELED); break;
        case P_FAIL: mc_log("%c wire fails", 'A' + i); P.faults--; P.err[i] = true; p_finish(i, E_CONN); break;
        default: mc_error("act");
    }
}
static size_t dpos_rec;
static size_t t_sunk(const char *src){ (void)src; int i = V.name - 'A'; return B[i].outlen > V.wfinished ? V.wfinished : 0; }

/* ---- one session */
static int cvi, ver; static const char *vname;
/* whoever opened the connection awaited it, too */
static int base_done[2];
static void base_await_cb(stream_i *s, derr_t e, link_t *reads, link_t *writes){
    ms_t *b = CONTAINER_OF(s, ms_t, s);
    MC_CHECK(!base_done[b->id]++, "base-twice", "the base's own final callback came twice");
    MC_CHECK(!is_error(e), "base-error", "the TLS layer keeps the base's errors");
    MC_CHECK(link_list_isempty(reads) && link_list_isempty(writes), "base-foreign", "the base's own final callback got reads or writes of the TLS layer");
}
static void wrap_end(int i, dstr_t pre){
    stream_i *s = NULL; derr_t e;
    dstr_t nm; DSTR_WRAP(nm, (char*)(uintptr_t)vname, strlen(vname), true);
    base_done[i] = 0;
    B[i].s.await(&B[i].s, base_await_cb);
    if(i == 0) e = duv_tls_wrap_client(&T[0], CTX_C[ver].ctx, nm, &sch.iface, &B[0].s, &s);
    else e = duv_tls_wrap_server(&T[1], CTX_S[1][cvi].ctx, &sch.iface, &B[1].s, pre, &s);
    if(is_error(e)) mc_error("wrap");
    vp = &VS[i];
    v_init(s, NULL, 0, t_sunk);
    VS[i].peer = &VS[!i]; VS[i].want = VS[!i].txt;
    VS[i].unit = (size_t)mc_opt("unit", 1);
    VS[i].rsize[0] = (size_t)mc_opt("rsize", 16); VS[i].rsize[1] = 1; VS[i].rsize[2] = VMEM;
    if(plain_schedule){ V.incb = 0; V.cancels_left = 0; V.sizes = 1; V.big = false; }
    wrapped[i] = true;
}
static void session_start(void){
    rctr = 1000;
    sch_init();
    memset(&P, 0, sizeof(P)); memset(T, 0, sizeof(T)); memset(VS, 0, sizeof(VS)); wrapped[0] = wrapped[1] = false;
    for(int i = 0; i < 2; i++){
        ms_init(&B[i], wire[!i], 0); B[i].id = i; B[i].s.write = p_write; B[i].outcap = WIRE;
        for(int k = 0; k < VSRC; k++) VS[i].txt[k] = (char)(k % (190 - i) + 33 + i);
    }
}
static void session_free(void){
    for(int i = 0; i < 2; i++) if(wrapped[i] && !VS[i].done){
        SSL_free(T[i].ssl); dstr_free(&T[i].read_buf); dstr_free(&T[i].write_buf); DROP_VAR(&T[i].e);
        for(int k = 0; k < VW; k++) if(VS[i].wstate[k]) stream_write_free(&VS[i].wr[k]);
    }
    ERR_clear_error();
}
static void user_menu(int i){
    vp = &VS[i];
    if(!wrapped[i]) return;
    unsigned n0 = menu.n;
    v_menu();
    unsigned n1 = n0;
    for(unsigned k = n0; k < menu.n; k++) if(menu.a[k].what != Y_CANCEL){ menu.a[n1] = menu.a[k]; menu.a[n1++].b = (mb_t*)(void*)vp; }
    menu.n = n1;
}
static bool explained(int i){
    /* anything which may keep end i from an orderly end */
    if(expect_refusal) return true;
    if(P.err[0] || P.err[1] || P.cut[0] || P.cut[1] || P.lost[0] || P.lost[1]) return true;
    if(VS[!i].canceled || VS[!i].err) return true;
    return false;
}
static void explain(void){ for(int i = 0; i < 2; i++) if(explained(i)) VS[i].base_failed = true; }
static bool poked(int i){ return VS[i].awaiting || VS[i].rorder || VS[i].worder || VS[i].shut; }
static void pump(unsigned max){
    for(unsigned step = 0; step < max; step++){
        menu.n = 0;
        p_menu();
        bool quiet = !menu.n;
        explain();
        if(quiet && !plain_schedule) for(int i = 0; i < 2; i++) if(wrapped[i]){
            vp = &VS[i];
            if(V.awaiting && !V.done){
                if(V.canceled) mc_fail("never-finishes", "nothing is left to happen, but the canceled stream never gave its final callback");
                if(P.err[i] || P.eofed[i]) mc_fail("never-finishes", "the connection is gone, but the stream never gave its final callback");
                if(V.eof && V.shut_cb) mc_fail("never-finishes", "both ends are closed, but the stream never gave its final callback");
            }
            if(V.canceled || V.base_failed || !wrapped[!i]) continue;
            /* nothing is wrong: whatever can be answered must have been */
            if(!poked(0) || !poked(1)) continue;
            bool ready = T[0].handshake_done && T[1].handshake_done;
            if(!ready) mc_fail("handshake-stuck", "nothing is left to happen, but the handshake is not over");
            if(v_wout()) mc_fail("write-stuck", "nothing is left to happen, but a write was never answered");
            if(v_rout() && (V.pos < V.peer->written || V.peer->shut_cb)) mc_fail("read-stuck", "nothing is left to happen, but a read was never answered");
            if(V.shut && !V.shut_cb) mc_fail("shutdown-stuck", "nothing is left to happen, but the shutdown was never answered");
        }
        user_menu(0); user_menu(1);
        if(!menu.n) menu_add(X_NONE, NULL, 0);
        p_menu_faults();
        act_t a = menu.a[dev(menu.n, "next")];
        if(a.what == X_NONE) break;
        if(a.what == X_OTHER) p_act(a.n);
        else{ vp = (usr2_t*)(void*)a.b; v_act(&a); }
        if(quiet && plain_schedule && a.what == X_OTHER) mc_error("menu");
    }
}
static void finish_checks(void){
    for(int i = 0; i < 2; i++){
        vp = &VS[i];
        if(!wrapped[i]) continue;
        if(V.done) MC_CHECK(base_done[i], "base-lost", "the base's own final callback was lost");
        if(V.done && !V.err && !explained(i)) MC_CHECK(V.pos == V.peer->written, "short", "an orderly end after %zu of %zu bytes", V.pos, V.peer->written);
    }
}
static uint64_t outcome(void){
    uint64_t h = 0;
    for(int i = 0; i < 2; i++) h = mc_hash_u(mc_hash_u(mc_hash_u(h, (uint64_t)(uintptr_t)VS[i].err), VS[i].pos), (uint64_t)VS[i].wanswered * 4 + VS[i].done * 2u + VS[i].eof);
    return h;
}
static void run_sched(void){
    P.faults = 0;
    session_start();
    P.faults = (int)mc_opt("faults", 1);
    wrap_end(0, (dstr_t){0});
    long pre = mc_opt("pre", -1);
    if(pre >= 0){
        /* STARTTLS: the first bytes of the client came along with its command */
        VS[0].awaiting = true; VS[0].s->await(VS[0].s, v_await_cb);
        vp = &VS[0]; v_write(1);
        while(sch_pending()) sch_run_one();
        size_t n = B[0].outlen;
        static const size_t PRE[] = { 0, 1, 4, 5, 6, 100, 1 << 20 };
        size_t k = PRE[mc_choose(7, "bytes before the handshake")]; if(k > n) k = n;
        mc_log("%zu bytes came before the server's handshake", k);
        B[1].pos = k;
        dstr_t d; DSTR_WRAP(d, wire[0], k, false);
        wrap_end(1, d);
    }else wrap_end(1, (dstr_t){0});
    pump(1500);
    finish_checks();
    mc_outcome(outcome());
    session_free();
}
/* ---- damage on the wire, on one fixed schedule */
enum { M_CUT, M_FLIP, M_REC };
static unsigned rop; static bool rdone;
static const char *const ROP[] = { "dropped", "repeated", "preceded by a forged closing alert", "preceded by a forged data record", "followed by the first record again" };
/* offset of record n, or SIZE_MAX if it is not there in full */
static size_t rec_at(int d, size_t n, size_t *len){
    size_t o = 0;
    for(;; n--){
        if(B[d].outlen < o + 5) return SIZE_MAX;
        *len = 5 + (size_t)(((unsigned char)wire[d][o + 3] << 8) | (unsigned char)wire[d][o + 4]);
        if(B[d].outlen < o + *len) return SIZE_MAX;
        if(!n) return o;
        o += *len;
    }
}
static void wire_insert(int d, size_t o, const char *p, size_t n){
    char t[20000]; if(n > sizeof(t) || B[d].outlen + n > WIRE) mc_error("wire_insert");
    memcpy(t, p, n);
    memmove(wire[d] + o + n, wire[d] + o, B[d].outlen - o);
    memcpy(wire[d] + o, t, n);
    B[d].outlen += n; B[!d].len = B[d].outlen;
}
static void damage_record(int d){
    size_t len, o = rec_at(d, dpos_rec, &len), l0 = 0;
    if(o == SIZE_MAX || rdone) return;
    rdone = true; P.lost[0] = true;
    switch(rop){
        case 0: memmove(wire[d] + o, wire[d] + o + len, B[d].outlen - o - len); B[d].outlen -= len; B[!d].len = B[d].outlen; break;
        case 1: wire_insert(d, o, wire[d] + o, len); break;
        case 2: wire_insert(d, o, "\x15\x03\x03\x00\x02\x01\x00", 7); break;
        case 3: wire_insert(d, o, "\x17\x03\x03\x00\x01!", 6); break;
        default: rec_at(d, 0, &l0); wire_insert(d, o + len, wire[d], l0); break;
    }
}
static int damage; static size_t dpos; static int ddir; static unsigned char dmask;
static void damaged_session(void){
    /* as pump() with the plain schedule, delivering up to the damaged byte */
    plain_schedule = true; rdone = false;
    session_start();
    wrap_end(0, (dstr_t){0}); wrap_end(1, (dstr_t){0});
    for(unsigned step = 0; step < 3000; step++){
        if(damage && !B[!ddir].s.awaited){
            /* direction ddir is written by ddir and read by !ddir */
            if(damage == 1 + M_CUT && B[!ddir].len > dpos){ B[!ddir].len = dpos; P.cut[!ddir] = true; B[!ddir].s.eof = false; }
            if(damage == 1 + M_FLIP && B[ddir].outlen > dpos && !P.lost[0]){ wire[ddir][dpos] = (char)(wire[ddir][dpos] ^ dmask); P.lost[0] = true; }
        }
        if(damage == 1 + M_REC) damage_record(ddir);
        menu.n = 0;
        explain();
        if(sch_pending()) menu_add(X_OTHER, NULL, P_SCHED);
        for(int i = 0; i < 2; i++){
            size_t o = (size_t)i * 16;
            if(B[i].s.awaited) continue;
            if(B[i].s.canceled){ menu_add(X_OTHER, NULL, o + P_FIN); continue; }
            if(!link_list_isempty(&B[i].writes)) menu_add(X_OTHER, NULL, o + P_WDONE);
            if(!link_list_isempty(&B[i].reads)){
                if(B[i].pos < B[i].len) menu_add(X_OTHER, NULL, o + P_ALL);
                else if(!B[i].s.eof && (P.cut[i] || B[!i].s.awaited)) menu_add(X_OTHER, NULL, o + P_EOF);
            }
        }
        user_menu(0); user_menu(1);
        if(!menu.n) break;
        for(int i = 0; i < 2; i++) if(!P.hsend[i] && T[i].handshake_done) P.hsend[i] = B[i].outlen + 1;
        act_t a = menu.a[0];
        if(a.what == X_OTHER) p_act(a.n); else{ vp = (usr2_t*)(void*)a.b; v_act(&a); }
    }
    plain_schedule = false;
}
static void run_damage(int kind){
    cvi = 0; ver = (int)mc_choose(2, "TLS version"); vname = "a.h.test";
    static size_t mtot[2][2], mhs[2][2], mrec[2][2], mhr[2][2];
    if(!mtot[ver][0]){
        damage = 0; damaged_session();
        for(int i = 0; i < 2; i++){
            MC_CHECK(VS[i].done && !VS[i].err && VS[i].pos == VS[!i].written, "clean", "an undisturbed session did not end in order");
            mtot[ver][i] = B[i].outlen; mhs[ver][i] = P.hsend[i] - 1;
            size_t l, o; mrec[ver][i] = mhr[ver][i] = 0;
            while((o = rec_at(i, mrec[ver][i], &l)) != SIZE_MAX){ if(o < mhs[ver][i]) mhr[ver][i]++; mrec[ver][i]++; }
        }
        session_free();
    }
    ddir = (int)mc_choose(2, "direction");
    if(kind == M_REC){
        dpos_rec = mc_choose((unsigned)mrec[ver][ddir], "record"); rop = mc_choose(5, "what");
        mc_log("TLS 1.%d, record %zu of %zu (%zu in the handshake) written by %c %s", ver + 2, dpos_rec, mrec[ver][ddir], mhr[ver][ddir], 'A' + ddir, ROP[rop]);
        dpos = dpos_rec >= mhr[ver][ddir] ? SIZE_MAX : 0;
        if(dpos && (rop == 4 || rop == 1) && dpos_rec + 1 == mrec[ver][ddir]) dpos = 0; /* behind the end */
    }else{
    dpos = mc_choose((unsigned)mtot[ver][ddir], "position");
    static const unsigned char MASK[4] = { 1, 0x80, 0xff, 0x10 };
    dmask = kind == M_FLIP ? MASK[mc_choose((unsigned)mc_opt("masks", 2), "mask")] : 0;
    mc_log("TLS 1.%d, %s byte %zu of %zu (handshake %zu) written by %c", ver + 2, kind == M_CUT ? "cut before" : "altered", dpos, mtot[ver][ddir], mhs[ver][ddir], 'A' + ddir);
    }
    damage = 1 + kind;
    damaged_session();
    int r = !ddir;
    vp = &VS[r];
    if(kind == M_CUT || dpos >= mhs[ver][ddir]){
        MC_CHECK(!(V.done && !V.err), "silent-damage", "the reader of a %s connection ended without an error", kind == M_CUT ? "cut" : "altered");
        MC_CHECK(!V.eof, "silent-cut", "the reader of a %s connection saw an orderly end", kind == M_CUT ? "cut" : "altered");
        if(kind == M_CUT) MC_CHECK(V.done, "never-finishes", "the reader of a cut connection never got its final callback");
    }
    for(int i = 0; i < 2; i++) if(VS[i].done && !VS[i].err) MC_CHECK(VS[i].pos == VS[!i].written && VS[i].eof, "short", "an orderly end after %zu of %zu bytes", VS[i].pos, VS[!i].written);
    mc_outcome(mc_hash_u(outcome(), (uint64_t)kind));
    session_free();
    damage = 0;
}
/* ---- certificates */
static void run_cert(void){
    cvi = (int)mc_choose(NCV, "certificate"); unsigned ni = mc_choose(sizeof(NAMES) / sizeof(*NAMES), "name"); vname = NAMES[ni];
    ver = (int)mc_choose(2, "TLS version");
    damage = 0;
    mc_log("certificate \"%s\", name %s, TLS 1.%d", CV[cvi].name, vname, ver + 2);
    if(MATCH[cvi][0] && MATCH[cvi][ni] == '?'){ mc_trivial(); return; } /* a wildcard for several labels: not judged */
    bool ok = CV[cvi].ok && MATCH[cvi][ni] == '1';
    expect_refusal = !ok;
    damaged_session();
    bool good = VS[0].done && !VS[0].err && VS[0].eof && VS[0].pos == VS[1].written;
    if(ok) MC_CHECK(good, "refused", "a good certificate was refused");
    else{
        MC_CHECK(!good && VS[0].err, "accepted", "a server with a bad certificate was accepted");
        MC_CHECK(!VS[0].pos && !VS[0].wfinished && !VS[1].pos, "leaked", "data was exchanged with a server with a bad certificate");
        MC_CHECK(VS[1].err, "accepted-server", "the refused server saw an orderly end");
        MC_CHECK(VS[0].err != E_CANCELED && VS[0].err != E_INTERNAL, "refused-how", "refused with %s", ename(VS[0].err));
    }
    mc_log("%s", ename(VS[0].err));
    mc_outcome(mc_hash_u(outcome(), (uint64_t)cvi));
    session_free();
}
static void run(void){
    const char *m = mc_opts("mode", "sched");
    expect_refusal = false;
    cvi = 0; ver = (int)mc_opt("tls", 1); vname = "a.h.test"; plain_schedule = false;
    if(!strcmp(m, "cert")) run_cert();
    else if(!strcmp(m, "cut")) run_damage(M_CUT);
    else if(!strcmp(m, "flip")) run_damage(M_FLIP);
    else if(!strcmp(m, "record")) run_damage(M_REC);
    else run_sched();
}
int main(int argc, char **argv){
    static const mc_harness_t H = { .name = "c02_tls", .init = init, .run = run };
    return mc_main(argc, argv, &H);
}
