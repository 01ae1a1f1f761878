#define _GNU_SOURCE
// B01: the real encrypter and decrypter.  Messages to every number and size of
// keys around the line width, every way of cutting the input, every alteration
// of every byte, forged tags, and every message whose metadata is made of a few
// tokens, on guard-paged input.  OpenSSL's random source is replaced by a
// counter, so that every execution can be repeated.
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include "mc/mc.h"
#include "libdstr/libdstr.h"
#include "libcrypto/libcrypto.h"
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/pem.h>
#include <sys/mman.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>

static uint64_t rstate;
static int r_bytes(unsigned char *b, int n){ for(int i = 0; i < n; i++){ rstate = rstate * 6364136223846793005ull + 1442695040888963407ull; b[i] = (unsigned char)(rstate >> 56) | 0; if(!b[i]) b[i] = 1; } return 1; }
static int r_stat(void){ return 1; }
static int r_seed(const void *p, int n){ (void)p; (void)n; return 1; }
static int r_add(const void *p, int n, double d){ (void)p; (void)n; (void)d; return 1; }
static RAND_METHOD rm = { r_seed, r_bytes, NULL, r_add, r_bytes, r_stat };

// two keys of each size, used again and again (a key may be listed repeatedly)
static const int BITS[] = { 512, 1024, 2048 };
static keypair_t *K[3][2];
static keypair_t *other;

#define NP (1 << 16)
static char *pages;
static dstr_t gin(const void *p, size_t n){ char *q = pages + NP - n; memcpy(q, p, n); dstr_t d; DSTR_WRAP(d, q, n, false); return d; }

typedef struct { char *p; size_t n, cap; } sb_t;
static void add(sb_t *s, const void *p, size_t n){ if(s->n + n + 1 > s->cap){ s->cap = (s->n + n + 64) * 2; s->p = realloc(s->p, s->cap); } memcpy(s->p + s->n, p, n); s->n += n; s->p[s->n] = 0; }

static void encrypt(encrypter_t *ec, keypair_t **keys, size_t nk, const char *p, size_t n, size_t piece, sb_t *out){
    link_t list; link_init(&list);
    keypair_t *cp[128];
    for(size_t i = 0; i < nk; i++){ derr_t e = keypair_copy(keys[i], &cp[i]); if(is_error(e)) mc_error("copy"); link_list_append(&list, &cp[i]->link); }
    dstr_t o; derr_t e = dstr_new(&o, 16); if(is_error(e)) mc_error("oom");
    e = encrypter_start(ec, &list, &o);
    MC_CHECK(!is_error(e), "encrypt", "encrypter_start failed with %zu keys", nk);
    for(size_t i = 0; i < n; ){
        size_t k = n - i < piece ? n - i : piece;
        dstr_t in; in = gin(p + i, k);
        e = encrypter_update_stream(ec, &in, &o);
        MC_CHECK(!is_error(e), "encrypt", "encrypter_update failed");
        MC_CHECK(in.len == 0, "encrypt", "encrypter_update_stream left input behind");
        i += k;
    }
    e = encrypter_finish(ec, &o);
    MC_CHECK(!is_error(e), "encrypt", "encrypter_finish failed");
    while(list.next && list.next != &list){ link_t *l = link_list_pop_first(&list); keypair_t *kp = CONTAINER_OF(l, keypair_t, link); keypair_free(&kp); }
    out->n = 0; add(out, o.data, o.len);
    dstr_free(&o);
}
// returns the error type; *plain is what came out.  cut[]: ends of the pieces
static derr_type_t decrypt(decrypter_t *dc, keypair_t *k, const char *p, size_t n, const size_t *cut, int ncut, sb_t *plain, LIST(dstr_t) *recips, dstr_t *block){
    dstr_t out; derr_t e = dstr_new(&out, 1); if(is_error(e)) mc_error("oom");
    plain->n = 0;
    derr_type_t t = E_NONE;
    e = decrypter_start(dc, k, recips, block);
    if(is_error(e)) mc_error("start");
    sb_t in = {0}; size_t at = 0;
    for(int i = 0; i <= ncut; i++){
        size_t to = i < ncut ? cut[i] : n;
        if(to < at) continue;
        add(&in, p + at, to - at); at = to;
        dstr_t d = gin(in.p, in.n);
        e = decrypter_update(dc, &d, &out);
        if(is_error(e)){ t = e.type; DROP_VAR(&e); goto done; }
        MC_CHECK(d.len <= in.n, "decrypt-in", "decrypter_update grew its input");
        sb_t nx = {0}; add(&nx, d.data, d.len); free(in.p); in = nx;
    }
    e = decrypter_finish(dc, &out);
    if(is_error(e)){ t = e.type; DROP_VAR(&e); goto done; }
    add(plain, out.data, out.len);
done:
    free(in.p); dstr_free(&out);
    return t;
}
static char text[8192];
static const char *hex(const char *p, size_t n){ static char o[200]; size_t k = 0; for(size_t i = 0; i < n && k < 180; i++) k += (size_t)sprintf(o + k, (unsigned char)p[i] < 32 || (unsigned char)p[i] > 126 ? "<%02x>" : "%c", (unsigned char)p[i]); o[k] = 0; return o; }

// ------------------------------------------------------------- round trips
static void roundtrip(encrypter_t *ec, decrypter_t *dc, keypair_t **keys, size_t nk, size_t n, size_t piece, size_t dpiece){
    static sb_t msg, plain;
    encrypt(ec, keys, nk, text, n, piece, &msg);
    size_t cut[9000]; int nc = 0;
    if(dpiece) for(size_t i = dpiece; i < msg.n && nc < 9000; i += dpiece) cut[nc++] = i;
    // with the first and the last of the keys, and one which is not in the list
    for(int w = 0; w < 2; w++){
        keypair_t *k = keys[w ? nk - 1 : 0];
        derr_type_t t = decrypt(dc, k, msg.p, msg.n, cut, nc, &plain, NULL, NULL);
        MC_CHECK(t == E_NONE, "roundtrip", "a message of %zu bytes to %zu keys, encrypted %zu and decrypted %zu bytes at a time, cannot be decrypted (%s)", n, nk, piece, dpiece, error_to_dstr(t).data);
        MC_CHECK(plain.n == n && !memcmp(plain.p, text, n), "roundtrip", "a message of %zu bytes to %zu keys was decrypted to %zu bytes", n, nk, plain.n);
        if(nk == 1) break;
    }
    derr_type_t t = decrypt(dc, other, msg.p, msg.n, cut, nc, &plain, NULL, NULL);
    MC_CHECK(t == E_NOT4ME, "not4me", "another key's owner is told %s", error_to_dstr(t).data);
    mc_case(3);
}
static void run_keys(void){
    // every number of small and larger keys: every position of the message in a line
    unsigned a = mc_choose((unsigned)mc_opt("small", 25), "512 bit keys"), b = mc_choose((unsigned)mc_opt("large", 6), "1024 bit keys"), c = mc_choose(2, "2048 bit keys");
    if(a + b + c == 0){ mc_trivial(); return; }
    keypair_t *keys[64]; size_t n = 0;
    for(unsigned i = 0; i < a; i++) keys[n++] = K[0][i % 2];
    for(unsigned i = 0; i < b; i++) keys[n++] = K[1][i % 2];
    for(unsigned i = 0; i < c; i++) keys[n++] = K[2][i % 2];
    encrypter_t ec; derr_t e = encrypter_new(&ec); if(is_error(e)) mc_error("new");
    decrypter_t dc = {0}; e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    static const size_t L[] = { 0, 1, 27, 48, 100 };
    for(int i = 0; i < 5; i++) for(int d = 0; d < 3; d++) roundtrip(&ec, &dc, keys, n, L[i], 1000, d == 0 ? 0 : d == 1 ? 1 : 67);
    encrypter_free(&ec); decrypter_free(&dc);
    mc_outcome(a * 100 + b * 10 + c);
}
// every list of up to four of six keys of three sizes, in every order: each of
// its keys opens the message
static void run_order(void){
    unsigned n = 1 + mc_choose((unsigned)mc_opt("max", 4), "keys"); keypair_t *keys[8];
    unsigned sig = n;
    for(unsigned i = 0; i < n; i++){ unsigned x = mc_choose(6, "key"); sig = sig * 6 + x; keys[i] = K[x / 2][x % 2]; }
    encrypter_t ec; derr_t e = encrypter_new(&ec); if(is_error(e)) mc_error("new");
    decrypter_t dc = {0}; e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    static sb_t msg, plain;
    encrypt(&ec, keys, n, text, 100, 1000, &msg);
    for(unsigned i = 0; i < n; i++){
        derr_type_t t = decrypt(&dc, keys[i], msg.p, msg.n, NULL, 0, &plain, NULL, NULL);
        MC_CHECK(t == E_NONE, "recipient", "recipient %u of %u cannot decrypt the message (%s)", i + 1, n, error_to_dstr(t).data);
        MC_CHECK(plain.n == 100 && !memcmp(plain.p, text, 100), "recipient", "recipient %u of %u decrypts it to %zu bytes", i + 1, n, plain.n);
    }
    mc_case(n);
    encrypter_free(&ec); decrypter_free(&dc);
    mc_outcome(sig);
}
static void run_len(void){
    unsigned blk = mc_choose(40, "length block"), form = mc_choose(6, "pieces");
    static const size_t IP[] = { 1, 7, 48, 961, 962, 5000 };
    static const size_t DP[] = { 1, 2, 64, 65, 500, 0 };
    encrypter_t ec; derr_t e = encrypter_new(&ec); if(is_error(e)) mc_error("new");
    decrypter_t dc = {0}; e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    for(size_t i = 0; i < 10; i++){
        size_t n = blk < 20 ? blk * 10 + i : blk < 30 ? 900 + (blk - 20) * 10 + i : 1900 + (blk - 30) * 10 + i;
        keypair_t *keys[2] = { K[0][0], K[1][0] };
        roundtrip(&ec, &dc, keys, 1 + i % 2, n, IP[form], DP[(form + i) % 6]);
    }
    encrypter_free(&ec); decrypter_free(&dc);
}
// every two cuts of a message
static void run_cuts(void){
    unsigned part = mc_choose(64, "part");
    keypair_t *keys[2] = { K[0][0], K[0][1] };
    encrypter_t ec; derr_t e = encrypter_new(&ec); if(is_error(e)) mc_error("new");
    decrypter_t dc = {0}; e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    static sb_t msg, plain;
    encrypt(&ec, keys, 2, text, 90, 1000, &msg);
    long idx = 0; size_t st = (size_t)mc_opt("step", 3);
    for(size_t i = 0; i <= msg.n; i++) for(size_t j = i; j <= msg.n; j += st, idx++){
        if(idx % 64 != part) continue;
        size_t cut[2] = { i, j };
        derr_type_t t = decrypt(&dc, K[0][1], msg.p, msg.n, cut, 2, &plain, NULL, NULL);
        MC_CHECK(t == E_NONE && plain.n == 90 && !memcmp(plain.p, text, 90), "roundtrip", "a message cut at %zu and %zu of %zu cannot be decrypted (%s)", i, j, msg.n, error_to_dstr(t).data);
        mc_case(1);
    }
    encrypter_free(&ec); decrypter_free(&dc);
}
// ----------------------------------------------------------- alterations
static void judge(decrypter_t *dc, const sb_t *m, size_t n, const char *what, long a, long b){
    static sb_t plain;
    derr_type_t t = decrypt(dc, K[0][0], m->p, m->n, NULL, 0, &plain, NULL, NULL);
    MC_CHECK(t != E_NONE || (plain.n == n && !memcmp(plain.p, text, n)), "forged", "a message altered by %s (%ld, %ld) was decrypted to \"%s\"", what, a, b, hex(plain.p, plain.n));
    MC_CHECK(t != E_INTERNAL && t != E_NOMEM, "altered-error", "a message altered by %s (%ld, %ld) yields %s", what, a, b, error_to_dstr(t).data);
    mc_outcome(t == E_NONE ? 0 : t == E_PARAM ? 1 : t == E_SSL ? 2 : t == E_NOT4ME ? 3 : 4);
    mc_case(1);
}
static void run_alter(void){
    unsigned part = mc_choose(64, "part"), len = mc_choose(2, "length");
    size_t n = len ? 70 : 5;
    keypair_t *keys[2] = { K[0][0], K[0][1] };
    encrypter_t ec; derr_t e = encrypter_new(&ec); if(is_error(e)) mc_error("new");
    decrypter_t dc = {0}; e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    static sb_t msg, m;
    encrypt(&ec, keys, 2, text, n, 1000, &msg);
    static const char rep[] = "A\n=\0/-+ zV:\xff";
    long idx = 0;
    #define MINE (idx++ % 64 == part)
    for(size_t i = 0; i < msg.n; i++){
        for(size_t k = 0; k < 8 + sizeof(rep) - 1; k++) if(MINE){
            m.n = 0; add(&m, msg.p, msg.n);
            m.p[i] = k < 8 ? (char)(m.p[i] ^ (1 << k)) : rep[k - 8];
            judge(&dc, &m, n, "replacing a byte", (long)i, m.p[i]);
        }
        for(size_t k = 0; k < sizeof(rep) - 1; k++) if(MINE){ m.n = 0; add(&m, msg.p, i); add(&m, rep + k, 1); add(&m, msg.p + i, msg.n - i); judge(&dc, &m, n, "inserting a byte", (long)i, rep[k]); }
        if(MINE){ m.n = 0; add(&m, msg.p, i); judge(&dc, &m, n, "truncation", (long)i, 0); }
        for(size_t l = 1; l <= 70 && i + l <= msg.n; l++) if(MINE){ m.n = 0; add(&m, msg.p, i); add(&m, msg.p + i + l, msg.n - i - l); judge(&dc, &m, n, "deleting bytes", (long)i, (long)l); }
        for(size_t l = 1; l <= 66 && i + l <= msg.n; l++) if(MINE){ m.n = 0; add(&m, msg.p, i + l); add(&m, msg.p + i, msg.n - i); judge(&dc, &m, n, "repeating bytes", (long)i, (long)l); }
    }
    // lines exchanged, removed
    size_t ls[64]; int nl = 0; ls[nl++] = 0;
    for(size_t i = 0; i < msg.n; i++) if(msg.p[i] == '\n') ls[nl++] = i + 1;
    for(int a = 0; a + 1 < nl; a++) for(int b = 0; b + 1 < nl; b++) if(MINE){
        m.n = 0;
        for(int i = 0; i + 1 < nl; i++){ int w = i == a ? b : i == b ? a : i; add(&m, msg.p + ls[w], ls[w+1] - ls[w]); }
        judge(&dc, &m, n, "exchanging lines", a, b);
    }
    encrypter_free(&ec); decrypter_free(&dc);
}
// the last bytes of the ciphertext flipped, with every short tag
static void run_tag(void){
    unsigned bit = mc_choose(8, "bit"), len = mc_choose(4, "tag length");
    encrypter_t ec; derr_t e = encrypter_new(&ec); if(is_error(e)) mc_error("new");
    decrypter_t dc = {0}; e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    keypair_t *keys[1] = { K[0][0] };
    static sb_t msg, m;
    encrypt(&ec, keys, 1, text, 3, 1000, &msg);
    // the last character of the ciphertext, two lines before the end
    char *tag = memmem(msg.p, msg.n, "\n=", 2);
    char *eq = tag; while(eq[-1] == '=') eq--;
    eq[-1] ^= (char)(1 << bit);     // may become something else; all the same
    if(eq[-1] == '\n' || eq[-1] == '=') eq[-1] = 'Q';
    size_t pre = (size_t)(tag - msg.p) + 2;
    long tot = len == 0 ? 1 : len == 1 ? 256 : len == 2 ? 65536 : 256;
    for(long v = 0; v < tot; v++){
        unsigned char t[4] = { (unsigned char)v, (unsigned char)(v >> 8), 0, 0 };
        dstr_t d, o; DSTR_WRAP(d, (char*)t, len == 3 ? 1 : len, false);
        e = dstr_new(&o, 16); if(is_error(e)) mc_error("oom");
        e = bin2b64(&d, &o); if(is_error(e)) mc_error("b64");
        m.n = 0; add(&m, msg.p, pre); add(&m, o.data, o.len);
        if(len == 3) { add(&m, "\n", 1); }
        add(&m, "\n-----END SPLINTERMAIL MESSAGE-----\n", 36);
        if(len == 0 && bit == 0){ m.n = 0; add(&m, msg.p, pre); }
        dstr_free(&o);
        judge(&dc, &m, 3, "flipping a bit and a short tag", bit, v);
    }
    encrypter_free(&ec); decrypter_free(&dc);
}
// ------------------------------------------------------ hostile metadata
static void run_meta(void){
    static char R32[64]; static char FP[33];
    memcpy(FP, K[0][0]->fingerprint->data, 32);
    static struct { const char *p; size_t n; } tok[16]; int nt = 0;
    #define TK(s) do{ tok[nt].p = s; tok[nt++].n = sizeof(s) - 1; }while(0)
    TK("V:1\n"); TK("R:"); TK("32:"); tok[nt].p = FP; tok[nt++].n = 32; TK(":"); TK("1:x"); TK("\n"); TK("IV:"); TK("12:123456789012\n"); TK("M:"); TK("4294967295:"); TK("-1:"); TK("0:");
    (void)R32;
    int len = (int)mc_opt("len", 5);
    unsigned first = mc_choose((unsigned)nt, "first"), second = mc_choose((unsigned)nt, "second");
    decrypter_t dc = {0}; derr_t e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    static sb_t raw, m, plain;
    long pw = 1; for(int i = 2; i < len; i++) pw *= nt;
    for(long x = 0; x < pw; x++) for(int v = 0; v < 2; v++){
        raw.n = 0;
        // usually the version comes first
        if(v) add(&raw, "V:1\n", 4);
        add(&raw, tok[first].p, tok[first].n); add(&raw, tok[second].p, tok[second].n);
        long y = x; for(int i = 2; i < len; i++, y /= nt) add(&raw, tok[y % nt].p, tok[y % nt].n);
        m.n = 0; add(&m, "-----BEGIN SPLINTERMAIL MESSAGE-----\n", 37);
        dstr_t d, o; DSTR_WRAP(d, raw.p, raw.n, false);
        e = dstr_new(&o, 64); if(is_error(e)) mc_error("oom");
        e = bin2b64_stream(&d, &o, 64, true); if(is_error(e)) mc_error("b64");
        add(&m, o.data, o.len); dstr_free(&o);
        add(&m, "=AAAAAAAAAAAAAAAAAAAAAA==\n-----END SPLINTERMAIL MESSAGE-----\n", 61);
        derr_type_t t = decrypt(&dc, K[0][0], m.p, m.n, NULL, 0, &plain, NULL, NULL);
        MC_CHECK(t == E_PARAM || t == E_SSL || t == E_NOT4ME, "meta", "a message with the metadata \"%s\" yields %s", hex(raw.p, raw.n), error_to_dstr(t).data);
        mc_outcome(t == E_PARAM ? 1 : t == E_SSL ? 2 : 3);
        mc_case(1);
    }
    decrypter_free(&dc);
}
// long lines, and numbers which promise more than the buffers hold
static void run_long(void){
    unsigned kind = mc_choose(4, "kind"), step = mc_choose(120, "size");
    decrypter_t dc = {0}; derr_t e = decrypter_new(&dc); if(is_error(e)) mc_error("new");
    static sb_t raw, m, plain; char b[100];
    for(unsigned k = 0; k < 40; k++){
        size_t n = step * 40 + k;
        raw.n = 0; add(&raw, "V:1\n", 4);
        if(kind == 0){ add(&raw, b, (size_t)sprintf(b, "R:%zu:", n)); }
        else if(kind == 1){ add(&raw, "R:32:", 5); add(&raw, K[0][0]->fingerprint->data, 32); add(&raw, b, (size_t)sprintf(b, ":%zu:", n)); }
        else if(kind == 2){ add(&raw, b, (size_t)sprintf(b, "IV:%zu:", n)); }
        for(size_t i = 0; i < n; i++) add(&raw, "y", 1);
        add(&raw, kind ? "\nM:" : ":1:x\nM:", kind ? 3 : 8);
        m.n = 0; add(&m, "-----BEGIN SPLINTERMAIL MESSAGE-----\n", 37);
        dstr_t d, o; DSTR_WRAP(d, raw.p, raw.n, false);
        e = dstr_new(&o, 64); if(is_error(e)) mc_error("oom");
        e = bin2b64_stream(&d, &o, k % 3 == 0 ? 64 : k % 3 == 1 ? 2000 : 8000, true); if(is_error(e)) mc_error("b64");
        add(&m, o.data, o.len); dstr_free(&o);
        add(&m, "=AAAAAAAAAAAAAAAAAAAAAA==\n-----END SPLINTERMAIL MESSAGE-----\n", 61);
        if(m.n > NP) mc_error("long");
        for(int cutd = 0; cutd < 2; cutd++){
            size_t cut[1] = { m.n / 2 };
            derr_type_t t = decrypt(&dc, K[0][0], m.p, m.n, cut, cutd, &plain, NULL, NULL);
            MC_CHECK(t == E_PARAM || t == E_SSL || t == E_NOT4ME, "long", "a message with a line or field of %zu bytes yields %s", n, error_to_dstr(t).data);
            mc_case(1);
        }
    }
    decrypter_free(&dc);
}

static keypair_t *mkkey(int bits){
    EVP_PKEY *k = NULL; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, NULL);
    if(EVP_PKEY_keygen_init(c) != 1 || EVP_PKEY_CTX_set_rsa_keygen_bits(c, bits) != 1 || EVP_PKEY_keygen(c, &k) != 1) mc_error("keygen");
    EVP_PKEY_CTX_free(c);
    BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL);
    char *p; long n = BIO_get_mem_data(b, &p);
    dstr_t d; DSTR_WRAP(d, p, (size_t)n, false);
    keypair_t *kp; derr_t e = keypair_from_private_pem(&kp, d); if(is_error(e)) mc_error("key");
    BIO_free(b); EVP_PKEY_free(k);
    return kp;
}
static void init(void){
    pages = mmap(NULL, NP + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(pages + NP, 4096, PROT_NONE);
    derr_t e = crypto_library_init(); if(is_error(e)) mc_error("init");
    RAND_set_rand_method(&rm);
    for(size_t i = 0; i < sizeof(text); i++) text[i] = (char)(i * 7 + i / 256);
    rstate = 12345;
    for(int i = 0; i < 3; i++) for(int j = 0; j < 2; j++) K[i][j] = mkkey(BITS[i]);
    other = mkkey(1024);
}
static void run(void){
    static const struct { const char *n; void (*f)(void); } m[] = { {"keys", run_keys}, {"order", run_order}, {"len", run_len}, {"cuts", run_cuts}, {"alter", run_alter}, {"tag", run_tag}, {"meta", run_meta}, {"long", run_long} };
    const char *s = mc_opts("mode", "keys");
    rstate = 4711;
    for(size_t i = 0; i < sizeof(m) / sizeof(*m); i++) if(!strcmp(m[i].n, s)){ m[i].f(); return; }
    mc_error("mode");
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "b01_crypto", .run = run, .init = init, .exec_timeout = 120 };
    return mc_main(argc, argv, &h);
}
