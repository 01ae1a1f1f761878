// G04: text building never overflows, truncates silently or loses data.
// Every function is compared with a naive reference for all small inputs and
// all buffer sizes; fixed-size buffers end at a guard page.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libdstr/libdstr.h"
#include "libweb/libweb.h"
#include "mc/mc.h"

typedef struct { char *p; size_t n, cap; } sb_t;
static void add(sb_t *b, const void *p, size_t n){
    if(b->n + n + 1 > b->cap){ b->cap = (b->n + n + 64) * 2; b->p = realloc(b->p, b->cap); }
    if(n) memcpy(b->p + b->n, p, n);
    b->n += n; b->p[b->n] = 0;
}
static void addc(sb_t *b, char c){ add(b, &c, 1); }
static void adds(sb_t *b, const char *s){ add(b, s, strlen(s)); }
static const char *show(const char *p, size_t n){
    static sb_t s[4]; static int k;
    sb_t *b = &s[k++ % 4];
    b->n = 0; add(b, "", 0);
    for(size_t i = 0; i < n && i < 200; i++){
        unsigned char u = (unsigned char)p[i]; char h[8];
        if(u < 32 || u > 126){ sprintf(h, "\\x%02x", u); adds(b, h); } else addc(b, p[i]);
    }
    return b->p;
}
#define SH(d) show((d).data, (d).len)

// a fixed-size buffer which ends at a guard page, with a canary before it
static char *pages; enum { NPAGES = 65536 };
static char *guard(size_t n){
    char *p = pages + NPAGES - n;
    memset(p, '~', n); if(n < NPAGES) p[-1] = 0x5a;
    return p;
}
static dstr_t gin(const char *p, size_t n){   // an input at the guard page
    char *q = guard(n); if(n) memcpy(q, p, n);
    return (dstr_t){ .data = q, .len = n, .size = n, .fixed_size = true };
}
// a second guarded buffer, for the output
static char *opages;
static dstr_t gout(size_t size){
    char *p = opages + NPAGES - size;
    memset(p, '~', size); p[-1] = 0x5a;
    return (dstr_t){ .data = p, .len = 0, .size = size, .fixed_size = true };
}
static void gcheck(const dstr_t *d, const char *what){
    MC_CHECK(d->data[-1] == 0x5a, "underrun", "%s wrote in front of the buffer", what);
    MC_CHECK(d->len <= d->size, "overrun", "%s: length %zu exceeds the buffer of %zu", what, d->len, d->size);
}
static bool same(const dstr_t *d, const char *p, size_t n){ return d->len == n && (!n || !memcmp(d->data, p, n)); }

// enumerate all strings over an alphabet: idx -> string, lengths 0..max
static uint64_t nstr(unsigned a, unsigned max){ uint64_t t = 0, k = 1; for(unsigned l = 0; l <= max; l++, k *= a) t += k; return t; }
static size_t mkstr(uint64_t idx, const char *const *al, unsigned na, const size_t *lens, char *out){
    uint64_t k = 1; unsigned l = 0;
    while(idx >= k){ idx -= k; k *= na; l++; }
    size_t n = 0;
    for(unsigned i = 0; i < l; i++){
        unsigned c = (unsigned)(idx % na); idx /= na;
        size_t m = lens ? lens[c] : strlen(al[c]);
        memcpy(out + n, al[c], m); n += m;
    }
    return n;
}
static size_t mkchr(uint64_t idx, const char *al, unsigned na, char *out){
    uint64_t k = 1; unsigned l = 0;
    while(idx >= k){ idx -= k; k *= na; l++; }
    for(unsigned i = 0; i < l; i++){ out[i] = al[idx % na]; idx /= na; }
    return l;
}
// the cases of a loop are spread over executions
enum { SLICES = 64 };
static unsigned slice(void){ return mc_choose(SLICES, "slice"); }
#define EACH(i, total) for(uint64_t i = slice(), i##_n = (total); i < i##_n; i += SLICES)

// ------------------------------------------------- freed secrets (wrapped)
static bool watch_free; static unsigned char secret = 0xA7;
void *__real_realloc(void*, size_t); void __real_free(void*);
#include <malloc.h>
static void freed(void *p){
    if(!watch_free || !p) return;
    size_t n = malloc_usable_size(p);
    for(size_t i = 0; i + 2 <= n; i++)
        MC_CHECK(((unsigned char*)p)[i] != secret || ((unsigned char*)p)[i+1] != secret, "secret", "memory holding secret text was released without erasing it");
}
void __wrap_free(void *p){ freed(p); __real_free(p); }
void *__wrap_realloc(void *p, size_t n){ freed(p); return __real_realloc(p, n); }

// ---------------------------------------------------------------------- fmt
typedef enum { A_INT, A_UINT, A_STR, A_NIL, A_STRN, A_DSTR, A_CHAR, A_BOOL, A_HEX, A_DBG, A_NUL, A_B64, A_FLT, A_N } ak_e;
static const fmt_i *mkarg(unsigned k){
    static _fmt_int_t fi, fmin; static _fmt_uint_t fu; static _fmt_cstr_t fs, fn; static _fmt_cstrn_t fsn;
    static _fmt_dstr_t fd, fx, fg, fz; static _fmt_char_t fc; static fmt_i fb; static _fmt_b64d_t f64; static _fmt_float_t ff;
    fi = (_fmt_int_t){ {_fmt_int}, INTMAX_MIN }; (void)fmin; fu = (_fmt_uint_t){ {_fmt_uint}, UINTMAX_MAX };
    fs = (_fmt_cstr_t){ {_fmt_cstr}, "s%x" }; fn = (_fmt_cstr_t){ {_fmt_cstr}, NULL }; fsn = (_fmt_cstrn_t){ {_fmt_cstrn}, "pqrs", 2 };
    static char ds[] = "d\0e\xff\"", hx[] = "\x0f\xf0";
    fd = (_fmt_dstr_t){ {_fmt_dstr}, {.data=ds,.len=5,.size=5,.fixed_size=true} };
    fg = (_fmt_dstr_t){ {_fmt_dstr_dbg}, fd.d };
    fx = (_fmt_dstr_t){ {_fmt_dstr_hex}, {.data=hx,.len=2,.size=2,.fixed_size=true} };
    fz = (_fmt_dstr_t){ {_fmt_dstr}, {0} };
    fc = (_fmt_char_t){ {_fmt_char}, 'c' }; fb = (fmt_i){ _fmt_false };
    f64 = (_fmt_b64d_t){ {_fmt_b64d}, fd.d }; ff = (_fmt_float_t){ {_fmt_float}, 1e56L };
    switch(k){
        case A_INT: return &fi.iface; case A_UINT: return &fu.iface; case A_STR: return &fs.iface; case A_NIL: return &fn.iface;
        case A_STRN: return &fsn.iface; case A_DSTR: return &fd.iface; case A_CHAR: return &fc.iface; case A_BOOL: return &fb;
        case A_HEX: return &fx.iface; case A_DBG: return &fg.iface; case A_NUL: return &fz.iface; case A_B64: return &f64.iface; default: return &ff.iface;
    }
}
static void argtext(sb_t *b, unsigned k){
    switch(k){
        case A_INT: adds(b, "-9223372036854775808"); break; case A_UINT: adds(b, "18446744073709551615"); break;
        case A_STR: adds(b, "s%x"); break; case A_NIL: adds(b, "(nil)"); break; case A_STRN: adds(b, "pq"); break;
        case A_DSTR: add(b, "d\0e\xff\"", 5); break; case A_CHAR: addc(b, 'c'); break; case A_BOOL: adds(b, "false"); break;
        case A_HEX: adds(b, "0ff0"); break; case A_DBG: adds(b, "d\\0e\\xff\\\""); break; case A_NUL: break;
        case A_B64: adds(b, "ZABl/yI="); break;
        default: { char t[100]; sprintf(t, "%Lf", 1e56L); adds(b, t); }
    }
}
static void run_fmt(void){
    static const char *tok[] = { "a", "%x", "%%", "%y", "%" };
    unsigned len = (unsigned)mc_opt("len", 3), na = mc_choose(3, "nargs"), ka[2] = {0};
    for(unsigned i = 0; i < na; i++) ka[i] = mc_choose(A_N, "arg");
    for(uint64_t f = 0; f < nstr(5, len); f++){
        char fs[32]; size_t fl = mkstr(f, tok, 5, NULL, fs); fs[fl] = 0;
        sb_t want = {0}; add(&want, "", 0);
        unsigned ai = 0;
        for(const char *c = fs; *c; c++){
            if(*c != '%' || !c[1]){ addc(&want, *c); continue; }
            c++;
            if(*c == '%') addc(&want, '%');
            else if(*c == 'x'){ if(ai < na) argtext(&want, ka[ai++]); }
            else { addc(&want, '%'); addc(&want, *c); }
        }
        while(ai < na){ addc(&want, ' '); argtext(&want, ka[ai++]); }
        const fmt_i *args[2]; for(unsigned i = 0; i < na; i++) args[i] = mkarg(ka[i]);
        bool pre = f & 1;    // append behind existing text
        for(size_t size = pre; size <= want.n + 3; size++){
            dstr_t d = gout(size);
            if(pre) d.data[d.len++] = '^';
            derr_type_t et = _fmt_quiet(WD(&d), fs, args, na);
            gcheck(&d, "fmt");
            size_t full = want.n + pre;
            if(et == E_NONE){
                MC_CHECK(d.len == full && d.len < d.size && d.data[d.len] == 0 && !memcmp(d.data + pre, want.p, want.n) && (!pre || *d.data == '^'),
                    "content", "format \"%s\" into %zu bytes: \"%s\" instead of \"%s\"", fs, size, SH(d), show(want.p, want.n));
            }else{
                MC_CHECK(size <= full || ka[0] == A_FLT || ka[1] == A_FLT, "refused", "format \"%s\" fails although %zu bytes suffice", fs, size);
                MC_CHECK(d.len >= pre && d.len <= full && !memcmp(d.data + pre, want.p, d.len - pre), "prefix", "format \"%s\" into %zu bytes left \"%s\"", fs, size, SH(d));
            }
            mc_case(1);
        }
        for(size_t size = 0; size < 4; size++){
            dstr_t d = {0};
            if(size) DROP_CMD( dstr_new(&d, size) );
            derr_type_t et = _fmt_quiet(WD(&d), fs, args, na);
            bool flt = (na > 0 && ka[0] == A_FLT) || (na > 1 && ka[1] == A_FLT);
            MC_CHECK(flt || (et == E_NONE && same(&d, want.p, want.n) && d.data[d.len] == 0), "grow", "format \"%s\" into a growable buffer: \"%s\"", fs, SH(d));
            MC_CHECK(et != E_NONE || same(&d, want.p, want.n), "content", "format \"%s\" into a growable buffer: \"%s\" instead of \"%s\"", fs, SH(d), show(want.p, want.n));
            dstr_free(&d);
        }
        free(want.p);
    }
}

// ------------------------------------------------------------- writer faults
typedef struct { writer_i iface; int locks, unlocks, budget, calls, after; bool failed; sb_t got; } wm_t;
DEF_CONTAINER_OF(wm_t, iface, writer_i)
static derr_type_t wm_step(wm_t *w){
    MC_CHECK(w->locks > w->unlocks, "lock", "text is written without holding the lock");
    w->calls++;
    if(w->budget-- <= 0){ w->failed = true; return E_OS; }
    return E_NONE;
}
static derr_type_t wm_puts(writer_i *i, const char *s, size_t n){ wm_t *w = CONTAINER_OF(i, wm_t, iface); derr_type_t t = wm_step(w); if(!t) add(&w->got, s, n); return t; }
static derr_type_t wm_putc(writer_i *i, char c){ wm_t *w = CONTAINER_OF(i, wm_t, iface); derr_type_t t = wm_step(w); if(!t) addc(&w->got, c); return t; }
static derr_type_t wm_lock(writer_i *i){ CONTAINER_OF(i, wm_t, iface)->locks++; return E_NONE; }
static derr_type_t wm_unlock(writer_i *i){ wm_t *w = CONTAINER_OF(i, wm_t, iface); w->unlocks++; MC_CHECK(w->unlocks <= w->locks, "lock", "released a lock that was not held"); return E_NONE; }
static writer_t wm_vt = { .puts = wm_puts, .putc = wm_putc, .lock = wm_lock, .unlock = wm_unlock };
static derr_type_t wf_case(unsigned k, writer_i *out, char *badutf){
    dstr_t bad = dstr_from_cstr(badutf);
    switch(k){
        case 0: return WFMT_QUIET(out, "a%xb%x", FI(12), FD(DSTR_LIT("xyz")));
        case 1: return WFMT_QUIET(WB64(out), "%x", FS("abcd"));
        case 2: return WFMT_QUIET(WB64(out), "%x", FS("abcde"));
        case 3: return WFMT_QUIET(out, "%x", FB64F("%x-%x", FS("ab"), FU(7)));
        case 4: return jdump_quiet(DOBJ(DKEY("k", DARR(DI(1), DB(true), DNULL)), DKEY("f", DFMT("a%xb", FS("\"")))), out, 2);
        case 5: return jdump_quiet(DOBJ(DKEY("k", DFMT("%x", FD(bad)))), out, 0);
        case 6: return jdump_quiet(DD(bad), out, 0);
        case 7: return WFMT_QUIET(out, "%x|%x", FSB(sb_append(&SBS("a"), SBI(5))), FX(DSTR_LIT("az")));
        default: return WFMT_QUIET(out, "%x %x %x", FC('x'), FB(true), FENAME(E_OS));
    }
}
static void run_fault(void){
    static char *bads[] = { "ok", "\xc3", "x\xff", "\xed\xa0\x80" };
    unsigned k = mc_choose(9, "case"), b = k == 5 || k == 6 ? mc_choose(4, "bytes") : 0;
    wm_t ref = { .iface = {&wm_vt}, .budget = 1000000 };
    derr_type_t et = wf_case(k, &ref.iface, bads[b]);
    MC_CHECK((et == E_NONE) == (b == 0), "invalid", "case %u with bytes %u: %s", k, b, et ? "error" : "success");
    MC_CHECK(ref.locks == ref.unlocks, "lock", "case %u/%u: the writer stays locked (%d/%d)", k, b, ref.locks, ref.unlocks);
    for(int n = 0; n < ref.calls; n++){
        wm_t w = { .iface = {&wm_vt}, .budget = n };
        et = wf_case(k, &w.iface, bads[b]);
        MC_CHECK(!w.failed || et, "silent", "case %u: the failure of write number %d is not reported", k, n);
        MC_CHECK(w.locks == w.unlocks, "lock", "case %u: after write number %d failed the writer stays locked", k, n);
        MC_CHECK(w.got.n <= ref.got.n && !memcmp(w.got.p, ref.got.p, w.got.n), "prefix", "case %u: after a failed write the output is \"%s\"", k, show(w.got.p, w.got.n));
        free(w.got.p);
        mc_case(1);
    }
    free(ref.got.p);
}

// ------------------------------------------------------------------- append
static void run_append(void){
    unsigned depth = (unsigned)mc_opt("depth", 5), fixed = mc_choose(2, "fixed"), size = mc_choose(6, "size");
    bool zero = mc_choose(2, "erasing");
    dstr_t d = {0};
    if(fixed) d = gout(size);
    else if(size) DROP_CMD( dstr_new(&d, size) );
    sb_t want = {0}; add(&want, "", 0);
    static char S[4]; memset(S, (int)secret, sizeof(S));
    for(unsigned i = 0; i < depth; i++){
        unsigned op = mc_choose(zero ? 4 : 10, "op");
        size_t n = 0; derr_type_t et = E_NONE; size_t need = 0; sb_t w = {0}; add(&w, want.p, want.n);
        if(zero){
            n = op; watch_free = true;
            dstr_t t = { .data = S, .len = n, .size = n, .fixed_size = true };
            if(i & 1) et = dstr_append0_quiet(&d, &t);
            else if(n == 3){ derr_t e = dstr_grow0(&d, want.n + 3); et = e.type; DROP_VAR(&e); if(!et) et = dstr_append_quiet(&d, &t); }
            else { derr_t e = dstr_append0(&d, &t); et = e.type; DROP_VAR(&e); }
            watch_free = false;
            add(&w, S, n); need = w.n;
        }else switch(op){
            case 0: et = dstr_append_quiet(&d, &DSTR_LIT("xyz")); adds(&w, "xyz"); need = w.n; break;
            case 1: et = dstr_append_char(&d, 'c'); addc(&w, 'c'); need = w.n; break;
            case 2: et = dstr_append_char_n(&d, 'n', 2); adds(&w, "nn"); need = w.n; break;
            case 3: dstr_leftshift(&d, 2); n = w.n < 2 ? w.n : 2; memmove(w.p, w.p + n, w.n - n); w.n -= n; break;
            case 4: et = dstr_null_terminate_quiet(&d); need = w.n + 1; break;
            case 5: { derr_t e = dstr_copystr("CpYq", &d); et = e.type; DROP_VAR(&e); w.n = 0; adds(&w, "CpYq"); need = 4; break; }
            case 6: dstr_upper(&d); for(size_t k = 0; k < w.n; k++) if(w.p[k] >= 'a' && w.p[k] <= 'z') w.p[k] = (char)(w.p[k] - 32); break;
            case 7: et = dstr_grow_quiet(&d, w.n + 4); need = w.n + 4; break;
            case 8: et = dstr_append_quiet(&d, &DSTR_LIT("")); break;
            case 9: dstr_leftshift(&d, 1); n = w.n ? 1 : 0; memmove(w.p, w.p + n, w.n - n); w.n -= n; break;
        }
        if(et == E_NONE){ free(want.p); want = w; } else free(w.p);
        MC_CHECK(et == E_NONE || (fixed && need > size), "refused", "operation %u fails although there is room", op);
        MC_CHECK(d.size >= d.len && (et || d.size >= need), "size", "the buffer claims %zu bytes for a text of %zu", d.size, d.len);
        if(fixed) gcheck(&d, "append");
        MC_CHECK(same(&d, want.p, want.n), "content", "operation %u: \"%s\" instead of \"%s\"", op, SH(d), show(want.p, want.n));
        if(et == E_NONE && !zero && op == 4) MC_CHECK(d.data[d.len] == 0, "terminator", "not terminated");
        mc_case(1);
    }
    mc_outcome(mc_hash(d.size, want.p, want.n));
    if(!fixed){ watch_free = zero; if(zero) dstr_free0(&d); else dstr_free(&d); watch_free = false; }
    free(want.p);
}

// ---------------------------------------------------------- searching, cutting
static size_t ref_find(const char *p, size_t n, const dstr_t *pat, size_t np, size_t *which, size_t *partial){
    *partial = 0; *which = 0;
    for(size_t i = 0; i < n; i++) for(size_t k = 0; k < np; k++)
        if(n - i >= pat[k].len && !memcmp(p + i, pat[k].data, pat[k].len)){ *which = k; return i; }
    for(size_t k = 0; k < np; k++) for(size_t l = pat[k].len - 1; l > 0; l--)
        if(l <= n && !memcmp(p + n - l, pat[k].data, l)){ if(l > *partial) *partial = l; break; }
    return SIZE_MAX;
}
static void run_find(void){
    unsigned len = (unsigned)mc_opt("len", 7);
    static const char *pats[] = { "a", "ab", "aab", "ba", "b", "abab", "aba" };
    unsigned pi = mc_choose(7, "p"), qi = mc_choose(7, "q");
    dstr_t pat[2] = { dstr_from_cstr((char*)pats[pi]), dstr_from_cstr((char*)pats[qi]) };
    LIST(dstr_t) pl = { pat, pi == qi ? 1 : 2, 2, true };
    static char ra[] = "<1>", rb[] = "";
    dstr_t rep[2] = { dstr_from_cstr(ra), dstr_from_cstr(rb) };
    LIST(dstr_t) rl = { rep, pl.len, 2, true };
    // recoding is only defined when no search string is part of another
    bool sub = pl.len == 2 && (strstr(pats[pi], pats[qi]) || strstr(pats[qi], pats[pi]));
    EACH(x, nstr(3, len)){
        char t[16]; size_t n = mkchr(x, "abc", 3, t);
        dstr_t in = gin(t, n);
        size_t which = 9, partial = 9, rw, rp, at = ref_find(t, n, pat, pl.len, &rw, &rp);
        char *q = dstr_find(&in, &pl, &which, &partial);
        MC_CHECK((q ? (size_t)(q - in.data) : SIZE_MAX) == at && which == rw && partial == rp, "find", "finding \"%s\",\"%s\" in \"%s\"", pats[pi], pats[qi], SH(in));
        size_t cnt = 0; for(size_t i = 0; i + pat[0].len <= n;) if(!memcmp(t + i, pat[0].data, pat[0].len)){ cnt++; i += pat[0].len; } else i++;
        dstr_t up = { .data = (char[8]){0}, .size = 8, .fixed_size = true }; dstr_append_quiet(&up, &pat[0]); dstr_upper(&up);
        MC_CHECK(dstr_count2(in, pat[0]) == cnt && dstr_icount2(in, up) == cnt && dstr_contains(in, pat[0]) == (cnt > 0)
            && dstr_icontains(in, up) == (cnt > 0) && !dstr_contains(in, up), "count", "counting \"%s\" in \"%s\"", pats[pi], SH(in));
        bool bw = n >= pat[0].len && !memcmp(t, pat[0].data, pat[0].len), ew = n >= pat[0].len && !memcmp(t + n - pat[0].len, pat[0].data, pat[0].len);
        MC_CHECK(dstr_beginswith2(in, pat[0]) == bw && dstr_endswith2(in, pat[0]) == ew && dstr_ibeginswith2(in, up) == bw && dstr_iendswith2(in, up) == ew
            && !dstr_beginswith2(in, up) && !dstr_endswith2(in, up), "ends", "\"%s\" at the ends of \"%s\"", pats[pi], SH(in));
        // splitting
        size_t ws[20], we[20], nw = 0, st = 0;
        for(size_t i = 0; i + pat[0].len <= n;) if(!memcmp(t + i, pat[0].data, pat[0].len)){ ws[nw] = st; we[nw++] = i; i += pat[0].len; st = i; } else i++;
        ws[nw] = st; we[nw++] = n;
        for(size_t max = 1; max <= 4; max++) for(int how = 0; how < 4; how++){
            dstr_t o[4] = {0}; size_t got = 99; derr_t e = E_OK; bool soft = how & 1;
            if(how < 2){
                dstr_t *op[4] = { &o[0], &o[1], &o[2], &o[3] };
                if(soft) _dstr_split2_soft(in, pat[0], &got, op, max); else e = _dstr_split2(in, pat[0], &got, op, max);
            }else{
                LIST(dstr_t) ol = { o, max * sizeof(dstr_t), 0, true };
                e = soft ? dstr_split_soft(&in, &pat[0], &ol) : dstr_split(&in, &pat[0], &ol);
                got = ol.len;
            }
            bool fits = nw <= max;
            MC_CHECK((e.type == E_NONE) == (fits || soft), "split", "splitting \"%s\" by \"%s\" into %zu: %s", SH(in), pats[pi], max, e.type ? "fails" : "no error");
            if(!e.type){
                size_t k = fits ? nw : max;
                MC_CHECK(got == k, "split", "splitting \"%s\" by \"%s\" into %zu gives %zu", SH(in), pats[pi], max, got);
                for(size_t i = 0; i < k; i++){
                    size_t end = i + 1 == k ? n : we[i];
                    MC_CHECK(same(&o[i], t + ws[i], end - ws[i]), "split", "splitting \"%s\" by \"%s\": word %zu is \"%s\"", SH(in), pats[pi], i, SH(o[i]));
                }
            }
            DROP_VAR(&e);
        }
        // replacing, in one go and in a stream cut anywhere, with and without a stop
        if(!sub) for(unsigned stop = 0; stop <= pl.len; stop++){
            sb_t want = {0}; add(&want, "", 0);
            size_t i = 0; bool stopped = false;
            while(i < n && !stopped){
                size_t k; for(k = 0; k < pl.len; k++) if(n - i >= pat[k].len && !memcmp(t + i, pat[k].data, pat[k].len)) break;
                if(k < pl.len){ add(&want, rep[k].data, rep[k].len); i += pat[k].len; stopped = stop && k == stop - 1; } else addc(&want, t[i++]);
            }
            if(!stop){
                dstr_t d = {0};
                derr_t e = dstr_recode(&in, &d, &pl, &rl, true);
                MC_CHECK(!e.type && same(&d, want.p, want.n), "recode", "replacing in \"%s\": \"%s\"", SH(in), SH(d));
                dstr_free(&d);
                for(size_t size = 0; size <= want.n; size++){
                    d = gout(size);
                    e = dstr_recode(&in, &d, &pl, &rl, false);
                    gcheck(&d, "recode");
                    MC_CHECK((e.type == E_NONE) == (size == want.n), "recode", "replacing into %zu bytes instead of %zu", size, want.n);
                    DROP_VAR(&e);
                }
            }
            for(size_t cut = 0; cut <= n; cut++){
                char buf[32]; dstr_t b = { .data = buf, .size = 32, .fixed_size = true }, d = {0};
                bool found = false; derr_t e = E_OK;
                for(int part = 0; part < 2; part++){
                    dstr_t piece = { .data = t + (part ? cut : 0), .len = part ? n - cut : cut };
                    dstr_append_quiet(&b, &piece);
                    if(!found) e = dstr_recode_stream(&b, &d, &pl, &rl, part, stop ? stop - 1 : 0, stop ? &found : NULL);
                    MC_CHECK(!e.type, "recode", "unexpected error");
                }
                MC_CHECK(same(&d, want.p, want.n) && (!stop || found == stopped) && same(&b, t + i, n - i), "stream", "replacing in \"%s\" cut at %zu: \"%s\" rest \"%s\"", SH(in), cut, SH(d), SH(b));
                dstr_free(&d);
                mc_case(1);
            }
            free(want.p);
        }
        // stripping and cutting out
        size_t l = 0, r = n;
        while(r > 0 && t[r-1] != 'b') r--;
        dstr_t s1 = dstr_rstrip_chars(in, 'a', 'c');
        while(l < n && t[l] != 'b') l++;
        dstr_t s2 = dstr_lstrip_chars(in, 'a', 'c'), s3 = dstr_strip_chars(in, 'a', 'c');
        MC_CHECK(same(&s1, t, r) && same(&s2, t + l, n - l) && same(&s3, t + (l < r ? l : 0), l < r ? r - l : 0), "strip", "stripping \"%s\"", SH(in));
        for(size_t a = 0; a <= n + 1; a++) for(size_t b = 0; b <= n + 1; b++){
            size_t x0 = a < n ? a : n, x1 = b < n ? b : n; if(x1 < x0) x1 = x0;
            dstr_t s = dstr_sub2(in, a, b);
            MC_CHECK(same(&s, t + x0, x1 - x0) && s.data >= in.data && s.data + s.len <= in.data + n, "sub", "bytes %zu to %zu of \"%s\": \"%s\"", a, b, SH(in), SH(s));
            if(b == 0){ x1 = n; if(x1 < x0) x1 = x0; }
            s = dstr_sub(&in, a, b);
            MC_CHECK(same(&s, t + x0, x1 - x0), "sub", "bytes %zu to %zu of \"%s\": \"%s\"", a, b, SH(in), SH(s));
        }
    }
}
static int sgn(int i){ return (i > 0) - (i < 0); }
static void run_cmp(void){
    static const char al[] = { 0, 'a', 'B', (char)0xff }; unsigned len = (unsigned)mc_opt("len", 2);
    uint64_t N = nstr(4, len) + 1;     // the last one is a text without memory
    EACH(x, N * N){
        char t[2][8]; dstr_t d[3]; uint64_t id[3] = { x / N, x % N, 0 };
        for(int i = 0; i < 2; i++) d[i] = id[i] == N - 1 ? (dstr_t){0} : (dstr_t){ .data = t[i], .len = mkchr(id[i], al, 4, t[i]) };
        bool eq = d[0].len == d[1].len && (!d[0].len || !memcmp(d[0].data, d[1].data, d[0].len));
        int c = dstr_cmp2(d[0], d[1]), r = dstr_cmp2(d[1], d[0]);
        MC_CHECK((c == 0) == eq && dstr_eq(d[0], d[1]) == eq && (dstr_cmp(&d[0], &d[1]) == 0) == eq, "equal", "\"%s\" and \"%s\" compare %d", SH(d[0]), SH(d[1]), c);
        MC_CHECK(sgn(c) == -sgn(r), "order", "\"%s\" and \"%s\" compare %d, the other way round %d", SH(d[0]), SH(d[1]), c, r);
        dstr_t lo[2]; char lt[2][8];
        for(int i = 0; i < 2; i++){ lo[i] = d[i]; if(d[i].data){ memcpy(lt[i], t[i], 8); lo[i].data = lt[i]; dstr_lower(&lo[i]); } }
        bool ieq = dstr_eq(lo[0], lo[1]); int ic = dstr_icmp2(d[0], d[1]);
        MC_CHECK((ic == 0) == ieq && dstr_ieq(d[0], d[1]) == ieq && sgn(ic) == -sgn(dstr_icmp2(d[1], d[0])), "equal", "\"%s\" and \"%s\" compare %d ignoring case", SH(d[0]), SH(d[1]), ic);
        char lx[8]; LIST(dstr_t) l = { d, 1, 1, true }; size_t at; (void)lx;
        MC_CHECK(in_list(&d[1], &l, &at) == eq, "equal", "\"%s\" is looked up in a list of \"%s\"", SH(d[1]), SH(d[0]));
        for(uint64_t z = 0; z < N; z++){
            char t3[8]; dstr_t e = z == N - 1 ? (dstr_t){0} : (dstr_t){ .data = t3, .len = mkchr(z, al, 4, t3) };
            if(c <= 0 && dstr_cmp2(d[1], e) <= 0) MC_CHECK(dstr_cmp2(d[0], e) <= 0, "order", "no order among \"%s\", \"%s\", \"%s\"", SH(d[0]), SH(d[1]), SH(e));
            if(ic <= 0 && dstr_icmp2(d[1], e) <= 0) MC_CHECK(dstr_icmp2(d[0], e) <= 0, "order", "no order among \"%s\", \"%s\", \"%s\" ignoring case", SH(d[0]), SH(d[1]), SH(e));
            mc_case(1);
        }
    }
}
static void run_list(void){
    // words collected into a list with their own memory
    unsigned depth = (unsigned)mc_opt("depth", 5), start = mc_choose(3, "memory"); bool fixed = mc_choose(2, "fixed");
    dstr_t mem = {0}; dstr_t slots[3]; LIST(dstr_t) list = {0};
    if(fixed){ mem = gout(start * 4); list = (LIST(dstr_t)){ slots, sizeof(slots), 0, true }; }
    else if(start) DROP_CMD( dstr_new(&mem, start * 2) );
    static const char *w[] = { "", "x", "abc", "lmnopq" };
    int want[8], n = 0;
    for(unsigned i = 0; i < depth; i++){
        unsigned k = mc_choose(4, "word"), nt = mc_choose(2, "terminate");
        derr_t e = list_append_with_mem(&list, &mem, dstr_from_cstr((char*)w[k]), nt);
        MC_CHECK(fixed || !e.type, "refused", "a growable list refuses a word");
        if(!e.type) want[n++] = (int)(k * 2 + nt);
        DROP_VAR(&e);
        MC_CHECK((int)list.len == n, "list", "%zu words instead of %d", list.len, n);
        for(int j = 0; j < n; j++){
            MC_CHECK(same(&list.data[j], w[want[j] / 2], strlen(w[want[j] / 2])), "list", "word %d is \"%s\" instead of \"%s\"", j, SH(list.data[j]), w[want[j] / 2]);
            if(want[j] % 2) MC_CHECK(list.data[j].data[list.data[j].len] == 0, "list", "word %d is not terminated", j);
        }
        if(fixed && start) gcheck(&mem, "list");
        mc_case(1);
    }
    if(!fixed){ dstr_free(&mem); LIST_FREE(dstr_t, &list); }
}

// ------------------------------------------------------------------- base64
static const char LUT[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void ref_b64(const char *p, size_t n, sb_t *out){
    const unsigned char *u = (const unsigned char*)p;
    for(size_t i = 0; i < n; i += 3){
        unsigned v = (unsigned)u[i] << 16 | (i + 1 < n ? (unsigned)u[i+1] << 8 : 0) | (i + 2 < n ? u[i+2] : 0);
        addc(out, LUT[v >> 18]); addc(out, LUT[v >> 12 & 63]);
        addc(out, i + 1 < n ? LUT[v >> 6 & 63] : '='); addc(out, i + 2 < n ? LUT[v & 63] : '=');
    }
}
static void b64_one(const char *p, size_t n){
    sb_t want = {0}; add(&want, "", 0); ref_b64(p, n, &want);
    dstr_t in = gin(p, n);
    for(size_t size = 0; size <= want.n; size++){
        dstr_t d = gout(size); derr_t e = bin2b64(&in, &d); gcheck(&d, "base64");
        MC_CHECK((e.type == E_NONE) == (size == want.n) && (e.type || same(&d, want.p, want.n)), "encode", "\"%s\" in base64, %zu bytes: \"%s\"", SH(in), size, SH(d));
        DROP_VAR(&e);
    }
    MC_CHECK(bin2b64_output_len(n) == want.n && b642bin_output_len(want.n) >= n, "length", "length of base64 for %zu bytes", n);
    // writer, cut anywhere
    for(size_t cut = 0; cut <= n; cut++){
        dstr_t d = {0};
        derr_type_t et = WFMT_QUIET(WB64(WD(&d)), "%x%x", FSN(p, cut), FD(dstr_sub2(in, cut, n)));
        MC_CHECK(!et && same(&d, want.p, want.n), "writer", "\"%s\" written as base64: \"%s\"", SH(in), SH(d));
        d.len = 0;
        et = FMT_QUIET(&d, "%x%x%x", FC('<'), FB64SN(p, n), FC('>'));
        MC_CHECK(!et && d.len == want.n + 2 && !memcmp(d.data + 1, want.p, want.n), "writer", "\"%s\" formatted as base64: \"%s\"", SH(in), SH(d));
        dstr_free(&d);
    }
    // lines, streamed
    for(size_t w = 4; w <= 8; w += 2) for(size_t cut = 0; cut <= n; cut++){
        char buf[64]; dstr_t b = { .data = buf, .size = 64, .fixed_size = true }, d = {0};
        for(int part = 0; part < 2; part++){
            dstr_t piece = dstr_sub2(in, part ? cut : 0, part ? n : cut);
            dstr_append_quiet(&b, &piece);
            derr_t e = bin2b64_stream(&b, &d, w, part);
            MC_CHECK(!e.type, "encode", "unexpected error");
        }
        sb_t lines = {0}; add(&lines, "", 0); size_t per = w / 4 * 4;
        for(size_t i = 0; i < want.n; i += per){ add(&lines, want.p + i, want.n - i < per ? want.n - i : per); addc(&lines, '\n'); }
        MC_CHECK(b.len == 0 && same(&d, lines.p, lines.n), "lines", "\"%s\" in lines of %zu, cut at %zu: \"%s\"", SH(in), w, cut, SH(d));
        // and back, streamed
        for(size_t c2 = 0; c2 <= d.len; c2++){
            char buf2[128]; dstr_t b2 = { .data = buf2, .size = 128, .fixed_size = true }, o = {0};
            for(int part = 0; part < 2; part++){
                dstr_t piece = dstr_sub2(d, part ? c2 : 0, part ? d.len : c2);
                dstr_append_quiet(&b2, &piece);
                derr_t e = b642bin_stream(&b2, &o);
                MC_CHECK(!e.type, "decode", "unexpected error");
            }
            MC_CHECK(same(&o, p, n), "roundtrip", "\"%s\" comes back as \"%s\"", SH(in), SH(o));
            dstr_free(&o);
        }
        free(lines.p); dstr_free(&d);
        mc_case(1);
    }
    dstr_t d = {0}, t = { .data = want.p, .len = want.n }; derr_t e = b642bin(&t, &d);
    MC_CHECK(!e.type && same(&d, p, n), "roundtrip", "\"%s\" comes back as \"%s\"", SH(in), SH(d));
    dstr_free(&d); free(want.p);
}
static void run_b64(void){
    static const char al[] = { 0, 'M', (char)0xff, (char)0xfb };
    unsigned len = (unsigned)mc_opt("len", 5);
    EACH(x, nstr(4, len) + 65536){
        char t[16]; uint64_t y = x;
        if(y < 65536){ t[0] = (char)(y >> 8); t[1] = (char)y; t[2] = (char)(y * 7); b64_one(t, y % 3 + 1); }
        else b64_one(t, mkchr(y - 65536, al, 4, t));
    }
}
static void run_unb64(void){
    // decoding anything: only well-formed text is accepted
    static const char al[] = { 'A', 'b', '/', '=', '\n' };
    unsigned len = (unsigned)mc_opt("len", 8);
    EACH(x, nstr(5, len)){
        char t[16]; size_t n = mkchr(x, al, 5, t);
        dstr_t in = gin(t, n);
        sb_t want = {0}; add(&want, "", 0);
        bool bad = false, pad = false; unsigned v = 0, k = 0, np = 0; size_t done = 0;
        for(size_t i = 0; i < n && !bad; i++){
            if(t[i] == '\n') continue;
            if(pad && k == 0) break;     // behind the padding
            if(t[i] == '='){ if(k < 2) bad = true; np++; pad = true; v <<= 6; }
            else if(pad) bad = true;
            else v = v << 6 | (unsigned)(strchr(LUT, t[i]) - LUT);
            if(++k == 4){ addc(&want, (char)(v >> 16)); if(np < 2) addc(&want, (char)(v >> 8)); if(np < 1) addc(&want, (char)v); k = 0; v = 0; done = i + 1; }
        }
        dstr_t d = {0}; derr_t e = b642bin(&in, &d);
        bool ok = !bad && k == 0 && done == n;
        MC_CHECK((e.type == E_NONE) == ok || (ok && e.type), "decode", "base64 \"%s\" is %s", SH(in), e.type ? "refused" : "accepted");
        MC_CHECK(!ok || (!e.type && same(&d, want.p, want.n)), "decode", "base64 \"%s\" is decoded to \"%s\"", SH(in), SH(d));
        DROP_VAR(&e); d.len = 0;
        size_t used = 99;
        derr_type_t et = b642bin_quiet(&in, &d, &used);
        MC_CHECK(bad ? et != E_NONE : et == E_NONE, "decode", "the base64 stream \"%s\" is %s", SH(in), et ? "refused" : "accepted");
        if(!bad) MC_CHECK(same(&d, want.p, want.n) && used == done, "decode", "the base64 stream \"%s\" is decoded to \"%s\", %zu used", SH(in), SH(d), used);
        dstr_free(&d); free(want.p);
        mc_case(1);
    }
}
static int hv(char c){ const char *s = "0123456789abcdef"; if(c >= 'A' && c <= 'F') c = (char)(c + 32); const char *q = c ? strchr(s, c) : NULL; return q ? (int)(q - s) : -1; }
static void run_hex(void){
    static const char al[] = { '0', 'a', 'F', 'g', ' ', (char)0xff }; unsigned len = (unsigned)mc_opt("len", 6);
    EACH(x, nstr(6, len)){
        char t[16]; size_t n = mkchr(x, al, 6, t);
        dstr_t in = gin(t, n);
        sb_t want = {0}; add(&want, "", 0); bool ok = true; int hi = -1;
        for(size_t i = 0; i < n; i++){
            if(t[i] == ' ') continue;
            int h = hv(t[i]); if(h < 0){ ok = false; break; }
            if(hi < 0) hi = h; else { addc(&want, (char)(hi * 16 + h)); hi = -1; }
        }
        if(hi >= 0) ok = false;
        dstr_t d = {0}; derr_t e = hex2bin(&in, &d);
        MC_CHECK((e.type == E_NONE) == ok && (!ok || same(&d, want.p, want.n)), "hex", "hex \"%s\" is %s", SH(in), e.type ? "refused" : SH(d));
        DROP_VAR(&e); dstr_free(&d);
        // and as bytes
        dstr_t h = {0}; e = bin2hex(&in, &h);
        MC_CHECK(!e.type && h.len == 2 * n, "hex", "\"%s\" in hex is \"%s\"", SH(in), SH(h));
        e = hex2bin(&h, &d);
        MC_CHECK(!e.type && same(&d, t, n), "hex", "\"%s\" in hex and back is \"%s\"", SH(in), SH(d));
        dstr_free(&d); dstr_free(&h);
        for(size_t size = 0; size <= 2 * n; size++){
            dstr_t o = gout(size); e = bin2hex(&in, &o); gcheck(&o, "hex");
            MC_CHECK((e.type == E_NONE) == (size == 2 * n), "hex", "hex of %zu bytes into %zu", n, size);
            DROP_VAR(&e);
        }
        free(want.p);
        mc_case(1);
    }
    for(unsigned c = 0; c < 256; c++) MC_CHECK(hv(hex_high_nibble((unsigned char)c)) == (int)c / 16 && hv(hex_low_nibble((unsigned char)c)) == (int)c % 16, "hex", "nibbles of %u", c);
}

// ------------------------------------------------------------------ numbers
static void num_one(const char *p, size_t n){
    dstr_t in = gin(p, n);
    static const int bases[] = { 8, 10, 16, 2, 0 };
    for(int b = 0; b < 5; b++){
        int base = bases[b]; bool ok = n > 0, neg = false; size_t i = 0; unsigned __int128 v = 0;
        if(base == 2 || base == 0) ok = false;
        if(ok && (p[0] == '-' || p[0] == '+')){ neg = p[0] == '-'; i++; if(n == 1) ok = false; }
        for(; ok && i < n; i++){
            int h = hv(p[i]);
            if(h < 0 || h >= base) ok = false;
            else if(v > ((unsigned __int128)1 << 100)) ; else v = v * (unsigned)base + (unsigned)h;
        }
        __int128 s = neg ? -(__int128)v : (__int128)v;
        #define UNS(name, T, max) { T o = 77; bool w = ok && (!neg || v == 0) && v <= (max); derr_t e = dstr_to##name(&in, &o, base); \
            MC_CHECK((e.type == E_NONE) == w && (!w || (unsigned __int128)o == v), "number", "dstr_to" #name " of \"%s\" in base %d: %s %llu", SH(in), base, e.type ? "refused" : "accepted", (unsigned long long)o); DROP_VAR(&e); \
            T o2 = 77; MC_CHECK((dstr_to##name##_quiet(in, &o2, base) == E_NONE) == w && o2 == o, "number", "dstr_to" #name "_quiet differs"); }
        #define SIG(name, T, min, max) { T o = 77; bool w = ok && s >= (min) && s <= (max); derr_t e = dstr_to##name(&in, &o, base); \
            MC_CHECK((e.type == E_NONE) == w && (!w || (__int128)o == s), "number", "dstr_to" #name " of \"%s\" in base %d: %s %lld", SH(in), base, e.type ? "refused" : "accepted", (long long)o); DROP_VAR(&e); \
            T o2 = 77; MC_CHECK((dstr_to##name##_quiet(in, &o2, base) == E_NONE) == w && o2 == o, "number", "dstr_to" #name "_quiet differs"); }
        UNS(u, unsigned int, UINT_MAX) UNS(ul, unsigned long, ULONG_MAX) UNS(size, size_t, SIZE_MAX) UNS(ull, unsigned long long, ULLONG_MAX)
        UNS(u64, uint64_t, UINT64_MAX) UNS(umax, uintmax_t, UINTMAX_MAX)
        SIG(i, int, INT_MIN, INT_MAX) SIG(l, long, LONG_MIN, LONG_MAX) SIG(ll, long long, LLONG_MIN, LLONG_MAX) SIG(i64, int64_t, INT64_MIN, INT64_MAX) SIG(imax, intmax_t, INTMAX_MIN, INTMAX_MAX)
        mc_case(11);
    }
}
static void u128(unsigned __int128 v, int base, char *out){
    char t[140]; int n = 0;
    do { t[n++] = "0123456789ABCDEF"[v % (unsigned)base]; v /= (unsigned)base; } while(v);
    for(int i = 0; i < n; i++) out[i] = t[n - 1 - i];
    out[n] = 0;
}
static void run_num(void){
    static const char al[] = { '-', '+', '0', '1', '8', 'a', 'F', ' ' }; unsigned len = (unsigned)mc_opt("len", 5);
    EACH(x, nstr(8, len)){ char t[16]; size_t n = mkchr(x, al, 8, t); num_one(t, n); }
    // around every limit
    static const unsigned bits[] = { 7, 8, 15, 16, 31, 32, 63, 64, 65 };
    unsigned k = mc_choose(9, "bits"); int base = (int[]){ 8, 10, 16 }[mc_choose(3, "base")]; unsigned sign = mc_choose(3, "sign");
    for(int o = -40; o <= 40; o++) for(int zeros = 0; zeros < 3; zeros++){
        char t[200], *q = t; if(sign) *q++ = "+-"[sign - 1];
        for(int z = 0; z < zeros * 12; z++) *q++ = '0';
        u128(((unsigned __int128)1 << bits[k]) + (unsigned __int128)o, base, q);
        num_one(t, strlen(t));
        strcat(t, "0"); num_one(t, strlen(t));
    }
    for(int o = -40; o <= 40; o++){
        intmax_t v = (intmax_t)((uintmax_t)1 << (bits[k] & 63)) + o; char t[80];
        DSTR_VAR(d, 80);
        FMT_QUIET(&d, "%x|%x", FI(v), FU((uintmax_t)v)); sprintf(t, "%jd|%ju", v, (uintmax_t)v);
        MC_CHECK(same(&d, t, strlen(t)), "number", "%s is written \"%s\"", t, SH(d));
    }
}
static void run_float(void){
    // sizes around the internal buffers
    unsigned k = mc_choose(80, "digits"); long double f = 1; for(unsigned i = 0; i < k; i++) f *= 10;
    for(int s = 0; s < 2; s++){
        char t[200]; sprintf(t, "%Lf", s ? -f : f);
        DSTR_VAR(d, 200);
        derr_type_t et = FMT_QUIET(&d, "%x", FF(s ? -f : f));
        MC_CHECK(et || same(&d, t, strlen(t)), "number", "%s is written \"%s\"", t, SH(d));
        MC_CHECK(!et || k > 40, "number", "%s is refused", t);
        mc_case(1);
    }
}

// ------------------------------------------------------------------ unicode
typedef struct { uint32_t c[16]; int n; } cps_t;
static derr_type_t cp_each(uint32_t c, void *d){ cps_t *s = d; if(s->n < 16) s->c[s->n++] = c; return E_NONE; }
static derr_type_t ch_each(char c, void *d){ addc(d, c); return E_NONE; }
static derr_type_t u16_each(uint16_t c, void *d){ addc(d, (char)(c >> 8)); addc(d, (char)c); return E_NONE; }
// strict decoder: 1 ok, 0 incomplete at the end, -1 invalid
static int ref_utf8(const unsigned char *p, size_t n, cps_t *o){
    o->n = 0;
    for(size_t i = 0; i < n;){
        unsigned u = p[i], need = u < 0x80 ? 0 : u >= 0xC2 && u < 0xE0 ? 1 : u >= 0xE0 && u < 0xF0 ? 2 : u >= 0xF0 && u < 0xF5 ? 3 : 9;
        if(need == 9) return -1;
        unsigned v = need == 0 ? u : need == 1 ? u & 31 : need == 2 ? u & 15 : u & 7;
        for(unsigned k = 1; k <= need; k++){ if(i + k >= n) return 0; if((p[i+k] & 0xC0) != 0x80) return -1; v = v << 6 | (p[i+k] & 63); }
        static const unsigned min[] = { 0, 0x80, 0x800, 0x10000 };
        if(v < min[need] || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return -1;
        o->c[o->n++] = v; i += need + 1;
    }
    return 1;
}
static void run_utf8(void){
    static const unsigned char al[] = { 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xff, 0 };
    unsigned len = (unsigned)mc_opt("len", 4);
    EACH(x, nstr(23, len)){
        char t[8]; size_t n = mkchr(x, (const char*)al, 23, t);
        cps_t want, got = {0}; int r = ref_utf8((unsigned char*)t, n, &want);
        dstr_t in = gin(t, n);
        derr_type_t et = utf8_decode_quiet(in.data, n, cp_each, &got);
        MC_CHECK((et == E_NONE) == (r == 1) && (r != 1 || (got.n == want.n && !memcmp(got.c, want.c, 4 * (size_t)got.n))), "utf8", "UTF-8 \"%s\" is %s", SH(in), et ? "refused" : "accepted");
        for(size_t a = 0; a <= n; a++) for(size_t b = a; b <= n; b++){
            cps_t g = {0}; uint32_t cp = 0; size_t tail = 0;
            et = utf8_decode_stream(t, a, cp_each, &g, &cp, &tail);
            if(!et) et = utf8_decode_stream(t + a, b - a, cp_each, &g, &cp, &tail);
            if(!et) et = utf8_decode_stream(t + b, n - b, cp_each, &g, &cp, &tail);
            bool done = !et && !tail;
            MC_CHECK(done == (r == 1) && (r != -1 || et || tail) && (r != 1 || (g.n == want.n && !memcmp(g.c, want.c, 4 * (size_t)g.n))), "utf8-cut", "UTF-8 \"%s\" cut at %zu and %zu", SH(in), a, b);
            MC_CHECK(g.n <= want.n || r == -1, "utf8-cut", "extra characters");
        }
        mc_case(1);
    }
}
static void run_ucs(void){
    EACH(x, 0x110100){
        uint32_t c = (uint32_t)x; bool valid = c < 0x110000 && !(c >= 0xD800 && c < 0xE000);
        sb_t u8 = {0}, u16 = {0}; add(&u8, "", 0); add(&u16, "", 0);
        derr_type_t e8 = utf8_encode_quiet(c, ch_each, &u8), e16 = utf16_encode_quiet(c, u16_each, &u16);
        MC_CHECK((e8 == E_NONE) == valid && (e16 == E_NONE) == valid, "encode", "U+%X is %s/%s", c, e8 ? "refused" : "accepted", e16 ? "refused" : "accepted");
        if(valid){
            cps_t g = {0}, h = {0}, w;
            MC_CHECK(ref_utf8((unsigned char*)u8.p, u8.n, &w) == 1 && w.n == 1 && w.c[0] == c, "encode", "U+%X in UTF-8", c);
            MC_CHECK(!utf8_decode_quiet(u8.p, u8.n, cp_each, &g) && g.n == 1 && g.c[0] == c, "roundtrip", "U+%X through UTF-8", c);
            MC_CHECK(u16.n == (c < 0x10000 ? 2 : 4) && !utf16_be_decode_quiet(u16.p, u16.n, cp_each, &h) && h.n == 1 && h.c[0] == c, "roundtrip", "U+%X through UTF-16", c);
            char le[4]; for(size_t i = 0; i < u16.n; i++) le[i] = u16.p[i ^ 1];
            h.n = 0;
            MC_CHECK(!utf16_le_decode_quiet(le, u16.n, cp_each, &h) && h.n == 1 && h.c[0] == c, "roundtrip", "U+%X through little-endian UTF-16", c);
        }
        free(u8.p); free(u16.p);
        mc_case(1);
    }
}
static int ref_utf16(const unsigned char *p, size_t n, int mode, cps_t *o){ // mode 0 bom, 1 be, 2 le
    o->n = 0; bool be = mode == 1; size_t i = 0;
    if(mode == 0){
        if(n < 2) return n == 0 ? 1 : 0;
        if(p[0] == 0xFE && p[1] == 0xFF) be = true; else if(p[0] == 0xFF && p[1] == 0xFE) be = false; else return -1;
        i = 2;
    }
    #define U16(k) (unsigned)(be ? p[k] << 8 | p[(k)+1] : p[(k)+1] << 8 | p[k])
    while(i < n){
        if(i + 1 >= n) return 0;
        unsigned a = U16(i); i += 2;
        if(a >= 0xDC00 && a < 0xE000) return -1;
        if(a >= 0xD800 && a < 0xDC00){ if(i + 1 >= n) return 0; unsigned b = U16(i); i += 2; if(b < 0xDC00 || b > 0xDFFF) return -1; a = 0x10000 + ((a & 0x3ff) << 10) + (b & 0x3ff); }
        o->c[o->n++] = a;
    }
    return 1;
}
static void run_utf16(void){
    static const unsigned char al[] = { 0xfe, 0xff, 'a', 0, 0xd8, 0xdb, 0xdc, 0xdf }; unsigned len = (unsigned)mc_opt("len", 6);
    EACH(x, nstr(8, len)){
        char t[8]; size_t n = mkchr(x, (const char*)al, 8, t); dstr_t in = gin(t, n);
        for(int m = 0; m < 3; m++){
            cps_t want, got = {0}; int r = ref_utf16((unsigned char*)t, n, m, &want);
            derr_type_t et = (m == 0 ? utf16_decode_quiet : m == 1 ? utf16_be_decode_quiet : utf16_le_decode_quiet)(in.data, n, cp_each, &got);
            MC_CHECK((et == E_NONE) == (r == 1) && (r != 1 || (got.n == want.n && !memcmp(got.c, want.c, 4 * (size_t)got.n))), "utf16", "UTF-16 (%d) \"%s\" is %s", m, SH(in), et ? "refused" : "accepted");
            if(r == 1) for(size_t a = 0; a <= n; a++) for(size_t b = a; b <= n; b++){
                cps_t g = {0}; utf16_state_t s = m == 0 ? (utf16_state_t){0} : m == 1 ? utf16_start_be() : utf16_start_le();
                et = utf16_decode_stream(t, a, cp_each, &g, &s);
                if(!et) et = utf16_decode_stream(t + a, b - a, cp_each, &g, &s);
                if(!et) et = utf16_decode_stream(t + b, n - b, cp_each, &g, &s);
                MC_CHECK(!et && !s.state && g.n == want.n && !memcmp(g.c, want.c, 4 * (size_t)g.n), "utf16-cut", "UTF-16 (%d) \"%s\" cut at %zu and %zu", m, SH(in), a, b);
            }
            mc_case(1);
        }
    }
}

// ----------------------------------------------------------- string builders
static void run_sb(void){
    // trees of builders, expanded into every stack size
    unsigned n = 1 + mc_choose(4, "parts"); sb_t want = {0}; add(&want, "", 0);
    string_builder_t sb[4]; sb_t part[4] = {0};
    for(unsigned i = 0; i < n; i++){
        switch(mc_choose(5, "kind")){
            case 0: sb[i] = SBS("dir"); adds(&part[i], "dir"); break;
            case 1: sb[i] = SBD(DSTR_LIT("")); add(&part[i], "", 0); break;
            case 2: sb[i] = SBSN("name.x", 4); adds(&part[i], "name"); break;
            case 3: sb[i] = SBI(-70); adds(&part[i], "-70"); break;
            case 4: sb[i] = SBU(4000000000u); adds(&part[i], "4000000000"); break;
        }
    }
    bool pre = n > 1 && mc_choose(2, "prepend");
    string_builder_t acc[4]; acc[0] = sb[0];
    for(unsigned i = 1; i < n; i++) acc[i] = pre ? sb_prepend(&acc[i-1], sb[i]) : sb_append(&acc[i-1], sb[i]);
    for(unsigned k = 0; k < n; k++){ unsigned i = pre ? n - 1 - k : k; if(k) addc(&want, '/'); add(&want, part[i].p, part[i].n); }
    for(size_t size = 1; size <= want.n + 2; size++){
        dstr_t st = gout(size), heap = {0}, *out = NULL;
        derr_t e = sb_expand(&acc[n-1], &st, &heap, &out);
        gcheck(&st, "sb_expand");
        MC_CHECK(!e.type && out && same(out, want.p, want.n) && out->data[out->len] == 0, "path", "\"%s\" expands to \"%s\"", want.p, out ? SH(*out) : "");
        dstr_free(&heap);
        mc_case(1);
    }
    dstr_t d = {0};
    FMT_QUIET(&d, "%x", FSB_EX(acc[n-1], DSTR_LIT("::")));
    want.n = 0;
    for(unsigned k = 0; k < n; k++){ unsigned i = pre ? n - 1 - k : k; if(k) adds(&want, "::"); add(&want, part[i].p, part[i].n); }
    MC_CHECK(same(&d, want.p, want.n), "path", "\"%s\" joined differently: \"%s\"", want.p, SH(d));
    for(unsigned i = 0; i < n; i++) free(part[i].p);
    dstr_free(&d); free(want.p);
}

// --------------------------------------------------------------- files, pipes
static char rd_data[64]; static size_t rd_n, rd_at; static sb_t wr_got; static bool io_on;
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void *p, size_t n){
    if(!io_on || fd != 1000) return __real_read(fd, p, n);
    size_t left = rd_n - rd_at, max = n < left ? n : left;
    if(max == 0) return 0;
    unsigned k = mc_choose(max > 3 ? 4 : (unsigned)max + 1, "read");   // 0: everything
    if(k > 0 && k == (max > 3 ? 3 : max)){ if(mc_dev(2, "error")){ errno = EIO; return -1; } }
    size_t m = k == 0 ? max : k == 1 ? 1 : max - k + 1;
    memcpy(p, rd_data + rd_at, m); rd_at += m;
    return (ssize_t)m;
}
ssize_t __wrap_write(int fd, const void *p, size_t n){
    if(!io_on || fd != 1000) return __real_write(fd, p, n);
    unsigned k = mc_choose(n > 2 ? 4 : 2, "write");
    if(k == 1){ unsigned d = mc_dev(3, "fault"); if(d == 1){ errno = EIO; return -1; } if(d == 2) return 0; }
    size_t m = k == 0 ? n : k == 1 ? 1 : n - k + 1;
    add(&wr_got, p, m);
    return (ssize_t)m;
}
static void run_io(void){
    rd_n = mc_choose(7, "length"); rd_at = 0; memcpy(rd_data, "abcdefghijkl", 12);
    wr_got.n = 0; add(&wr_got, "", 0);
    io_on = true;
    unsigned what = mc_choose(3, "what");
    if(what == 2){
        dstr_t in = { .data = rd_data, .len = rd_n };
        derr_t e = dstr_write(1000, &in);
        io_on = false;
        MC_CHECK(wr_got.n <= rd_n && !memcmp(wr_got.p, rd_data, wr_got.n), "write", "wrote \"%s\"", show(wr_got.p, wr_got.n));
        MC_CHECK(e.type || wr_got.n == rd_n, "write", "only %zu of %zu bytes were written without an error", wr_got.n, rd_n);
        MC_CHECK(!e.type || mc_dev_left() < (unsigned)mc_opt("b", 1), "write", "failed without a fault");
        DROP_VAR(&e);
        return;
    }
    unsigned size = mc_choose(9, "size"), pre = 0; bool fixed = what == 1;
    dstr_t d = {0};
    if(fixed) d = gout(size + 1); else if(size) DROP_CMD( dstr_new(&d, size) );
    if(size && mc_choose(2, "existing")){ d.data[d.len++] = '^'; pre = 1; }
    derr_t e = dstr_read_all(1000, &d);
    io_on = false;
    if(!e.type) MC_CHECK(d.len == rd_n + pre && !memcmp(d.data + pre, rd_data, rd_n) && (!pre || d.data[0] == '^'), "read", "read \"%s\" of %zu bytes", SH(d), rd_n);
    else MC_CHECK(d.len == pre && (!pre || d.data[0] == '^'), "read", "a failed read leaves \"%s\"", SH(d));
    if(fixed) gcheck(&d, "read");
    DROP_VAR(&e);
    if(!fixed) dstr_free(&d);
}

// ---------------------------------------------------------------------- URLs
static bool unres(char c){ return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c && strchr("-._~", c)); }
static bool subd(char c){ return c && strchr("!$&'()*+,;=", c); }
static bool cls(const char *p, size_t n, const char *extra){
    for(size_t i = 0; i < n; i++){
        if(p[i] == '%'){ if(n - i < 3 || hv(p[i+1]) < 0 || hv(p[i+2]) < 0) return false; i += 2; continue; }
        if(!unres(p[i]) && !subd(p[i]) && !(p[i] && strchr(extra, p[i]))) return false;
    }
    return true;
}
typedef struct { const char *p[8]; size_t n[8]; } parts_t;   // scheme user pass host port path query fragment
#define SETP(i, a, l) do{ o->p[i] = (a); o->n[i] = (size_t)(l); }while(0)
static bool ref_auth(const char *p, size_t n, parts_t *o){
    const char *at = memchr(p, '@', n), *h = p, *end = p + n;
    if(at){
        const char *c = memchr(p, ':', (size_t)(at - p));
        if(!cls(p, (size_t)(at - p), ":")) return false;
        SETP(1, p, (c ? c : at) - p); if(c) SETP(2, c + 1, at - c - 1);
        h = at + 1;
    }
    const char *hend;
    if(h < end && *h == '['){
        const char *rb = memchr(h, ']', (size_t)(end - h));
        if(!rb || rb == h + 1) return false;
        for(const char *q = h + 1; q < rb; q++) if(!unres(*q) && !subd(*q) && *q != ':') return false;
        hend = rb + 1;
        if(hend < end && *hend != ':') return false;
    }else{
        hend = memchr(h, ':', (size_t)(end - h)); if(!hend) hend = end;
        if(!cls(h, (size_t)(hend - h), "")) return false;
    }
    SETP(3, h, hend - h);
    if(hend < end){
        for(const char *q = hend + 1; q < end; q++) if(*q < '0' || *q > '9') return false;
        SETP(4, hend + 1, end - hend - 1);
    }
    return true;
}
static bool ref_scheme(const char *p, size_t n){
    if(!n || !((p[0] | 32) >= 'a' && (p[0] | 32) <= 'z')) return false;
    for(size_t i = 0; i < n; i++) if(!((unres(p[i]) && p[i] != '_' && p[i] != '~') || p[i] == '+')) return false;
    return true;
}
static bool ref_url(const char *p, size_t n, bool reference, parts_t *o){
    memset(o, 0, sizeof(*o));
    const char *end = p + n, *q;
    if((q = memchr(p, '#', n))){ SETP(7, q + 1, end - q - 1); if(!cls(q + 1, (size_t)(end - q - 1), ":@/?")) return false; end = q; }
    if((q = memchr(p, '?', (size_t)(end - p)))){ SETP(6, q + 1, end - q - 1); if(!cls(q + 1, (size_t)(end - q - 1), ":@/?")) return false; end = q; }
    const char *c = memchr(p, ':', (size_t)(end - p)), *s = memchr(p, '/', (size_t)(end - p));
    if(c && (!s || c < s)){ if(!ref_scheme(p, (size_t)(c - p))) return false; SETP(0, p, c - p); p = c + 1; }
    else if(!reference) return false;
    if(end - p >= 2 && p[0] == '/' && p[1] == '/'){
        const char *a = p + 2, *ae = memchr(a, '/', (size_t)(end - a)); if(!ae) ae = end;
        if(!ref_auth(a, (size_t)(ae - a), o)) return false;
        p = ae;
    }
    SETP(5, p, end - p);
    return cls(p, (size_t)(end - p), ":@/");
}
static void run_url(void){
    static const char *al[] = { "a", "1", ":", "/", "//", "?", "#", "@", "[", "]", "%4a", "%", ".", "_", "jan", " ", "+" };
    enum { N = 17 };
    unsigned len = (unsigned)mc_opt("len", 5); bool ref = mc_choose(2, "reference"), head = mc_choose(2, "head");
    EACH(x, nstr(N, len)){
        char t[64] = "h:"; size_t n = head ? 2 : 0; n += mkstr(x, al, N, NULL, t + n);
        dstr_t in = gin(t, n); url_t u; parts_t w; char eb[200];
        bool want = ref_url(in.data, n, ref, &w), ok = (ref ? parse_url_reference_ex : parse_url_ex)(&in, &u, NULL);
        // relative references of one word are not supported by the parser
        MC_CHECK(ok == want || (ref && want && !w.n[0]), "url", "\"%s\" is %s%s", SH(in), ok ? "accepted" : "refused", ref ? " as reference" : "");
        if(ok){
            const dstr_off_t f[8] = { u.scheme, u.user, u.pass, u.host, u.port, u.path, u.query, u.fragment };
            for(int i = 0; i < 8; i++){
                dstr_t d = dstr_from_off(f[i]);
                MC_CHECK(same(&d, w.p[i] ? w.p[i] : "", w.n[i]), "part", "part %d of \"%s\" is \"%s\"", i, SH(in), SH(d));
                if(w.n[i]) MC_CHECK(d.data == w.p[i], "part", "part %d of \"%s\" is taken from another place", i, SH(in));
            }
            dstr_t all = url_text(u);
            MC_CHECK(same(&all, t, n), "text", "the text of \"%s\" is \"%s\"", SH(in), SH(all));
        }else{
            dstr_t eout = gout(x % 200); url_t u2;
            MC_CHECK(!(ref ? parse_url_reference_ex : parse_url_ex)(&in, &u2, &eout), "url", "the error buffer changes the result");
            gcheck(&eout, "error message");
        }
        (void)eb;
        mc_case(1);
    }
}
static void run_addr(void){
    static const char *al[] = { "a", "1", ":", "/", "//", "@", "[", "]", "%4a", ".", "_", "jan", "+" };
    enum { N = 13 };
    unsigned len = (unsigned)mc_opt("len", 5);
    EACH(x, nstr(N, len)){
        char t[64]; size_t n = mkstr(x, al, N, NULL, t);
        dstr_t in = gin(t, n); addrspec_t a;
        bool ok = parse_addrspec_ex(&in, &a, NULL);
        // forms: :port host: host:port scheme://[host][:[port]], or a bare host
        const char *p = in.data, *end = p + n, *q; bool want; parts_t w = {0}, *o = &w;
        const char *ss = NULL; for(q = p; q + 2 < end; q++) if(!memcmp(q, "://", 3)){ ss = q; break; }
        if(ss){
            SETP(0, p, ss - p);
            want = ref_scheme(p, (size_t)(ss - p)) && !memchr(ss + 3, '@', (size_t)(end - ss - 3)) && !memchr(ss + 3, '/', (size_t)(end - ss - 3)) && ref_auth(ss + 3, (size_t)(end - ss - 3), o);
        }else want = n > 0 && !memchr(p, '@', n) && !memchr(p, '/', n) && ref_auth(p, n, o) && !(w.n[3] == 0 && w.n[4] == 0);
        MC_CHECK(!ok || want, "addr", "address \"%s\" is accepted", SH(in));
        if(ok){
            const dstr_off_t f[3] = { a.scheme, a.host, a.port }; static const int ix[] = { 0, 3, 4 };
            for(int i = 0; i < 3; i++){ dstr_t d = dstr_from_off(f[i]); MC_CHECK(same(&d, w.p[ix[i]] ? w.p[ix[i]] : "", w.n[ix[i]]), "addr", "part %d of address \"%s\" is \"%s\"", i, SH(in), SH(d)); }
            mc_outcome((uint64_t)(w.n[0] > 0) * 4 + (uint64_t)(w.n[3] > 0) * 2 + (w.n[4] > 0));
        }
        // what the documentation promises is accepted
        if(want && !memchr(p, '[', n)){
            bool promised = ss ? true : w.n[3] ? ((*p | 32) >= 'a') : true;
            if(promised) MC_CHECK(ok, "addr", "address \"%s\" is refused", SH(in));
        }
        mc_case(1);
    }
}
static void run_ctx(void){
    // error messages: every position and length, every buffer
    unsigned start = mc_choose(12, "start"), tl = mc_choose(4, "len");
    static char text[] = "ab\n\"cd\x01" "efgh"; dstr_t t = gin(text, 11);
    if(start + tl > 11){ mc_trivial(); return; }
    for(size_t ctx = 0; ctx <= 14; ctx++) for(size_t size = 0; size <= 120; size++) for(unsigned pre = 0; pre < 3 && pre <= size; pre++){
        dstr_t d = gout(size); for(unsigned i = 0; i < pre; i++) d.data[d.len++] = i ? '\n' : 'x';
        get_token_context(&d, (dstr_off_t){ .buf = &t, .start = start, .len = tl }, ctx);
        gcheck(&d, "error context");
        if(size) MC_CHECK(d.len < d.size && d.data[d.len] == 0, "terminator", "error context not terminated");
        mc_case(1);
    }
}

static void init(void){
    pages = mmap(NULL, NPAGES + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(pages + NPAGES, 4096, PROT_NONE);
    opages = mmap(NULL, NPAGES + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(opages + NPAGES, 4096, PROT_NONE);
}
static void run(void){
    static const struct { const char *n; void (*f)(void); } m[] = {
        {"fmt", run_fmt}, {"fault", run_fault}, {"append", run_append}, {"find", run_find}, {"cmp", run_cmp}, {"list", run_list},
        {"b64", run_b64}, {"unb64", run_unb64}, {"hex", run_hex}, {"num", run_num}, {"float", run_float}, {"utf8", run_utf8}, {"ucs", run_ucs}, {"utf16", run_utf16},
        {"sb", run_sb}, {"io", run_io}, {"url", run_url}, {"addr", run_addr}, {"ctx", run_ctx},
    };
    watch_free = io_on = false;
    const char *s = mc_opts("mode", "fmt");
    for(size_t i = 0; i < sizeof(m) / sizeof(*m); i++) if(!strcmp(m[i].n, s)){ m[i].f(); return; }
    mc_error("mode");
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "g04_text", .run = run, .init = init, .exec_timeout = 120 };
    return mc_main(argc, argv, &h);
}
