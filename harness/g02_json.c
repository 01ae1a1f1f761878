// G02: JSON text is parsed, checked and written faithfully.  Everything is
// compared with a plain recursive-descent parser which shares nothing with the
// code under test.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <sys/mman.h>
#include "libdstr/libdstr.h"
#include "mc/mc.h"

// ------------------------------------------------------------------ buffers
typedef struct { char *p; size_t n, cap; } sb_t;
static void add(sb_t *b, const void *p, size_t n){
    if(b->n + n + 1 > b->cap){ b->cap = (b->n + n + 64) * 2; b->p = realloc(b->p, b->cap); }
    if(n) memcpy(b->p + b->n, p, n);
    b->n += n; b->p[b->n] = 0;
}
static void addc(sb_t *b, char c){ add(b, &c, 1); }
static void adds(sb_t *b, const char *s){ add(b, s, strlen(s)); }
static void addt(sb_t *b, char t, const char *p, size_t n){
    char h[32];
    add(b, h, (size_t)sprintf(h, "%c%zu:", t, n));
    add(b, p, n);
}
static const char *show(const char *p, size_t n){
    static sb_t s[4]; static int k;
    sb_t *b = &s[k++ % 4];
    b->n = 0; add(b, "", 0);
    for(size_t i = 0; i < n && i < 200; i++){
        unsigned char u = (unsigned char)p[i]; char h[8];
        if(u < 32 || u > 126){ sprintf(h, "\\x%02x", u); adds(b, h); }
        else addc(b, p[i]);
    }
    return b->p;
}

// ---------------------------------------------------------------- reference
typedef enum { V_NULL, V_TRUE, V_FALSE, V_NUM, V_STR, V_ARR, V_OBJ } vt_e;
typedef struct val_t { vt_e t; sb_t s; struct val_t *kid; int nkid; sb_t *key; } val_t;
static void vfree(val_t *v){
    for(int i = 0; i < v->nkid; i++){ vfree(&v->kid[i]); if(v->key) free(v->key[i].p); }
    free(v->kid); free(v->key); free(v->s.p);
    *v = (val_t){0};
}
static val_t *vkid(val_t *v, const sb_t *key){
    v->kid = realloc(v->kid, sizeof(val_t) * (size_t)(v->nkid + 1));
    if(v->t == V_OBJ){ v->key = realloc(v->key, sizeof(sb_t) * (size_t)(v->nkid + 1)); v->key[v->nkid] = (sb_t){0}; add(&v->key[v->nkid], key->p, key->n); }
    v->kid[v->nkid] = (val_t){0};
    return &v->kid[v->nkid++];
}
typedef struct { const unsigned char *p, *end; } cur_t;
static void ws(cur_t *c){ while(c->p < c->end && strchr(" \t\r\n", *c->p) && *c->p) c->p++; }
static int hexv(unsigned char u){
    const char *s = "0123456789abcdef", *q;
    if(u >= 'A' && u <= 'F') u = (unsigned char)(u + 32);
    return u && (q = strchr(s, u)) ? (int)(q - s) : -1;
}
static bool hex4(cur_t *c, unsigned *out){
    *out = 0;
    for(int i = 0; i < 4; i++, c->p++){
        if(c->p >= c->end) return false;
        int h = hexv(*c->p);
        if(h < 0) return false;
        *out = *out * 16 + (unsigned)h;
    }
    return true;
}
static void utf8(sb_t *b, unsigned u){
    if(u < 0x80) addc(b, (char)u);
    else if(u < 0x800){ addc(b, (char)(0xC0 + u / 64)); addc(b, (char)(0x80 + u % 64)); }
    else if(u < 0x10000){ addc(b, (char)(0xE0 + u / 4096)); addc(b, (char)(0x80 + u / 64 % 64)); addc(b, (char)(0x80 + u % 64)); }
    else { addc(b, (char)(0xF0 + u / 262144)); addc(b, (char)(0x80 + u / 4096 % 64)); addc(b, (char)(0x80 + u / 64 % 64)); addc(b, (char)(0x80 + u % 64)); }
}
static bool rstr(cur_t *c, sb_t *out){
    add(out, "", 0);
    if(c->p >= c->end || *c->p != '"') return false;
    for(c->p++; c->p < c->end;){
        unsigned char u = *c->p++;
        if(u == '"') return true;
        if(u < 32) return false;
        if(u != '\\'){ addc(out, (char)u); continue; }
        if(c->p >= c->end) return false;
        static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
        u = *c->p++;
        const char *q = u ? strchr(from, u) : NULL;
        if(q){ addc(out, to[q - from]); continue; }
        unsigned a, b;
        if(u != 'u' || !hex4(c, &a)) return false;
        if(a >= 0xDC00 && a <= 0xDFFF) return false;
        if(a >= 0xD800 && a <= 0xDBFF){
            if(c->end - c->p < 2 || c->p[0] != '\\' || c->p[1] != 'u') return false;
            c->p += 2;
            if(!hex4(c, &b) || b < 0xDC00 || b > 0xDFFF) return false;
            a = 0x10000 + (a - 0xD800) * 1024 + (b - 0xDC00);
        }
        utf8(out, a);
    }
    return false;
}
static bool dig(cur_t *c){ return c->p < c->end && *c->p >= '0' && *c->p <= '9'; }
static bool rnum(cur_t *c, sb_t *out){
    const unsigned char *s = c->p;
    if(c->p < c->end && *c->p == '-') c->p++;
    if(!dig(c)) return false;
    if(*c->p == '0') c->p++; else while(dig(c)) c->p++;
    if(c->p < c->end && *c->p == '.'){ c->p++; if(!dig(c)) return false; while(dig(c)) c->p++; }
    if(c->p < c->end && (*c->p == 'e' || *c->p == 'E')){
        c->p++;
        if(c->p < c->end && (*c->p == '+' || *c->p == '-')) c->p++;
        if(!dig(c)) return false;
        while(dig(c)) c->p++;
    }
    add(out, s, (size_t)(c->p - s));
    return true;
}
static bool lit(cur_t *c, const char *w){
    size_t l = strlen(w);
    if((size_t)(c->end - c->p) < l || memcmp(c->p, w, l)) return false;
    c->p += l;
    return true;
}
static bool rval(cur_t *c, val_t *v){
    ws(c);
    if(c->p >= c->end) return false;
    switch(*c->p){
        case 'n': v->t = V_NULL; return lit(c, "null");
        case 't': v->t = V_TRUE; return lit(c, "true");
        case 'f': v->t = V_FALSE; return lit(c, "false");
        case '"': v->t = V_STR; return rstr(c, &v->s);
        case '[':
            v->t = V_ARR; c->p++; ws(c);
            if(lit(c, "]")) return true;
            for(;;){
                if(!rval(c, vkid(v, NULL))) return false;
                ws(c);
                if(lit(c, "]")) return true;
                if(!lit(c, ",")) return false;
            }
        case '{':
            v->t = V_OBJ; c->p++; ws(c);
            if(lit(c, "}")) return true;
            for(;;){
                sb_t k = {0};
                ws(c);
                bool ok = rstr(c, &k);
                val_t *w = ok ? vkid(v, &k) : NULL;
                free(k.p);
                ws(c);
                if(!ok || !lit(c, ":") || !rval(c, w)) return false;
                ws(c);
                if(lit(c, "}")) return true;
                if(!lit(c, ",")) return false;
            }
        default: v->t = V_NUM; return rnum(c, &v->s);
    }
}
static bool ref_parse(const char *p, size_t n, val_t *v){
    cur_t c = { (const unsigned char*)p, (const unsigned char*)p + n };
    *v = (val_t){0};
    if(!rval(&c, v)) return false;
    ws(&c);
    return c.p == c.end;
}
static void canon(const val_t *v, sb_t *b){
    static const char tag[] = "ztfns[{";
    switch(v->t){
        case V_NUM: case V_STR: addt(b, tag[v->t], v->s.p ? v->s.p : "", v->s.n); break;
        case V_ARR: case V_OBJ:
            addc(b, tag[v->t]);
            for(int i = 0; i < v->nkid; i++){
                if(v->t == V_OBJ) addt(b, 'k', v->key[i].p, v->key[i].n);
                canon(&v->kid[i], b);
            }
            addc(b, v->t == V_ARR ? ']' : '}');
            break;
        default: addc(b, tag[v->t]);
    }
}

// ---------------------------------------------------------------- real side
static void canon_node(const json_node_t *n, const json_node_t *parent, sb_t *b){
    MC_CHECK(n->parent == parent, "tree", "wrong parent pointer");
    switch(n->type){
        case JSON_NULL: addc(b, 'z'); break;
        case JSON_TRUE: addc(b, 't'); break;
        case JSON_FALSE: addc(b, 'f'); break;
        case JSON_NUMBER: addt(b, 'n', n->text.data, n->text.len); break;
        case JSON_STRING: addt(b, 's', n->text.data, n->text.len); break;
        case JSON_ARRAY:
            addc(b, '[');
            for(json_node_t *k = n->child; k; k = k->next) canon_node(k, n, b);
            addc(b, ']');
            break;
        case JSON_OBJECT:
            addc(b, '{');
            for(json_node_t *k = n->child; k; k = k->next){
                MC_CHECK(k->type == JSON_STRING && k->child && k->parent == n, "tree", "an object holds a non-key");
                addt(b, 'k', k->text.data, k->text.len);
                MC_CHECK(!k->child->next, "tree", "a key has two values");
                canon_node(k->child, k, b);
            }
            addc(b, '}');
            break;
    }
}
// the input, so that it ends where the page ends
static char *pages; static size_t npages = 1 << 16;
static char *at_end(const char *p, size_t n){
    char *q = pages + npages - n;
    memcpy(q, p, n);
    return q;
}
// parse in pieces; 0: one, k>0: cut at k, -1: every byte on its own
static derr_type_t real_parse(const char *p, size_t n, long cut, json_t *j){
    char *q = at_end(p, n);
    json_parser_t ps = json_parser(j);
    derr_t e = E_OK;
    size_t at = 0;
    while(!is_error(e) && at < n){
        size_t l = cut < 0 ? 1 : (cut && at < (size_t)cut) ? (size_t)cut : n - at;
        dstr_t d; DSTR_WRAP(d, q + at, l, false);
        e = json_parse_chunk(&ps, d);
        at += l;
    }
    if(!is_error(e)) e = json_parse_finish(&ps);
    derr_type_t t = e.type;
    DROP_VAR(&e);
    return t;
}
// compare with the reference; true: valid
static sb_t cref, creal;
static bool check_parse(const char *p, size_t n, long cut, json_t *j, val_t *v, bool ok){
    derr_type_t t = real_parse(p, n, cut, j);
    if(!ok){
        MC_CHECK(t == E_PARAM, "accepted", "not JSON, but parsed (%s, cut %ld): %s", t == E_NONE ? "ok" : "odd error", cut, show(p, n));
        MC_CHECK(j->root.error, "root", "a failed parse left a root");
        return false;
    }
    MC_CHECK(t == E_NONE, "rejected", "valid JSON was rejected (cut %ld): %s", cut, show(p, n));
    MC_CHECK(!j->root.error && j->root.node, "root", "no root after a parse");
    cref.n = creal.n = 0;
    canon(v, &cref); canon_node(j->root.node, NULL, &creal);
    MC_CHECK(cref.n == creal.n && !memcmp(cref.p, creal.p, cref.n), "value", "%s (cut %ld) parsed to %s, not to %s", show(p, n), cut, show(creal.p, creal.n), show(cref.p, cref.n));
    return true;
}
static long o_cuts;
static int o_stride;
static void check_text(const char *p, size_t n){
    val_t v;
    bool ok = ref_parse(p, n, &v);
    json_t j; json_prep(&j);
    for(long c = -1; c < (long)n; c++){
        if(c > 0 && !o_cuts) break;
        check_parse(p, n, c, &j, &v, ok);
        json_free(&j);
    }
    if(ok) mc_outcome(mc_hash(1, cref.p, cref.n));
    vfree(&v);
}

// ------------------------------------------------------------ texts (tokens)
static const char *SETS[][24] = {
    // single bytes: structure and numbers
    { "{", "}", "[", "]", ":", ",", "\"", "-", "0", "7", ".", "e", "+", " ", "a", NULL },
    // whole tokens
    { "{", "}", "[", "]", ":", ",", "\"\"", "\"a\"", "\"\\u0062\"", "0", "-1.5e+2", "true", "null", "false", "\n", NULL },
    // inside a string
    { "\"", "\\", "u", "d", "8", "0", "C", "n", "/", "\x1f", "\x7f", "\x80", "\xff", "\0x", "g", NULL },
    // words
    { "t", "r", "u", "e", "f", "a", "l", "s", "n", "[", "]", ",", " ", NULL },
    // numbers
    { "-", "+", "0", "1", "9", ".", "e", "E", " ", "\t", ",", "[", "]", NULL },
};
static const char *const *set; static int nset;
static void sweep(sb_t *b, int left, const char *tail){
    size_t n = b->n, tl = strlen(tail);
    add(b, tail, tl); check_text(b->p, b->n); mc_case(1); b->n = n;
    if(!left) return;
    for(int i = 0; i < nset; i++){
        add(b, set[i], set[i][0] ? strlen(set[i]) : 1);
        sweep(b, left - 1, tail);
        b->n = n;
    }
}
static void run_text(void){
    int s = (int)mc_opt("set", 0), len = (int)mc_opt("len", 5);
    set = SETS[s];
    for(nset = 0; set[nset]; nset++);
    const char *tail = s == 2 ? "\"" : "";
    sb_t b = {0};
    adds(&b, s == 2 ? "\"" : "");
    // the first two tokens are choices, the rest is a loop
    int a = (int)mc_choose((unsigned)nset + 1, "first token");
    if(a == nset){ sweep(&b, 0, tail); sweep(&b, 0, ""); free(b.p); return; }
    add(&b, set[a], set[a][0] ? strlen(set[a]) : 1);
    int c = (int)mc_choose((unsigned)nset + 1, "second token");
    if(c == nset){ sweep(&b, 0, tail); free(b.p); return; }
    add(&b, set[c], set[c][0] ? strlen(set[c]) : 1);
    sweep(&b, len - 2, tail);
    free(b.p);
}

// all \u escapes, all surrogate pairs, all bytes and escapes in a string
static void run_unicode(void){
    unsigned hi = mc_choose(258, "block");
    char t[64];
    if(hi < 256) for(unsigned lo = 0; lo < 256; lo++){
        unsigned u = hi * 256 + lo;
        sprintf(t, "\"\\u%04x\"", u); check_text(t, strlen(t));
        sprintf(t, "\"x\\u%04Xy\"", u); check_text(t, strlen(t));
        // as a second half, and followed by a second half
        sprintf(t, "\"\\ud83d\\u%04x\"", u); check_text(t, strlen(t));
        sprintf(t, "\"\\u%04x\\udc00\"", u); check_text(t, strlen(t));
        // as the first half of every second half at the edges
        if(u >= 0xD800 && u < 0xDC00)
            for(unsigned l = 0xDC00; l < 0xE000; l += o_cuts ? 1 : 0x1ff){ sprintf(t, "\"\\u%04x\\u%04x\"", u, l); check_text(t, strlen(t)); }
        char r[] = { '"', (char)hi, (char)lo, '"' };
        check_text(r, 4);
        char q[] = { '"', '\\', (char)hi, (char)lo, '"' };
        check_text(q, 5);
        char w[] = { (char)hi, (char)lo };
        check_text(w, 2);
        char x[] = { '[', (char)hi, ']', (char)lo };
        check_text(x, 4);
        mc_case(8);
    }
}

// ---------------------------------------------------- memory: all block sizes
static void run_mem(void){
    static const char *docs[] = {
        "[]", "\"abcdef\"", "{\"a\":\"bc\",\"\":\"d\",\"e\":[]}", "[1,22,333,\"4444\",\"\",null,true]", "[[[[[[1]]]]],{\"k\":{\"k\":{\"k\":-0.5e7}}}]", "[\"\",\"\",\"\",0]", "  12345678  ", "\"\\ud83d\\ude00\\u00e9\"", "[\"ab\",}", "{\"a\":1", "" };
    sb_t big = {0};
    int d = (int)mc_choose(sizeof(docs) / sizeof(*docs) + 2, "document");
    long step = 1;
    if(d < (int)(sizeof(docs) / sizeof(*docs))) adds(&big, docs[d]);
    else {
        // many nodes, or texts around the size of a text block
        // (stride: which of the sizes)
        int k = (int)mc_choose(200 / o_stride, "size") * o_stride;
        if(d == (int)(sizeof(docs) / sizeof(*docs))){
            addc(&big, '[');
            for(int i = 0; i < k; i++) adds(&big, i ? i % 3 ? ",\"x\"" : ",{\"k\":[]}" : "7");
            addc(&big, ']');
        }else{
            static const size_t base[] = { 4080, 8170, 2040, 1 };
            adds(&big, "[\"");
            for(size_t i = 0; i < base[k / 50] + (size_t)(k % 50); i++) addc(&big, (char)('a' + i % 26));
            adds(&big, "\",\"");
            for(int i = 0; i < 33; i++) addc(&big, (char)('A' + i % 26));
            adds(&big, "\",\"");
            for(size_t i = 0; i < 4090; i++) addc(&big, (char)('a' + i % 26));
            adds(&big, "\"]");
        }
        step = o_stride > 1 ? 97 : 37;
    }
    val_t v;
    bool ok = ref_parse(big.p, big.n, &v);
    // heap only, used twice
    json_t j; json_prep(&j);
    for(int i = 0; i < 2; i++){ check_parse(big.p, big.n, -1, &j, &v, ok); json_free(&j); }
    size_t need = 0, nodes = 0;
    cref.n = 0; canon(&v, &cref);
    need = big.n;               // more than enough
    for(size_t i = 0; i < big.n; i++) nodes += strchr("[{\",:0123456789tfn", big.p[i]) != NULL;
    json_node_t *mem = malloc(sizeof(*mem) * (nodes + 2));
    for(size_t tn = 0; tn <= need + 1; tn += (size_t)(tn < 64 ? 1 : step * 8)) for(size_t nn = 0; nn <= nodes + 1; nn += (size_t)(nn < 16 ? 1 : step)) for(int fixed = 0; fixed < 2; fixed++) for(int grow = 0; grow < 3; grow++){
        // grow: the given text may be a fixed buffer, a heap buffer or none
        dstr_t text;
        char *tb = malloc(tn + 1);
        if(grow == 0){ DSTR_WRAP(text, tb, 0, false); text.size = tn; text.fixed_size = true; }
        else { derr_t e = dstr_new(&text, tn); if(is_error(e)) mc_error("oom"); }
        json_prep_preallocated(&j, grow == 2 ? NULL : &text, mem, nn, fixed);
        for(int i = 0; i < 2; i++){
            derr_type_t t = E_NONE;
            if(fixed && grow != 1){
                t = real_parse(big.p, big.n, 0, &j);
                if(t == E_FIXEDSIZE){
                    MC_CHECK(!(tn >= need && nn >= nodes && grow == 0), "fixed-enough", "E_FIXEDSIZE although the memory suffices: %s", show(big.p, big.n));
                }else{
                    MC_CHECK((t == E_NONE) == ok, "fixed-result", "parse with fixed memory: %s", show(big.p, big.n));
                    if(ok){
                        creal.n = 0; canon_node(j.root.node, NULL, &creal);
                        MC_CHECK(cref.n == creal.n && !memcmp(cref.p, creal.p, cref.n), "value", "with %zu bytes and %zu nodes, %s parsed to %s", tn, nn, show(big.p, big.n), show(creal.p, creal.n));
                    }
                }
            }else if(!fixed){
                check_parse(big.p, big.n, 0, &j, &v, ok);
            }
            json_free(&j);
        }
        if(grow != 0) dstr_free(&text);
        free(tb);
        mc_case(1);
    }
    free(mem); vfree(&v); free(big.p);
}

// ----------------------------------------------------------------- writing
typedef struct jv_t { int kind; struct jv_t *kid[3]; int nkid; } jv_t;
// the value of each leaf kind, and how it is written
#define NLEAF 15
static const char *KEYS[] = { "a", "", "k\"\\\n\x01\xc3\xa9" };
static void leaf_val(int k, val_t *v){
    *v = (val_t){0};
    #define S(str) do{ v->t = V_STR; add(&v->s, str, sizeof(str) - 1); } while(0)
    #define N(str) do{ v->t = V_NUM; add(&v->s, str, sizeof(str) - 1); } while(0)
    switch(k){
        case 0: v->t = V_NULL; break;
        case 1: v->t = V_TRUE; break;
        case 2: v->t = V_FALSE; break;
        case 3: N("-9223372036854775808"); break;
        case 4: N("18446744073709551615"); break;
        case 5: N("0"); break;
        case 6: S(""); break;
        case 7: S("q\"\\/\b\f\n\r\t\x01\x1f\x7f"); break;
        case 8: S("\xc2\x80\xdf\xbf\xe0\xa0\x80\xef\xbf\xbf\xf0\x90\x80\x80\xf4\x8f\xbf\xbf"); break;
        case 9: S("a\0b"); break;
        case 10: S("x\"y-7 \xc3\xa9"); break;
        case 11: N("-1"); break;
        case 12: v->t = V_ARR; break;
        case 13: v->t = V_OBJ; break;
        case 14: S("plain"); break;
    }
}
static val_t *mkval(const jv_t *j, val_t *v){
    if(j->kind < NLEAF){ leaf_val(j->kind, v); return v; }
    *v = (val_t){ .t = j->kind == NLEAF + 2 ? V_OBJ : V_ARR };
    for(int i = 0; i < j->nkid; i++){
        sb_t k = {0}; adds(&k, KEYS[i]);
        val_t *w = vkid(v, &k);
        free(k.p);
        mkval(j->kid[i], w);
    }
    return v;
}
typedef struct {
    union { _jdump_int_t i; _jdump_uint_t u; _jdump_dstr_t d; _jdump_str_t s; _jdump_strn_t sn; _jdump_arr_t a; _jdump_list_t l; _jdump_obj_t o; _jdump_fmt_t f; jdump_i n; } u;
    jdump_i *items[8]; jdump_kvp_t kvps[8]; int n;
} jd_t;
static derr_type_t list_items(void *data, jdump_list_i *it){
    jd_t *d = data;
    for(int i = 0; i < d->n; i++){ derr_type_t t = it->item(it, d->items[i]); if(t) return t; }
    return E_NONE;
}
static jd_t pool[64]; static int npool;
static const fmt_i *fargs[3]; static _fmt_dstr_t farg0; static _fmt_int_t farg1;
static jdump_i *mkdump(const jv_t *j){
    jd_t *d = &pool[npool++];
    switch(j->kind){
        case 0: d->u.n = (jdump_i){ _jdump_null }; return &d->u.n;
        case 1: d->u.n = (jdump_i){ _jdump_true }; return &d->u.n;
        case 2: d->u.n = (jdump_i){ _jdump_false }; return &d->u.n;
        case 3: d->u.i = (_jdump_int_t){ {_jdump_int}, INTMAX_MIN }; return &d->u.i.iface;
        case 4: d->u.u = (_jdump_uint_t){ {_jdump_uint}, UINTMAX_MAX }; return &d->u.u.iface;
        case 5: d->u.i = (_jdump_int_t){ {_jdump_int}, 0 }; return &d->u.i.iface;
        case 6: d->u.s = (_jdump_str_t){ {_jdump_str}, "" }; return &d->u.s.iface;
        case 7: d->u.s = (_jdump_str_t){ {_jdump_str}, "q\"\\/\b\f\n\r\t\x01\x1f\x7f" }; return &d->u.s.iface;
        case 8: d->u.d = (_jdump_dstr_t){ {_jdump_dstr}, DSTR_LIT("\xc2\x80\xdf\xbf\xe0\xa0\x80\xef\xbf\xbf\xf0\x90\x80\x80\xf4\x8f\xbf\xbf") }; return &d->u.d.iface;
        case 9: d->u.sn = (_jdump_strn_t){ {_jdump_strn}, "a\0bc", 3 }; return &d->u.sn.iface;
        case 10:
            farg0 = (_fmt_dstr_t){ {_fmt_dstr}, DSTR_LIT("\"y") }; farg1 = (_fmt_int_t){ {_fmt_int}, -7 };
            fargs[0] = &farg0.iface; fargs[1] = &farg1.iface;
            d->u.f = (_jdump_fmt_t){ {_jdump_fmt}, "x%x%x \xc3\xa9", fargs, 2 }; return &d->u.f.iface;
        case 11: d->u.i = (_jdump_int_t){ {_jdump_int}, -1 }; return &d->u.i.iface;
        case 12: d->u.a = (_jdump_arr_t){ {_jdump_arr}, NULL, 0 }; return &d->u.a.iface;
        case 13: d->u.o = (_jdump_obj_t){ {_jdump_obj}, NULL, 0 }; return &d->u.o.iface;
        case 14: d->u.d = (_jdump_dstr_t){ {_jdump_snippet}, DSTR_LIT("\"plain\"") }; return &d->u.d.iface;
    }
    // absent items are skipped
    for(int i = 0; i < j->nkid; i++){
        if(i) { d->items[d->n] = NULL; d->kvps[d->n] = (jdump_kvp_t){ DSTR_LIT("absent"), NULL }; d->n++; }
        dstr_t k; DSTR_WRAP(k, (char*)KEYS[i], strlen(KEYS[i]), true);
        d->items[d->n] = mkdump(j->kid[i]);
        d->kvps[d->n] = (jdump_kvp_t){ k, d->items[d->n] };
        d->n++;
    }
    if(j->kind == NLEAF){ d->u.a = (_jdump_arr_t){ {_jdump_arr}, d->items, (size_t)d->n }; return &d->u.a.iface; }
    if(j->kind == NLEAF + 1){ d->u.l = (_jdump_list_t){ {_jdump_list}, list_items, d }; return &d->u.l.iface; }
    d->u.o = (_jdump_obj_t){ {_jdump_obj}, d->kvps, (size_t)d->n }; return &d->u.o.iface;
}
static jv_t jvs[64]; static int njv;
static jv_t *gen(int depth, int width){
    jv_t *j = &jvs[njv++];
    *j = (jv_t){0};
    j->kind = (int)mc_choose(depth ? NLEAF + 3 : NLEAF, "kind");
    if(j->kind >= NLEAF){
        j->nkid = 1 + (int)mc_choose((unsigned)width, "items");
        for(int i = 0; i < j->nkid; i++) j->kid[i] = gen(depth - 1, width);
    }
    return j;
}
static void fdump_check(json_t *j, const val_t *v){
    char *p = NULL; size_t n = 0;
    FILE *f = open_memstream(&p, &n);
    derr_t e = json_fdump(j->root, f);
    fclose(f);
    derr_type_t t = e.type; DROP_VAR(&e);
    MC_CHECK(t == E_NONE, "fdump", "json_fdump failed");
    json_t k; json_prep(&k);
    check_parse(p, n, 0, &k, (val_t*)v, true);
    json_free(&k);
    free(p);
}
static void run_write(void){
    njv = 0;
    jv_t *j = gen((int)mc_opt("depth", 2), (int)mc_opt("width", 2));
    val_t v; mkval(j, &v);
    for(int indent = 0; indent < 4; indent += indent ? 2 : 1){
        memset(pool, 0, sizeof(pool)); npool = 0;
        jdump_i *d = mkdump(j);
        dstr_t out = {0};
        derr_t e = jdump(d, WD(&out), indent);
        derr_type_t t = e.type; DROP_VAR(&e);
        MC_CHECK(t == E_NONE, "write-fails", "jdump failed");
        json_t p; json_prep(&p);
        check_parse(out.data, out.len, 0, &p, &v, true);
        fdump_check(&p, &v);
        json_free(&p);
        // to a FILE
        char *fp = NULL; size_t fn = 0;
        FILE *f = open_memstream(&fp, &fn);
        e = jdump(d, WF(f), indent);
        fclose(f);
        t = e.type; DROP_VAR(&e);
        MC_CHECK(t == E_NONE && fn == out.len && !memcmp(fp, out.data, fn), "write-file", "writing to a file gives something else");
        free(fp);
        // every buffer size: all or an error
        for(size_t z = 0; z <= out.len + 2; z++){
            if(z > 40 && z + 40 < out.len) continue;
            char *b = at_end("", 0) - z;
            dstr_t fd; DSTR_WRAP(fd, b, 0, false); fd.size = z; fd.fixed_size = true;
            e = jdump(d, WD(&fd), indent);
            t = e.type; DROP_VAR(&e);
            // a terminating NUL may be wanted as well
            if(t == E_NONE) MC_CHECK(fd.len == out.len && !memcmp(fd.data, out.data, out.len), "truncated", "jdump into %zu bytes gave %zu of %zu without an error", z, fd.len, out.len);
            else MC_CHECK(t == E_FIXEDSIZE && z < out.len + 1, "fixed-enough", "jdump of %zu bytes into %zu fails", out.len, z);
        }
        dstr_free(&out);
        mc_case(1);
    }
    cref.n = 0; canon(&v, &cref);
    mc_outcome(mc_hash(1, cref.p, cref.n));
    vfree(&v);
}
// independent UTF-8 validity
static bool valid8(const unsigned char *p, size_t n){
    for(size_t i = 0; i < n;){
        unsigned u = p[i], lo, need;
        if(u < 0x80){ i++; continue; }
        if(u >= 0xC0 && u < 0xE0){ need = 1; lo = 0x80; u &= 31; }
        else if(u >= 0xE0 && u < 0xF0){ need = 2; lo = 0x800; u &= 15; }
        else if(u >= 0xF0 && u < 0xF8){ need = 3; lo = 0x10000; u &= 7; }
        else return false;
        if(n - i <= need) return false;
        for(unsigned k = 1; k <= need; k++){ if((p[i + k] & 0xC0) != 0x80) return false; u = u * 64 + (p[i + k] & 63u); }
        if(u < lo || u > 0x10FFFF || (u >= 0xD800 && u < 0xE000)) return false;
        i += need + 1;
    }
    return true;
}
static void check_write_str(const char *s, size_t n){
    bool ok = valid8((const unsigned char*)s, n);
    for(int how = 0; how < 4; how++){
        char *q = at_end(s, n);
        dstr_t d; DSTR_WRAP(d, q, n, false);
        DSTR_VAR(out, 512);
        derr_type_t t;
        if(how == 0){ t = jdump_quiet(DD(d), WD(&out), 0); }
        else if(how == 1){ t = jdump_quiet(DFMT("%x", FD(d)), WD(&out), 0); }
        else if(how == 2){
            // a sequence cut by the formatter is put together again
            dstr_t a, b; DSTR_WRAP(a, q, n / 2, false); DSTR_WRAP(b, q + n / 2, n - n / 2, false);
            t = jdump_quiet(DFMT("%x%x%x", FD(a), FS(""), FD(b)), WD(&out), 0);
        }
        else{ t = FMT_QUIET(&out, "\"%x\"", FD_JSON(d)); }
        MC_CHECK((t == E_NONE) == ok, ok ? "write-rejected" : "write-invalid", "writing the string %s (%s UTF-8) %s: %s", show(s, n), ok ? "valid" : "invalid", t ? "fails" : "succeeds", show(out.data, out.len));
        if(!ok) continue;
        val_t v;
        MC_CHECK(ref_parse(out.data, out.len, &v) && v.t == V_STR && v.s.n == n && !memcmp(v.s.p, s, n), "write-value", "the string %s was written as %s", show(s, n), show(out.data, out.len));
        json_t j; json_prep(&j);
        check_parse(out.data, out.len, 0, &j, &v, true);
        json_free(&j);
        vfree(&v);
    }
    mc_case(1);
}
static void run_wstr(void){
    // all code points, all byte strings of 1-2 bytes and, around multi-byte
    // sequences, of 3-4 bytes
    unsigned b = mc_choose(256, "block");
    for(unsigned i = 0; i < 0x1100; i++){
        unsigned u = b * 0x1100 + i;
        sb_t s = {0};
        utf8(&s, u);
        check_write_str(s.p, s.n);
        free(s.p);
    }
    static const unsigned char tails[] = { 0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xff };
    unsigned char t[4] = { (unsigned char)b };
    check_write_str((char*)t, 1);
    for(unsigned i = 0; i < 256; i++){
        t[1] = (unsigned char)i;
        check_write_str((char*)t, 2);
        for(unsigned k = 0; k < sizeof(tails); k++){
            t[2] = tails[k];
            check_write_str((char*)t, 3);
            for(unsigned l = 0; l < sizeof(tails); l++){ t[3] = tails[l]; check_write_str((char*)t, 4); }
        }
    }
}

// ------------------------------------------------------------------- shapes
typedef enum { P_DREF, P_DCPY, P_BOOL, P_I, P_U, P_LL, P_ULL, P_XS, P_XD, P_XSN, P_PTR, P_NLEAF, P_OPT = P_NLEAF, P_TUP, P_LIST, P_MAP, P_OBJ, P_N } pk_e;
typedef struct spec_t {
    int k; struct spec_t *sub[2]; int nsub; bool extras, optkey[2];
    // the real one
    union { jspec_dstr_t d; jspec_bool_t b; jspec_toi_t i; jspec_tou_t u; jspec_toll_t ll; jspec_toull_t ull; jspec_xstr_t xs; jspec_xdstr_t xd; jspec_xstrn_t xsn; jspec_jptr_t p; jspec_optional_t opt; jspec_tuple_t tup; jspec_list_t list; jspec_map_t map; jspec_object_t obj; } u;
    jspec_t *js, *items[2]; _jkey_t keys[2];
    dstr_t d; bool b, nonnull, present[2]; int i; unsigned un; long long ll; unsigned long long ull; json_ptr_t ptr;
    long nread;
} spec_t;
static spec_t sps[64]; static int nsp;
static spec_t *gen_spec(int depth){
    spec_t *s = &sps[nsp++];
    *s = (spec_t){0};
    s->k = (int)mc_choose(depth ? P_N : P_NLEAF, "spec");
    if(s->k == P_OPT || s->k == P_LIST || s->k == P_MAP) s->nsub = 1;
    if(s->k == P_TUP) s->nsub = (int)mc_choose(3, "items");
    if(s->k == P_OBJ){
        s->nsub = (int)mc_choose(3, "keys");
        s->extras = mc_choose(2, "extras");
        for(int i = 0; i < s->nsub; i++) s->optkey[i] = mc_choose(2, "optional");
    }
    for(int i = 0; i < s->nsub; i++) s->sub[i] = gen_spec(depth - 1);
    return s;
}
static jspec_t *mkspec(spec_t *s);
static derr_t rd_item(jctx_t *ctx, size_t index, void *data){
    spec_t *s = data;
    MC_CHECK((long)index == s->nread, "index", "item %zu instead of %ld", index, s->nread);
    s->nread++;
    return jctx_read(ctx, mkspec(s->sub[0]));
}
static sb_t mapkeys;
static derr_t rd_kvp(jctx_t *ctx, const dstr_t key, size_t index, void *data){
    add(&mapkeys, key.data, key.len); addc(&mapkeys, ';');
    return rd_item(ctx, index, data);
}
// fresh, as the real ones are meant to be used once
static jspec_t *mkspec(spec_t *s){
    s->nread = 0;
    switch(s->k){
        case P_DREF: case P_DCPY:
            if(s->k == P_DCPY) dstr_free(&s->d);
            s->d = (dstr_t){0};
            s->u.d = (jspec_dstr_t){ { jspec_dstr_read }, &s->d, s->k == P_DCPY }; return &s->u.d.jspec;
        case P_BOOL: s->u.b = (jspec_bool_t){ { jspec_bool_read }, &s->b }; return &s->u.b.jspec;
        case P_I: s->u.i = (jspec_toi_t){ { jspec_toi_read }, &s->i }; return &s->u.i.jspec;
        case P_U: s->u.u = (jspec_tou_t){ { jspec_tou_read }, &s->un }; return &s->u.u.jspec;
        case P_LL: s->u.ll = (jspec_toll_t){ { jspec_toll_read }, &s->ll }; return &s->u.ll.jspec;
        case P_ULL: s->u.ull = (jspec_toull_t){ { jspec_toull_read }, &s->ull }; return &s->u.ull.jspec;
        case P_XS: s->u.xs = (jspec_xstr_t){ { jspec_xstr_read }, "a" }; return &s->u.xs.jspec;
        case P_XD: s->u.xd = (jspec_xdstr_t){ { jspec_xdstr_read }, DSTR_LIT("a") }; return &s->u.xd.jspec;
        case P_XSN: s->u.xsn = (jspec_xstrn_t){ { jspec_xstrn_read }, "a\0bX", 3 }; return &s->u.xsn.jspec;
        case P_PTR: s->u.p = (jspec_jptr_t){ { jspec_jptr_read }, &s->ptr }; return &s->u.p.jspec;
        case P_OPT: s->u.opt = (jspec_optional_t){ { jspec_optional_read }, &s->nonnull, mkspec(s->sub[0]) }; return &s->u.opt.jspec;
        case P_TUP:
            for(int i = 0; i < s->nsub; i++) s->items[i] = mkspec(s->sub[i]);
            s->u.tup = (jspec_tuple_t){ { jspec_tuple_read }, s->items, (size_t)s->nsub }; return &s->u.tup.jspec;
        case P_LIST: s->u.list = (jspec_list_t){ { jspec_list_read }, rd_item, s }; return &s->u.list.jspec;
        case P_MAP: s->u.map = (jspec_map_t){ { jspec_map_read }, rd_kvp, s }; return &s->u.map.jspec;
    }
    for(int i = 0; i < s->nsub; i++){
        s->present[i] = i; // must be set either way
        s->keys[i] = (_jkey_t){ .key = i ? DSTR_LIT("b") : DSTR_LIT("a"), .value = mkspec(s->sub[i]), .present = s->optkey[i] ? &s->present[i] : NULL };
    }
    s->u.obj = (jspec_object_t){ { jspec_object_read }, s->keys, (size_t)s->nsub, s->extras }; return &s->u.obj.jspec;
}
// does the value have the shape?  1 yes, 0 no, 2 undecided (-0 as unsigned)
static int both(int a, int b){ return !a || !b ? 0 : a == 2 || b == 2 ? 2 : 1; }
static int integer(const val_t *v, bool sgn, int bits){
    if(v->t != V_NUM) return 0;
    const char *p = v->s.p; bool neg = *p == '-';
    if(strpbrk(p, ".eE")) return 0;
    p += neg;
    if(strlen(p) > 25) return 0;
    unsigned __int128 m = 0;
    for(; *p; p++) m = m * 10 + (unsigned)(*p - '0');
    if(neg && !m) return sgn ? 1 : 2;
    if(neg && !sgn) return 0;
    unsigned __int128 top = (unsigned __int128)1 << (sgn ? bits - 1 : bits);
    return neg ? m <= top : m < top;
}
static bool is_str(const val_t *v, const char *s, size_t n){ return v->t == V_STR && v->s.n == n && !memcmp(v->s.p, s, n); }
static int matches(const spec_t *s, const val_t *v){
    switch(s->k){
        case P_DREF: case P_DCPY: return v->t == V_STR;
        case P_BOOL: return v->t == V_TRUE || v->t == V_FALSE;
        case P_I: return integer(v, true, 32);
        case P_U: return integer(v, false, 32);
        case P_LL: return integer(v, true, 64);
        case P_ULL: return integer(v, false, 64);
        case P_XS: case P_XD: return is_str(v, "a", 1);
        case P_XSN: return is_str(v, "a\0b", 3);
        case P_PTR: return 1;
        case P_OPT: return v->t == V_NULL ? 1 : matches(s->sub[0], v);
        case P_TUP: {
            if(v->t != V_ARR || v->nkid != s->nsub) return 0;
            int r = 1;
            for(int i = 0; i < s->nsub; i++) r = both(r, matches(s->sub[i], &v->kid[i]));
            return r;
        }
        case P_LIST: case P_MAP: {
            if(v->t != (s->k == P_LIST ? V_ARR : V_OBJ)) return 0;
            int r = 1;
            for(int i = 0; i < v->nkid; i++) r = both(r, matches(s->sub[0], &v->kid[i]));
            return r;
        }
    }
    if(v->t != V_OBJ) return 0;
    int r = 1, seen[2] = {0};
    for(int i = 0; i < v->nkid; i++){
        int k = v->key[i].n == 1 ? v->key[i].p[0] - 'a' : -1;
        if(k < 0 || k >= s->nsub){ if(!s->extras) r = 0; continue; }
        if(seen[k]++) r = 0;
        r = both(r, matches(s->sub[k], &v->kid[i]));
    }
    for(int i = 0; i < s->nsub; i++) if(!seen[i] && !s->optkey[i]) r = 0;
    return r;
}
// the outputs after a successful read (only of what was read last)
static void outputs(const spec_t *s, const val_t *v, const json_node_t *n, const char *doc){
    #define OUT(c) MC_CHECK(c, "output", "wrong output of kind %d for %s", s->k, doc)
    switch(s->k){
        case P_DREF: case P_DCPY: OUT(s->d.len == v->s.n && !memcmp(s->d.data ? s->d.data : "", v->s.p, v->s.n)); break;
        case P_BOOL: OUT(s->b == (v->t == V_TRUE)); break;
        case P_I: OUT(s->i == atoll(v->s.p)); break;
        case P_U: OUT(s->un == strtoull(v->s.p, NULL, 10)); break;
        case P_LL: OUT(s->ll == strtoll(v->s.p, NULL, 10)); break;
        case P_ULL: OUT(s->ull == strtoull(v->s.p, NULL, 10)); break;
        case P_PTR: OUT(!s->ptr.error && s->ptr.node == n); break;
        case P_OPT: OUT(s->nonnull == (v->t != V_NULL)); if(s->nonnull) outputs(s->sub[0], v, n, doc); break;
        case P_TUP: {
            const json_node_t *c = n->child;
            for(int i = 0; i < s->nsub; i++, c = c->next) outputs(s->sub[i], &v->kid[i], c, doc);
        } break;
        case P_LIST: case P_MAP: OUT(s->nread == v->nkid); break;
        case P_OBJ: {
            bool seen[2] = {0};
            const json_node_t *c = n->child;
            for(int i = 0; i < v->nkid; i++, c = c->next){
                int k = v->key[i].n == 1 ? v->key[i].p[0] - 'a' : -1;
                if(k < 0 || k >= s->nsub) continue;
                seen[k] = true;
                outputs(s->sub[k], &v->kid[i], c->child, doc);
            }
            for(int i = 0; i < s->nsub; i++) if(s->optkey[i]) OUT(s->present[i] == seen[i]);
        } break;
    }
}
// two lists inside another list share a sub-spec; their counters are theirs
static const char *ATOMS[] = { "null", "true", "false", "\"a\"", "\"\"", "\"a\\u0000b\"", "\"a\\u0000c\"", "\"b\"", "0", "-0", "-1", "1.0", "1e1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456" };
#define NATOM ((int)(sizeof(ATOMS) / sizeof(*ATOMS)))
static char **dl; static int ndl;
static void docadd(const sb_t *b){ dl = realloc(dl, sizeof(char*) * (size_t)(ndl + 1)); dl[ndl++] = strdup(b->p); }
static void mkdocs(void){
    // all atoms; arrays and objects of up to 2-3 of a few atoms; one more level
    for(int i = 0; i < NATOM; i++){ sb_t b = {0}; adds(&b, ATOMS[i]); docadd(&b); free(b.p); }
    static const int few[] = { 0, 1, 3, 8, 5, 10, 18 };
    int nf = 7, lvl0 = ndl;
    (void)lvl0;
    static const char *ks[] = { "\"a\":", "\"b\":", "\"c\":", "\"\":", "\"aa\":" };
    const char *inner[32]; int ni = 0;
    for(int i = 0; i < nf; i++) inner[ni++] = ATOMS[few[i]];
    inner[ni++] = "[]"; inner[ni++] = "{}"; inner[ni++] = "[\"a\"]"; inner[ni++] = "{\"a\":1}"; inner[ni++] = "{\"b\":null}";
    sb_t b = {0};
    docadd((adds(&b, "[]"), &b)); b.n = 0;
    docadd((adds(&b, "{}"), &b)); b.n = 0;
    for(int i = 0; i < ni; i++){
        b.n = 0; adds(&b, "["); adds(&b, inner[i]); adds(&b, "]"); docadd(&b);
        for(int k = 0; k < 5; k++){ b.n = 0; adds(&b, "{"); adds(&b, ks[k]); adds(&b, inner[i]); adds(&b, "}"); docadd(&b); }
        for(int m = 0; m < ni; m++){
            b.n = 0; adds(&b, "["); adds(&b, inner[i]); adds(&b, ","); adds(&b, inner[m]); adds(&b, "]"); docadd(&b);
            for(int k = 0; k < 4; k++) for(int l = 0; l < 3; l++){
                b.n = 0; adds(&b, "{"); adds(&b, ks[k]); adds(&b, inner[i]); adds(&b, ","); adds(&b, ks[l]); adds(&b, inner[m]); adds(&b, "}"); docadd(&b);
            }
        }
        b.n = 0; adds(&b, "["); adds(&b, inner[i]); adds(&b, ",null,"); adds(&b, inner[i]); adds(&b, "]"); docadd(&b);
        b.n = 0; adds(&b, "{\"b\":"); adds(&b, inner[i]); adds(&b, ",\"c\":0,\"a\":"); adds(&b, inner[i]); adds(&b, "}"); docadd(&b);
    }
    free(b.p);
}
static void run_spec(void){
    if(!ndl) mkdocs();
    nsp = 0; memset(sps, 0, sizeof(sps));
    spec_t *s = gen_spec((int)mc_opt("depth", 2));
    for(int i = 0; i < ndl; i++){
        const char *doc = dl[i];
        val_t v;
        if(!ref_parse(doc, strlen(doc), &v)) mc_error("bad document %s", doc);
        json_t j; json_prep(&j);
        check_parse(doc, strlen(doc), 0, &j, &v, true);
        int want = matches(s, &v);
        for(int how = 0; how < 3; how++){
            mapkeys.n = 0;
            jspec_t *js = mkspec(s);
            bool ok = !want;
            derr_t e;
            dstr_t err = {0};
            if(how == 0){ e = jspec_read(js, j.root); ok = e.type == E_NONE; MC_CHECK(e.type == E_NONE || e.type == E_PARAM, "error", "odd error"); DROP_VAR(&e); }
            else{
                e = jspec_read_ex(js, j.root, &ok, how == 1 ? &err : NULL);
                derr_type_t t = e.type; DROP_VAR(&e);
                MC_CHECK(t == E_NONE, "error", "reading %s failed", doc);
                MC_CHECK(how == 2 || ok == (err.len == 0), "message", "%s: %s a message", doc, ok ? "match with" : "mismatch without");
                dstr_free(&err);
            }
            MC_CHECK(want == 2 || ok == (want == 1), "shape", "%s %s, but a read of kind %d says %s", doc, want ? "has the shape" : "does not have the shape", s->k, ok ? "match" : "mismatch");
            if(ok) outputs(s, &v, j.root.node, doc);
            if(ok && s->k == P_MAP){
                sb_t w = {0}; add(&w, "", 0);
                // nested maps append too
                for(int k = 0; k < v.nkid; k++){ add(&w, v.key[k].p, v.key[k].n); addc(&w, ';'); }
                if(s->sub[0]->k < P_NLEAF) MC_CHECK(w.n == mapkeys.n && !memcmp(w.p, mapkeys.p, w.n), "keys", "%s: keys %s", doc, mapkeys.p);
                free(w.p);
            }
        }
        for(int k = 0; k < nsp; k++) if(sps[k].k == P_DCPY){ dstr_free(&sps[k].d); sps[k].d = (dstr_t){0}; }
        json_free(&j);
        mc_outcome((uint64_t)want * 100 + (uint64_t)s->k);
        vfree(&v);
        mc_case(1);
    }
    // a reference to nothing
    json_t j; json_prep(&j);
    bool ok;
    derr_t e = jspec_read_ex(mkspec(s), j.root, &ok, NULL);
    MC_CHECK(e.type == E_PARAM, "noroot", "an unparsed document can be read");
    DROP_VAR(&e);
}

static void init(void){
    pages = mmap(NULL, npages + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(pages + npages, 4096, PROT_NONE);
    o_cuts = mc_opt("cuts", 0);
    o_stride = (int)mc_opt("stride", 1);
}
static void run(void){
    const char *m = mc_opts("mode", "text");
    if(!strcmp(m, "text")) run_text();
    else if(!strcmp(m, "unicode")) run_unicode();
    else if(!strcmp(m, "mem")) run_mem();
    else if(!strcmp(m, "write")) run_write();
    else if(!strcmp(m, "wstr")) run_wstr();
    else if(!strcmp(m, "spec")) run_spec();
    else mc_error("mode");
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "g02_json", .run = run, .init = init, .exec_timeout = 120 };
    return mc_main(argc, argv, &h);
}
