// G01: hash map, ordered tree, priority queue and linked list against plain
// arrays: all operation sequences, stateful where the structure is small.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libdstr/libdstr.h"
#include "mc/mc.h"

#define MAXN 700

// ------------------------------------------------------------- ordered tree
typedef struct { int key; int id; bool in; jsw_anode_t node; } tn_t;
DEF_CONTAINER_OF(tn_t, node, jsw_anode_t)
static const void *tget(const jsw_anode_t *n){ return &CONTAINER_OF(n, tn_t, node)->key; }
static tn_t T[64];

static uint64_t shape(jsw_atree_t *t, jsw_anode_t *n, uint64_t h){
    if(n == &t->nil) return mc_hash_u(h, 0x5555);
    h = mc_hash_u(h, (uint64_t)n->level << 32 | (uint64_t)CONTAINER_OF(n, tn_t, node)->key);
    h = shape(t, n->link[0], h);
    return shape(t, n->link[1], h);
}

static int cmpint(const void *a, const void *b){ return *(const int*)a - *(const int*)b; }
static int alt_cmp(const void *a, const void *b){ return *(const int*)a / 10 - *(const int*)b; }

// sorted model
static int tm[64], tmn;
static void tm_add(int k){ tm[tmn++] = k; qsort(tm, (size_t)tmn, sizeof(int), cmpint); }
static bool tm_del(int k){
    for(int i = 0; i < tmn; i++) if(tm[i] == k){
        memmove(tm + i, tm + i + 1, sizeof(int) * (size_t)(tmn - i - 1)); tmn--; return true;
    }
    return false;
}
static int KEY(const jsw_anode_t *p){ return CONTAINER_OF(p, tn_t, node)->key; }

static void tree_check(jsw_atree_t *t, int nkeys, bool dups){
    MC_CHECK((int)jsw_asize(t) == tmn, "size", "size %zu expected %d", jsw_asize(t), tmn);
    jsw_atrav_t tr; int i = 0;
    for(jsw_anode_t *n = jsw_atfirst(&tr, t); n; n = jsw_atnext(&tr), i++){
        MC_CHECK(i < tmn && KEY(n) == tm[i], "forward", "forward traversal differs at %d", i);
        MC_CHECK(CONTAINER_OF(n, tn_t, node)->in, "removed-seen", "removed node still in the tree");
    }
    MC_CHECK(i == tmn, "forward", "forward traversal ends at %d of %d", i, tmn);
    i = tmn;
    for(jsw_anode_t *n = jsw_atlast(&tr, t); n; n = jsw_atprev(&tr)){
        i--;
        MC_CHECK(i >= 0 && KEY(n) == tm[i], "backward", "backward traversal differs");
    }
    MC_CHECK(i == 0, "backward", "backward traversal incomplete");
    for(i = 0; i <= tmn; i++){
        jsw_anode_t *n = jsw_aindex(t, (size_t)i);
        MC_CHECK(i < tmn ? n && KEY(n) == tm[i] : !n, "index", "index %d wrong", i);
        if(n && !dups){
            // from an arbitrary node, both ways, with turns
            jsw_anode_t *m = jsw_atnode(&tr, t, n);
            MC_CHECK(m == n, "atnode", "atnode");
            m = jsw_atnext(&tr);
            MC_CHECK(i + 1 < tmn ? m && KEY(m) == tm[i+1] : !m, "atnode-next", "next of %d", i);
            if(m){ m = jsw_atprev(&tr); MC_CHECK(m == n, "turn", "turn at %d", i); }
            jsw_atnode(&tr, t, n);
            m = jsw_atprev(&tr);
            MC_CHECK(i ? m && KEY(m) == tm[i-1] : !m, "atnode-prev", "prev of %d", i);
        }
    }
    for(int k = -1; k <= nkeys; k++){
        int key = k * 10; size_t idx = 12345;
        jsw_anode_t *n = jsw_afind(t, &key, &idx);
        int less = 0, have = 0;
        for(i = 0; i < tmn; i++){ less += tm[i] < key; have += tm[i] == key; }
        MC_CHECK(have ? n && KEY(n) == key : !n, "find", "find %d", key);
        if(n) MC_CHECK((int)idx >= less && (int)idx < less + have, "find-idx", "index of %d is %zu, expected %d", key, idx, less);
        else MC_CHECK((int)idx == less, "find-idx-missing", "index for missing %d is %zu, expected %d", key, idx, less);
        n = jsw_afind_ex(t, alt_cmp, &k, NULL);
        MC_CHECK(have ? n && KEY(n) == key : !n, "find-ex", "find_ex %d", key);
    }
}

static void run_tree(void){
    int nk = (int)mc_opt("keys", 7), depth = (int)mc_opt("depth", 16);
    bool dups = mc_opt("dups", 0);
    jsw_atree_t t; jsw_ainit(&t, jsw_cmp_int, tget);
    memset(T, 0, sizeof(T)); tmn = 0;
    tree_check(&t, nk, dups);
    int maxn = (int)mc_opt("maxn", 99);
    for(int d = 0; d < depth; d++){
        if(mc_seen(mc_hash_u(shape(&t, t.root, 7), dups))) return;
        unsigned op = mc_choose(6, "op");
        if(op == 0){
            if(tmn >= maxn) return;
            int k = (int)mc_choose((unsigned)nk, "key");
            int slot = -1;
            for(int i = 0; i < 64; i++){ if(T[i].in && T[i].key == k * 10){ if(!dups) slot = -2; } }
            if(slot == -2) return;
            for(int i = 0; i < 64; i++) if(!T[i].in){ slot = i; break; }
            T[slot].key = k * 10; T[slot].in = true;
            jsw_ainsert(&t, &T[slot].node);
            tm_add(k * 10);
        }else if(op == 1){
            int k = (int)mc_choose((unsigned)nk, "key") * 10;
            jsw_anode_t *n = jsw_aerase(&t, &k);
            bool had = tm_del(k);
            MC_CHECK(had ? n && KEY(n) == k : !n, "erase", "erase %d", k);
            if(n){ tn_t *x = CONTAINER_OF(n, tn_t, node); MC_CHECK(x->in, "erase", "erased twice"); x->in = false; }
            if(!had) return;
        }else if(op == 2){
            jsw_anode_t *n = jsw_apop(&t);
            MC_CHECK(!n == !tmn, "pop", "pop");
            if(!n) return;
            MC_CHECK(tm_del(KEY(n)), "pop", "popped a stranger");
            CONTAINER_OF(n, tn_t, node)->in = false;
        }else{
            // traversal which removes a subset on the way, forward or backward
            if(!tmn || dups) return;
            unsigned dir = op - 3;
            if(dir == 2){ // from a node
                unsigned at = mc_choose((unsigned)tmn, "at");
                jsw_atrav_t tr;
                jsw_anode_t *n = jsw_atnode(&tr, &t, jsw_aindex(&t, at));
                MC_CHECK(n && KEY(n) == tm[at], "atnode", "atnode");
                jsw_anode_t *m = jsw_pop_atnext(&tr);
                CONTAINER_OF(n, tn_t, node)->in = false;
                int k = KEY(n); tm_del(k);
                MC_CHECK((int)at < tmn ? m && KEY(m) == tm[at] : !m, "pop-next", "pop_atnext from a node");
            }else{
                unsigned mask = mc_choose(1u << tmn, "mask");
                if(!mask) return;
                jsw_atrav_t tr; int n0 = tmn, i = dir ? n0 - 1 : 0, copy[64];
                memcpy(copy, tm, sizeof(copy));
                jsw_anode_t *n = dir ? jsw_atlast(&tr, &t) : jsw_atfirst(&tr, &t);
                for(int c = 0; c < n0; c++, i += dir ? -1 : 1){
                    MC_CHECK(n && KEY(n) == copy[i], "pop-walk", "removing traversal differs at %d", i);
                    if(mask >> i & 1){
                        CONTAINER_OF(n, tn_t, node)->in = false; tm_del(copy[i]);
                        n = dir ? jsw_pop_atprev(&tr) : jsw_pop_atnext(&tr);
                    }else n = dir ? jsw_atprev(&tr) : jsw_atnext(&tr);
                }
                MC_CHECK(!n, "pop-walk", "removing traversal does not end");
            }
        }
        tree_check(&t, nk, dups);
        mc_outcome(mc_hash_u((uint64_t)tmn, op));
    }
}

// ------------------------------------------------------------- heap
typedef struct { int key; bool in; hnode_t node; } hn_t;
DEF_CONTAINER_OF(hn_t, node, hnode_t)
static const void *hget(const hnode_t *n){ return &CONTAINER_OF(n, hn_t, node)->key; }
static hn_t H[64];
static uint64_t hshape(const hnode_t *n, uint64_t h, int depth){
    if(!n || depth > 20) return mc_hash_u(h, 0x77);
    h = mc_hash_u(h, (uint64_t)(n->balance + 100) << 32 | (uint64_t)CONTAINER_OF(n, hn_t, node)->key);
    return hshape(n->children[1], hshape(n->children[0], h, depth + 1), depth + 1);
}
static void run_heap(void){
    int nn = (int)mc_opt("nodes", 7), nk = (int)mc_opt("keys", 4), depth = (int)mc_opt("depth", 20);
    bool max = mc_opt("max", 0);
    heap_t h; memset(&h, 0, sizeof(h)); memset(H, 0, sizeof(H));
    heap_prep(&h, jsw_cmp_int, hget, max);
    int n = 0;
    for(int d = 0; d < depth; d++){
        // drain a copy? not possible in place: check the root and the set
        int best = 0; bool any = false;
        for(int i = 0; i < nn; i++) if(H[i].in && (!any || (max ? H[i].key > best : H[i].key < best))){ best = H[i].key; any = true; }
        hnode_t *p = heap_peek(&h);
        MC_CHECK(any ? p && CONTAINER_OF(p, hn_t, node)->key == best && CONTAINER_OF(p, hn_t, node)->in : !p, "peek",
            "peek gives %d expected %d", p ? CONTAINER_OF(p, hn_t, node)->key : -1, any ? best : -1);
        if(mc_seen(mc_hash_u(hshape(p, 3, 0), max))) return;
        unsigned op = mc_choose(4, "op");
        if(op == 0){
            if(n >= nn) return;
            int k = (int)mc_choose((unsigned)nk, "key"), s = 0;
            while(H[s].in) s++;
            H[s].key = k; H[s].in = true; n++;
            heap_put(&h, &H[s].node);
        }else if(op == 1){
            hnode_t *q = heap_pop(&h);
            MC_CHECK(q == p, "pop", "pop is not peek");
            if(!q) return;
            CONTAINER_OF(q, hn_t, node)->in = false; n--;
            hnode_remove(q); // idempotent
        }else if(op == 2){
            if(!n) return;
            // any node by structure position
            unsigned at = mc_choose((unsigned)nn, "slot");
            if(!H[at].in){ hnode_remove(&H[at].node); return; }
            H[at].in = false; n--;
            hnode_remove(&H[at].node);
            hnode_remove(&H[at].node);
        }else{
            // drain completely: must come in order and be complete
            int last = 0; bool first = true;
            while(n){
                hnode_t *q = heap_pop(&h);
                MC_CHECK(q, "drain", "entries lost");
                hn_t *x = CONTAINER_OF(q, hn_t, node);
                MC_CHECK(x->in, "drain", "entry twice");
                x->in = false; n--;
                MC_CHECK(first || (max ? x->key <= last : x->key >= last), "order", "drained out of order");
                last = x->key; first = false;
                mc_outcome(mc_hash_u((uint64_t)n, (uint64_t)last));
            }
            MC_CHECK(!heap_pop(&h), "drain", "extra entry");
            return;
        }
    }
}

// ------------------------------------------------------------- hash map
typedef struct { bool str; unsigned u; dstr_t d; char txt[24]; int ver; bool in; hash_elem_t e; } he_t;
DEF_CONTAINER_OF(he_t, e, hash_elem_t)
static he_t *E_, *E2;
static int ne;

static void hm_key(he_t *x, int i, bool str){
    memset(x, 0, sizeof(*x));
    x->str = str;
    // spread, colliding and special keys
    x->u = i % 3 == 0 ? (unsigned)i : i % 3 == 1 ? 0xffffffffu - (unsigned)i : (unsigned)i * 4096u;
    if(str){
        int l = snprintf(x->txt, sizeof(x->txt), "k%d", i);
        if(i == 0) l = 0;
        if(i == 1){ x->txt[0] = 0; x->txt[1] = 1; l = 2; }
        DSTR_WRAP(x->d, x->txt, (size_t)l, false);
    }
}
static hash_elem_t *hm_get(hashmap_t *h, he_t *x){ return x->str ? hashmap_gets(h, &x->d) : hashmap_getu(h, x->u); }
static hash_elem_t *hm_set(hashmap_t *h, he_t *x){ return x->str ? hashmap_sets(h, &x->d, &x->e) : hashmap_setu(h, x->u, &x->e); }
static hash_elem_t *hm_del(hashmap_t *h, he_t *x){ return x->str ? hashmap_dels(h, &x->d) : hashmap_delu(h, x->u); }

static void hm_check(hashmap_t *h){
    int total = 0, seen = 0;
    for(int i = 0; i < ne; i++){
        he_t *cur = E_[i].in ? &E_[i] : E2[i].in ? &E2[i] : NULL;
        hash_elem_t *g = hm_get(h, &E_[i]);
        MC_CHECK(cur ? g == &cur->e : !g, "get", "get of key %d", i);
        total += !!cur;
    }
    hashmap_trav_t tr;
    for(hash_elem_t *e = hashmap_iter(&tr, h); e; e = hashmap_next(&tr)){
        he_t *x = CONTAINER_OF(e, he_t, e);
        MC_CHECK(x->in, "iter-removed", "iteration gives a removed entry");
        MC_CHECK(x->ver++ == 0, "iter-twice", "iteration gives an entry twice");
        if(++seen > total) mc_fail("iter-many", "iteration gives too many entries");
    }
    MC_CHECK(seen == total, "iter", "iteration gives %d of %d entries", seen, total);
    for(int i = 0; i < ne; i++) E_[i].ver = E2[i].ver = 0;
}

static void run_hash(void){
    int depth = (int)mc_opt("depth", 3);
    // sizes around every growth step
    static const int pre[] = {0, 1, 2, 3, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 300};
    int np = (int)(sizeof(pre)/sizeof(*pre));
    int n0 = pre[mc_choose((unsigned)np, "prefill")];
    unsigned kind = mc_choose(3, "kind"); // uint, string, both
    ne = n0 + 3;
    E_ = calloc((size_t)ne, sizeof(he_t)); E2 = calloc((size_t)ne, sizeof(he_t));
    for(int i = 0; i < ne; i++){ bool s = kind == 1 || (kind == 2 && i % 2); hm_key(&E_[i], i, s); hm_key(&E2[i], i, s); }
    hashmap_t h;
    derr_t e = hashmap_init(&h);
    if(is_error(e)) mc_error("hashmap_init");
    for(int i = 0; i < n0; i++){ MC_CHECK(!hm_set(&h, &E_[i]), "set", "set of a new key replaced something"); E_[i].in = true; }
    hm_check(&h);
    for(int d = 0; d < depth; d++){
        unsigned op = mc_choose(8, "op");
        // keys: first, second, last present, the three spare ones
        int cand[6] = {0, 1, n0 - 1, n0, n0 + 1, n0 + 2}; 
        int k = cand[mc_choose(6, "key")];
        if(k < 0 || (op >= 4 && op != 6 && k != cand[0] && k != n0)) break;
        he_t *cur = E_[k].in ? &E_[k] : E2[k].in ? &E2[k] : NULL;
        he_t *other = cur == &E_[k] ? &E2[k] : &E_[k];
        if(op == 0){
            hash_elem_t *old = hm_set(&h, other);
            MC_CHECK(old == (cur ? &cur->e : NULL), "set", "replaced entry wrong");
            if(cur) cur->in = false;
            other->in = true;
        }else if(op == 1){
            derr_t r = other->str ? hashmap_sets_unique(&h, &other->d, &other->e) : hashmap_setu_unique(&h, other->u, &other->e);
            MC_CHECK(is_error(r) == !!cur, "set-unique", "unique insert");
            if(is_error(r)){ DROP_VAR(&r); other->e = (hash_elem_t){0}; }
            else other->in = true;
        }else if(op == 2){
            hash_elem_t *old = hm_del(&h, &E_[k]);
            MC_CHECK(old == (cur ? &cur->e : NULL), "del", "deleted entry wrong");
            if(cur) cur->in = false;
        }else if(op == 3){
            if(cur){ hash_elem_remove(&cur->e); cur->in = false; }
            hash_elem_remove(&other->e); // not in the map: no effect
        }else if(op == 4 || op == 5){
            // iterate, removing a pattern
            unsigned pat = mc_choose(4, "pattern"); int c = 0; hashmap_trav_t tr;
            for(hash_elem_t *x = hashmap_iter(&tr, &h); x; x = hashmap_next(&tr), c++){
                MC_CHECK(c < ne, "iter-many", "iteration does not end");
                bool rm = pat == 0 ? true : pat == 1 ? c % 2 == 0 : pat == 2 ? c % 2 : c == 0;
                he_t *y = CONTAINER_OF(x, he_t, e);
                MC_CHECK(y->in && !y->ver, "iter-remove", "iteration with removal gives a wrong entry");
                y->ver = 1;
                if(rm){ hash_elem_remove(x); y->in = false; }
            }
            int tot = 0;
            for(int i = 0; i < ne; i++){ tot += E_[i].ver + E2[i].ver; E_[i].ver = E2[i].ver = 0; }
            MC_CHECK(tot == c, "iter-remove", "entries skipped");
        }else{
            // popping iteration, stopped after some
            int stop = op == 6 ? 100000 : 2, c = 0; hashmap_trav_t tr; int had = 0;
            for(int i = 0; i < ne; i++) had += E_[i].in + E2[i].in;
            hash_elem_t *x = hashmap_pop_iter(&tr, &h);
            for(; x; x = hashmap_pop_next(&tr)){
                he_t *y = CONTAINER_OF(x, he_t, e);
                MC_CHECK(y->in, "pop-iter", "popped a stranger");
                y->in = false; c++;
                MC_CHECK(c <= had, "pop-iter", "too many popped");
                if(c == stop) break;
            }
            MC_CHECK(x || c == had, "pop-iter", "popping iteration left entries");
        }
        hm_check(&h);
        mc_note(mc_hash_u(mc_hash_u((uint64_t)n0 << 8 | (uint64_t)d, op), (uint64_t)k));
    }
    for(int i = 0; i < ne; i++) mc_outcome(mc_hash_u((uint64_t)i, E_[i].in));
    hashmap_free(&h);
    free(E_); free(E2);
}

// ------------------------------------------------------------- linked list
typedef struct { link_t l; } ln_t;
DEF_CONTAINER_OF(ln_t, l, link_t)
static ln_t L[8];
static int lm[2][8], lmn[2]; // model
static void lcheck(link_t *heads, int nl){
    for(int q = 0; q < 2; q++){
        MC_CHECK((int)link_list_count(&heads[q]) == lmn[q], "count", "count");
        MC_CHECK(link_list_isempty(&heads[q]) == (lmn[q] == 0), "isempty", "isempty");
        if(!heads[q].next){ MC_CHECK(lmn[q] == 0, "zero", "zeroized head with entries"); continue; }
        int i = 0;
        for(link_t *l = heads[q].next; l != &heads[q]; l = l->next, i++)
            MC_CHECK(i < lmn[q] && l == &L[lm[q][i]].l, "forward", "list %d differs at %d", q, i);
        MC_CHECK(i == lmn[q], "forward", "list too short");
        for(link_t *l = heads[q].prev; l != &heads[q]; l = l->prev){
            i--;
            MC_CHECK(i >= 0 && l == &L[lm[q][i]].l, "backward", "list %d differs backwards at %d", q, i);
        }
        MC_CHECK(i == 0, "backward", "list too short backwards");
        ln_t *x, *tmp; i = 0;
        LINK_FOR_EACH_SAFE(x, tmp, &heads[q], ln_t, l){ MC_CHECK(i < lmn[q] && x == &L[lm[q][i]], "foreach", "loop"); i++; }
        MC_CHECK(i == lmn[q], "foreach", "loop too short");
    }
    (void)nl;
}
static void ldel(int q, int i){ memmove(&lm[q][i], &lm[q][i+1], sizeof(int) * (size_t)(lmn[q] - i - 1)); lmn[q]--; }
static void lins(int q, int i, int v){ memmove(&lm[q][i+1], &lm[q][i], sizeof(int) * (size_t)(lmn[q] - i)); lm[q][i] = v; lmn[q]++; }
static void run_link(void){
    int nl = (int)mc_opt("links", 4), depth = (int)mc_opt("depth", 12);
    static link_t heads[2]; memset(heads, 0, sizeof(heads)); memset(L, 0, sizeof(L)); lmn[0] = lmn[1] = 0;
    if(mc_choose(2, "zeroized")){ link_init(&heads[0]); link_init(&heads[1]); for(int i = 0; i < nl; i++) link_init(&L[i].l); }
    for(int d = 0; d < depth; d++){
        lcheck(heads, nl);
        uint64_t hs = mc_hash(mc_hash_u((uint64_t)lmn[0] * 16 + (uint64_t)lmn[1], heads[0].next != NULL), lm[0], sizeof(int) * (size_t)lmn[0]);
        hs = mc_hash_u(mc_hash(hs, lm[1], sizeof(int) * (size_t)lmn[1]), heads[1].next != NULL);
        for(int i = 0; i < nl; i++) hs = mc_hash_u(hs, L[i].l.next != NULL);
        if(mc_seen(hs)) return;
        unsigned op = mc_choose(9, "op"); int q = (int)mc_choose(2, "list");
        if(op < 2){
            int v = (int)mc_choose((unsigned)nl, "link");
            bool in = false;
            for(int z = 0; z < 2; z++) for(int i = 0; i < lmn[z]; i++) in |= lm[z][i] == v;
            if(in) return;
            if(op == 0){ link_list_append(&heads[q], &L[v].l); lins(q, lmn[q], v); }
            else{ link_list_prepend(&heads[q], &L[v].l); lins(q, 0, v); }
        }else if(op == 2 || op == 3){
            link_t *l = op == 2 ? link_list_pop_first(&heads[q]) : link_list_pop_last(&heads[q]);
            MC_CHECK(!l == !lmn[q], "pop", "pop");
            if(!l) return;
            int i = op == 2 ? 0 : lmn[q] - 1;
            MC_CHECK(l == &L[lm[q][i]].l, "pop", "popped the wrong link");
            ldel(q, i);
            link_remove(l); // no effect
        }else if(op == 4){
            int v = (int)mc_choose((unsigned)nl, "link");
            link_remove(&L[v].l);
            for(int z = 0; z < 2; z++) for(int i = 0; i < lmn[z]; i++) if(lm[z][i] == v){ ldel(z, i); break; }
        }else if(op == 5 || op == 6){
            if(op == 5){
                link_list_append_list(&heads[q], &heads[!q]);
                while(lmn[!q]){ int v = lm[!q][0]; ldel(!q, 0); lins(q, lmn[q], v); }
            }else{
                link_list_prepend_list(&heads[q], &heads[!q]);
                while(lmn[!q]){ int v = lm[!q][lmn[!q]-1]; lmn[!q]--; lins(q, 0, v); }
            }
        }else{
            // pop from several lists at once, all or nothing; one may repeat
            link_t *a = (link_t*)1, *b = (link_t*)1, *c = (link_t*)1;
            bool first = op == 7;
            bool ok = first
                ? link_list_pop_first_n(LINK_IO(&heads[0], &a), LINK_IO(&heads[q], &b), LINK_IO(&heads[1], &c))
                : link_list_pop_last_n(LINK_IO(&heads[0], &a), LINK_IO(&heads[q], &b), LINK_IO(&heads[1], &c));
            bool exp = q ? lmn[0] >= 1 && lmn[1] >= 2 : lmn[0] >= 2 && lmn[1] >= 1;
            MC_CHECK(ok == exp, "pop-n", "pop_n says %d", ok);
            if(!ok) MC_CHECK(!a && !b && !c, "pop-n", "outputs left set");
            else{
                int seq[3] = {0, q, 1}; link_t *o[3] = {a, b, c};
                for(int i = 0; i < 3; i++){
                    int at = first ? 0 : lmn[seq[i]] - 1;
                    MC_CHECK(o[i] == &L[lm[seq[i]][at]].l, "pop-n", "popped the wrong link");
                    ldel(seq[i], at);
                }
            }
        }
        mc_outcome(mc_hash_u((uint64_t)op, (uint64_t)(lmn[0] * 10 + lmn[1])));
    }
    lcheck(heads, nl);
}

static void run(void){
    const char *m = mc_opts("mode", "tree");
    if(!strcmp(m, "tree")) run_tree();
    else if(!strcmp(m, "heap")) run_heap();
    else if(!strcmp(m, "hash")) run_hash();
    else if(!strcmp(m, "link")) run_link();
    else mc_error("mode");
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "g01_containers", .run = run, .exec_timeout = 20, .set_bits = 24 };
    return mc_main(argc, argv, &h);
}
