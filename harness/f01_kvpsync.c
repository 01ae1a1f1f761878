/* F01: real kvpsync sender + real receiver over a lossy, duplicating,
   reordering network with restarts of either side; virtual time. */
#include "mc/mc.h"
#include "server/libkvpsync/libkvpsync.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

static uint32_t rnd;
derr_t __wrap_urandom_bytes(dstr_t *out, size_t count);
derr_t __wrap_urandom_bytes(dstr_t *out, size_t count){
    rnd = rnd * 1664525u + 1013904223u;
    uint32_t v = rnd | 0x10000u;
    for(size_t i = 0; i < count; i++) out->data[i] = (char)(v >> (8*(i%4)));
    out->len = count;
    return E_OK;
}

#define MS 1000000ull
#define NK 2
#define NV 3
static const char *KEYS[NK] = {"alpha", "beta"};
static const char *VALS[NV] = {"", "one", "two"};

typedef struct {
    int val;            /* 0: not present */
    xtime_t since;      /* when this value was added */
    bool acked;         /* the ack callback fired for this value */
    bool ever[NV];
    bool cb_live;
    unsigned gen;       /* identifies an add */
} kst_t;

typedef struct { bool is_ack; char b[600]; size_t len; xtime_t born; } held_t;

static struct {
    kvpsync_send_t s; kvpsync_recv_t r;
    xtime_t now;
    kst_t k[NK];
    held_t held[8]; int nheld;
    bool recv_fresh;    /* receiver restarted: acked values may be UNSURE */
    int faults_on;
    bool preflush;      /* the sender's current sync is not flushed at the receiver yet */
    uint32_t cur_sync;
    uint32_t stray_start[8]; int nstray_start; /* STARTs of dead syncs seen since the receiver started */
    bool stray_flush;   /* ... and the FLUSH of such a sync arrived, too */
} g;

static void cb_add(kvpsync_send_t *s, void *data){
    (void)s;
    uintptr_t x = (uintptr_t)data;
    unsigned key = (unsigned)(x & 3), gen = (unsigned)(x >> 2);
    MC_CHECK(g.k[key].val && g.k[key].gen == gen, "cb-after-delete",
        "ack callback for a key version which was deleted or replaced");
    MC_CHECK(g.k[key].cb_live, "cb-twice", "ack callback called twice for one add");
    g.k[key].cb_live = false;
    g.k[key].acked = true;
    mc_log("t=%llu: ack callback for key %u", g.now/MS, key);
}
static void cb_state(kvpsync_send_t *s, bool ok, void *data){ (void)s; (void)ok; (void)data; }

#define MUST(x) do{ derr_t _e = (x); if(_e.type){ mc_fail("unexpected-error", "%s failed", #x); } }while(0)

static void s_add(int key){
    kst_t *k = &g.k[key];
    dstr_t dk, dv;
    DSTR_WRAP(dk, (char*)(uintptr_t)KEYS[key], strlen(KEYS[key]), true);
    DSTR_WRAP(dv, (char*)(uintptr_t)VALS[k->val], strlen(VALS[k->val]), true);
    k->cb_live = true;
    k->gen++;
    kvpsync_send_add_key(&g.s, g.now, dk, dv, cb_add, (void*)(uintptr_t)((k->gen << 2) | (unsigned)key));
}

static int query(const char *key, const dstr_t **outv){
    dstr_t dk; DSTR_WRAP(dk, (char*)(uintptr_t)key, strlen(key), true);
    const dstr_t *v = kvpsync_recv_get_value(&g.r, g.now, dk);
    *outv = v;
    if(v == NULL) return 0;
    if(v == UNSURE) return 1;
    return 2;
}

/* known findings are told apart by the history that leads to them */
static const char *key_for(const char *key){
    if(g.stray_flush) return "stray-start-and-flush";
    if(g.preflush) return "ack-before-flush";
    return key;
}

static void invariants(void){
    uint64_t sh = mc_hash_u(7, g.now);
    for(int i = 0; i < NK; i++){
        const dstr_t *sv;
        sh = mc_hash_u(sh, (uint64_t)query(KEYS[i], &sv)*64 + (uint64_t)g.k[i].val*8 + g.k[i].acked*2 + g.k[i].cb_live);
    }
    mc_note(mc_hash_u(sh, (uint64_t)g.nheld));
    const dstr_t *v;
    for(int i = 0; i < NK; i++){
        kst_t *k = &g.k[i];
        int q = query(KEYS[i], &v);
        if(q == 2){
            bool known = false, cur = false;
            for(int j = 1; j < NV; j++){
                if(!k->ever[j]) continue;
                if(v->len == strlen(VALS[j]) && !memcmp(v->data, VALS[j], v->len)){ known = true; if(j == k->val) cur = true; }
            }
            MC_CHECK(known, "garbage-value", "t=%llu: receiver serves a value never stored for %s", g.now/MS, KEYS[i]);
            if(k->val && k->acked && !cur) mc_soft(key_for("acked-old-value"),
                "t=%llu: receiver serves a replaced value of %s after the new one was acknowledged", g.now/MS, KEYS[i]);
        }
        if(q == 0 && k->val){
            if(k->acked) mc_soft(key_for("acked-then-no"),
                "t=%llu: receiver answers a confident no for %s after acknowledging it", g.now/MS, KEYS[i]);
            if(g.now >= k->since + MIN_RESPONSE) mc_soft(key_for("late-no"), "t=%llu: receiver answers a confident no for %s, stored at %llu, over 15 s ago", g.now/MS, KEYS[i], k->since/MS);
        }
        if(q == 1 && k->val && k->acked && !g.recv_fresh)
            mc_soft(key_for("acked-then-unsure"), "t=%llu: receiver lost the acknowledged value of %s", g.now/MS, KEYS[i]);
    }
    int q = query("never", &v);
    MC_CHECK(q != 2, "garbage-value", "a value is served for a key that never existed");
}

static void hold(bool is_ack, const dstr_t *d){
    if(g.nheld >= 8) mc_error("too many held");
    held_t *h = &g.held[g.nheld++];
    h->is_ack = is_ack; h->len = d->len; memcpy(h->b, d->data, d->len); h->born = g.now;
    mc_log("t=%llu:    (network keeps a copy of this %s)", g.now/MS, is_ack ? "ack" : "update");
}

static void to_sender(const char *b, size_t len){
    dstr_t d; DSTR_WRAP(d, (char*)(uintptr_t)b, len, false);
    kvp_ack_t ack;
    MC_CHECK(kvpsync_ack_read(d, &ack), "wire", "receiver's ack does not parse");
    mc_log("t=%llu:    sender gets ack sync=%x update=%u", g.now/MS, ack.sync_id, ack.update_id);
    kvpsync_send_handle_ack(&g.s, ack, g.now);
}

/* env: 0 deliver, 1 drop, 2 hold (delay), 3 deliver and keep a duplicate */
static void to_receiver(const char *b, size_t len, int faults){
    dstr_t d; DSTR_WRAP(d, (char*)(uintptr_t)b, len, false);
    kvp_update_t u;
    MC_CHECK(kvpsync_update_read(d, &u), "wire", "sender's update does not parse");
    mc_log("t=%llu:    receiver gets %s sync=%x update=%u del=%u expiry=%llu key=%.*s", g.now/MS,
        kvp_update_type_name(u.type), u.sync_id, u.update_id, u.delete_id, u.ok_expiry/MS, u.klen, u.key);
    kvp_ack_t ack;
    MUST(kvpsync_recv_handle_update(&g.r, g.now, u, &ack));
    if(u.type == KVP_UPDATE_START && u.sync_id != g.cur_sync && g.nstray_start < 8)
        g.stray_start[g.nstray_start++] = u.sync_id;
    if(u.type == KVP_UPDATE_FLUSH && u.sync_id != g.cur_sync)
        for(int i = 0; i < g.nstray_start; i++) if(g.stray_start[i] == u.sync_id) g.stray_flush = true;
    if(u.type == KVP_UPDATE_FLUSH && u.sync_id == g.cur_sync) g.preflush = false;
    invariants();
    g.now += 5*MILLISECOND;
    DSTR_VAR(w, 64);
    MUST(kvpsync_ack_write(&ack, &w));
    unsigned f = faults ? mc_dev(4, "ack") : 0;
    if(f == 1){ mc_log("t=%llu:    ack lost", g.now/MS); return; }
    if(f >= 2) hold(true, &w);
    if(f == 2) return;
    to_sender(w.data, w.len);
}

/* one step of the sender's event loop; false if there was nothing to send */
static bool pump(int faults){
    kvpsync_run_t run = kvpsync_send_run(&g.s, g.now);
    if(run.pkt){
        DSTR_VAR(w, 600);
        MUST(kvpsync_update_write(run.pkt, &w));
        mc_log("t=%llu: sender emits %s sync=%x update=%u", g.now/MS,
            kvp_update_type_name(run.pkt->type), run.pkt->sync_id, run.pkt->update_id);
        if(g.cur_sync != run.pkt->sync_id){ g.cur_sync = run.pkt->sync_id; g.preflush = true; }
        unsigned f = faults ? mc_dev(4, "update") : 0;
        if(f == 1){ mc_log("t=%llu:    update lost", g.now/MS); return true; }
        if(f >= 2) hold(false, &w);
        if(f == 2) return true;
        g.now += 5*MILLISECOND;
        to_receiver(w.data, w.len, faults);
        return true;
    }
    MC_CHECK(run.deadline > g.now, "busy-loop", "the sender has nothing to send but wants to run immediately");
    g.now = run.deadline;
    return false;
}

static void restart_sender(void){
    kvpsync_send_free(&g.s);
    MUST(kvpsync_send_init(&g.s, g.now, cb_state, NULL));
    for(int i = 0; i < NK; i++) if(g.k[i].val){
        g.k[i].acked = g.k[i].acked; /* the receiver must keep serving it */
        s_add(i);
    }
}

static void s_del(int key){
    g.k[key].val = 0; g.k[key].acked = false; g.k[key].cb_live = false;
    dstr_t dk; DSTR_WRAP(dk, (char*)(uintptr_t)KEYS[key], strlen(KEYS[key]), true);
    kvpsync_send_delete_key(&g.s, dk);
}

static void op(unsigned o){
    mc_log("t=%llu: op %u", g.now/MS, o);
    switch(o){
        case 0: case 1: case 2: { /* store a value */
            int key = o == 2, val = o == 1 ? 2 : 1;
            kst_t *k = &g.k[key];
            mc_log("    store %s=%s", KEYS[key], VALS[val]);
            if(k->val) s_del(key); /* as the only caller does */
            k->val = val; k->since = g.now; k->acked = false; k->ever[val] = true;
            s_add(key);
            break; }
        case 3: case 4: {
            int key = o == 4;
            mc_log("    delete %s", KEYS[key]);
            s_del(key);
            break; }
        case 5:
            mc_log("    sender restarts");
            restart_sender();
            break;
        case 6:
            mc_log("    receiver restarts");
            kvpsync_recv_free(&g.r);
            MUST(kvpsync_recv_init(&g.r));
            g.recv_fresh = true; g.nstray_start = 0; g.stray_flush = false;
            break;
        case 7:
            mc_log("    6 s pass");
            g.now += 6*SECOND;
            break;
    }
}
#define NOPS 8

static void settle(void){
    xtime_t end = g.now + 60*SECOND;
    for(int i = 0; g.now < end; i++){
        MC_CHECK(i < 4000, "livelock", "the protocol does not settle in a fair network");
        pump(0);
        if(g.now < end) invariants();
    }
    const dstr_t *v;
    for(int i = 0; i < NK; i++){
        kst_t *k = &g.k[i];
        int q = query(KEYS[i], &v);
        if(!k->val) MC_CHECK(q != 2, "deleted-served", "deleted key %s is still served 60 s later", KEYS[i]);
        if(k->val){
            if(!(k->acked && !k->cb_live)) mc_soft(key_for("never-acked"), "key %s was never acknowledged", KEYS[i]);
            if(!(q == 2 && v->len == strlen(VALS[k->val]) && !memcmp(v->data, VALS[k->val], v->len)))
                mc_soft(key_for("not-converged"), "key %s is not served with its value 60 s later (%d)", KEYS[i], q);
        }
    }
    g.recv_fresh = false;
}

static void check_no(void){
    /* with everything settled, absent keys get a confident no */
    const dstr_t *v;
    for(int i = 0; i < NK; i++) if(!g.k[i].val)
        if(query(KEYS[i], &v) != 0) mc_soft(key_for("no-not-ok"), "no confident no for the absent key %s in a settled system", KEYS[i]);
    if(query("never", &v) != 0) mc_soft(key_for("no-not-ok"), "no confident no for an absent key in a settled system");
}

static void deliver_held(int i, int faults){
    held_t h = g.held[i];
    for(int j = i+1; j < g.nheld; j++) g.held[j-1] = g.held[j];
    g.nheld--;
    mc_log("t=%llu: a delayed %s arrives", g.now/MS, h.is_ack ? "ack" : "update");
    if(h.is_ack) to_sender(h.b, h.len);
    else to_receiver(h.b, h.len, faults);
}

static void run(void){
    memset(&g, 0, sizeof(g));
    rnd = 1;
    g.now = 1000*SECOND;
    MUST(kvpsync_send_init(&g.s, g.now, cb_state, NULL));
    MUST(kvpsync_recv_init(&g.r));
    g.recv_fresh = true;
    int steps = (int)mc_opt("steps", 12), ops = (int)mc_opt("ops", 2);
    if(mc_opt("warm", 1)){
        op(0);
        settle();
        while(pump(0)) ;
    }
    for(int i = 0; i < steps; i++){
        /* 0: run the sender; then operations; then delayed packets */
        unsigned n = 1 + (ops ? NOPS : 0);
        unsigned c = mc_choose(n + (unsigned)g.nheld, "step");
        if(c == 0) pump(1);
        else if(c < n){ ops--; op(c-1); }
        else deliver_held((int)(c - n), 1);
        invariants();
    }
    settle();
    pump(0);
    /* stray packets which are still in the network */
    bool stray = g.nheld > 0;
    while(g.nheld){
        unsigned c = mc_choose(1 + (unsigned)g.nheld, "stray");
        if(c == 0) break;
        deliver_held((int)c - 1, 0);
        invariants();
    }
    if(stray){ settle(); }
    while(pump(0)) ;
    invariants();
    g.now += 1;
    pump(0);
    check_no();
    /* much later, when every record of a deletion was dropped */
    g.now += 300*SECOND;
    const dstr_t *v;
    for(int i = 0; i < NK; i++) if(!g.k[i].val)
        MC_CHECK(query(KEYS[i], &v) != 2, "deleted-served", "deleted key %s is served 300 s later", KEYS[i]);
    settle();
    uint64_t h = 0;
    for(int i = 0; i < NK; i++) h = mc_hash_u(h, (uint64_t)g.k[i].val);
    h = mc_hash_u(h, g.now);
    mc_outcome(h);
    kvpsync_send_free(&g.s);
    kvpsync_recv_free(&g.r);
}

int main(int argc, char **argv){
    mc_harness_t h = { .name = "f01_kvpsync", .run = run };
    return mc_main(argc, argv, &h);
}
