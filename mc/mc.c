#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXLEN 8192
#define QCAP 4096
#define TRACECAP 65536
#define MAXJOBS 64
#define MAXKNOWN 64
#define MAXFAIL 8

typedef struct { uint16_t c, n; uint16_t cost; } pt_t;

typedef struct {
    uint32_t len;
    uint16_t c[MAXLEN];
} prefix_t;

/* per-worker shared record: what it is executing, so that a crash can be attributed */
typedef struct {
    _Atomic uint32_t len;
    uint16_t c[MAXLEN];
    char labels[512];
    _Atomic int failed;      /* 1 = violation, 2 = harness error, 3 = known */
    char key[128];
    char msg[4096];
    uint32_t tracelen;
    char trace[TRACECAP];
    _Atomic uint64_t exec_started; /* monotonic ms; 0 = idle */
    _Atomic int finished;
} wrec_t;

typedef struct {
    _Atomic int lock;
    _Atomic int qlen;
    _Atomic int active;      /* workers with work in hand */
    _Atomic int stop;
    _Atomic int timed_out;
    _Atomic uint64_t execs, points, trans, states, prunes, outcomes, trivial, cases, maxlen;
    _Atomic uint64_t known_hits[MAXKNOWN];
    _Atomic uint64_t set_full;
    prefix_t q[QCAP];
    wrec_t w[MAXJOBS];
    char sample[3][2048];
    _Atomic int nsample;
} shm_t;

static shm_t *S;
static _Atomic uint64_t *set_tab, *out_tab;
static uint64_t set_mask;
#define OUT_MASK ((1u<<18)-1)
static const mc_harness_t *H;
static wrec_t *W;
static int widx = -1;

static pt_t pts[MAXLEN];       /* points of the current execution */
static uint32_t npts;
static uint32_t forced;        /* first `forced` choices come from stack */
static unsigned spent, bound = 2;
static bool replaying, verbose, exec_trivial, fresh;
static jmp_buf fail_jmp;
static char scratchdir[256];
static char *optk[64]; static char *optv[64]; static int nopts;
static char *known[MAXKNOWN]; static int nknown;
static const char *propid = "?";
static int no_prune;

static pt_t *mc_shadow_; static uint32_t *mc_shadow_n_;
static void publish(void){
    memcpy(mc_shadow_, pts, npts*sizeof(pt_t)); *mc_shadow_n_ = npts;
}

static uint64_t now_ms(void){
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec*1000 + (uint64_t)ts.tv_nsec/1000000;
}

static void lock(void){
    int z = 0;
    while(!atomic_compare_exchange_weak(&S->lock, &z, 1)){ z = 0; usleep(20); }
}
static void unlock(void){ atomic_store(&S->lock, 0); }

uint64_t mc_hash(uint64_t h, const void *p, size_t n){
    const unsigned char *b = p;
    h ^= 0x9E3779B97F4A7C15ull;
    while(n >= 8){
        uint64_t v; memcpy(&v, b, 8);
        h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; b += 8; n -= 8;
    }
    uint64_t v = n + 1;
    while(n){ v = (v << 8) | *b++; n--; }
    h ^= v; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}

static bool tab_insert(_Atomic uint64_t *t, uint64_t mask, uint64_t h){
    /* true if newly inserted */
    if(h == 0) h = 1;
    uint64_t i = h & mask;
    for(unsigned k = 0; k < 256; k++, i = (i+1) & mask){
        uint64_t cur = atomic_load_explicit(&t[i], memory_order_relaxed);
        if(cur == h) return false;
        if(cur == 0){
            uint64_t z = 0;
            if(atomic_compare_exchange_strong(&t[i], &z, h)) return true;
            if(z == h) return false;
        }
    }
    atomic_fetch_add(&S->set_full, 1);
    return true; /* table full here: treat as new (never prunes wrongly) */
}

bool mc_verbose(void){ return verbose; }

void mc_log(const char *fmt, ...){
    va_list ap;
    if(verbose){
        va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n'); fflush(stdout);
    }
    if(!W || W->tracelen + 2 >= TRACECAP) return;
    va_start(ap, fmt);
    int r = vsnprintf(W->trace + W->tracelen, TRACECAP - W->tracelen - 1, fmt, ap);
    va_end(ap);
    if(r < 0) return;
    W->tracelen += (uint32_t)r;
    if(W->tracelen > TRACECAP - 2) W->tracelen = TRACECAP - 2;
    W->trace[W->tracelen++] = '\n';
}

static void __attribute__((noreturn)) do_fail(int kind, const char *key, const char *fmt, va_list ap){
    strncpy(W->key, key, sizeof(W->key)-1);
    vsnprintf(W->msg, sizeof(W->msg), fmt, ap);
    if(kind == 1){
        for(int i = 0; i < nknown; i++){
            if(strcmp(known[i], key) == 0){
                atomic_fetch_add(&S->known_hits[i], 1);
                kind = 3;
            }
        }
    }
    atomic_store(&W->failed, kind);
    if(H->fork_each && !replaying){ publish(); _exit(77); }
    longjmp(fail_jmp, 1);
}
void mc_fail(const char *key, const char *fmt, ...){
    va_list ap; va_start(ap, fmt); do_fail(1, key, fmt, ap);
}
void mc_soft(const char *key, const char *fmt, ...){
    for(int i = 0; i < nknown; i++){
        if(strcmp(known[i], key) == 0){
            atomic_fetch_add(&S->known_hits[i], 1);
            return;
        }
    }
    va_list ap; va_start(ap, fmt); do_fail(1, key, fmt, ap);
}
void mc_error(const char *fmt, ...){
    va_list ap; va_start(ap, fmt); do_fail(2, "harness", fmt, ap);
}

static unsigned choose(unsigned n, unsigned cost, const char *label){
    if(n == 0) mc_error("mc_choose with no alternatives at %s", label);
    if(npts >= MAXLEN) mc_fail("horizon", "more than %d choice points (livelock?) at %s", MAXLEN, label);
    unsigned c = 0;
    if(npts < forced){
        c = pts[npts].c;
        if(c >= n) mc_error("replay divergence at point %u (%s): choice %u of %u", npts, label, c, n);
        if(!fresh && pts[npts].n && pts[npts].n != n)
            mc_error("replay divergence at point %u (%s): %u alternatives, had %u", npts, label, n, pts[npts].n);
    }
    pts[npts].c = (uint16_t)c; pts[npts].n = (uint16_t)n; pts[npts].cost = (uint16_t)cost;
    W->c[npts] = (uint16_t)c;
    npts++;
    atomic_store_explicit(&W->len, npts, memory_order_relaxed);
    if(c) spent += cost;
    if(verbose && n > 1) printf("  [%u] %s: %u/%u\n", npts-1, label, c, n);
    if(W->tracelen + 80 < TRACECAP && n > 1 && replaying)
        W->tracelen += (uint32_t)snprintf(W->trace + W->tracelen, 80, "  choice %.50s = %u of %u\n", label, c, n);
    return c;
}
unsigned mc_choose(unsigned n, const char *label){ return choose(n, 0, label); }
unsigned mc_dev(unsigned n, const char *label){ return choose(n, 1, label); }
unsigned mc_cost(unsigned n, unsigned cost, const char *label){ return choose(n, cost, label); }
unsigned mc_dev_left(void){ return spent >= bound ? 0 : bound - spent; }

bool mc_seen(uint64_t h){
    atomic_fetch_add_explicit(&S->points, 1, memory_order_relaxed);
    if(npts < forced || replaying) return false;
    h = mc_hash_u(h, mc_dev_left());
    bool isnew = tab_insert(set_tab, set_mask, h);
    if(isnew){ atomic_fetch_add_explicit(&S->states, 1, memory_order_relaxed); return false; }
    if(no_prune) return false;
    atomic_fetch_add_explicit(&S->prunes, 1, memory_order_relaxed);
    return true;
}
void mc_note(uint64_t h){
    atomic_fetch_add_explicit(&S->points, 1, memory_order_relaxed);
    if(npts < forced || replaying) return;
    if(tab_insert(set_tab, set_mask, h)) atomic_fetch_add_explicit(&S->states, 1, memory_order_relaxed);
}
void mc_outcome(uint64_t h){
    if(tab_insert(out_tab, OUT_MASK, h)) atomic_fetch_add(&S->outcomes, 1);
}
void mc_trivial(void){ exec_trivial = true; }
void mc_case(uint64_t n){ atomic_fetch_add_explicit(&S->cases, n, memory_order_relaxed); }

const char *mc_opts(const char *key, const char *dflt){
    for(int i = 0; i < nopts; i++) if(!strcmp(optk[i], key)) return optv[i];
    return dflt;
}
long mc_opt(const char *key, long dflt){
    const char *v = mc_opts(key, NULL);
    return v ? strtol(v, NULL, 0) : dflt;
}

static int rmcb(const char *p, const struct stat *s, int t, struct FTW *f){
    (void)s; (void)t; (void)f; return remove(p);
}
static void rm_scratch(const char *d){
    if(strncmp(d, "/dev/shm/mc.", 12) && strncmp(d, "/tmp/mc.", 8)) return;
    nftw(d, rmcb, 16, FTW_DEPTH|FTW_PHYS);
}
const char *mc_scratch(void){
    if(scratchdir[0]) return scratchdir;
    strcpy(scratchdir, "/dev/shm/mc.XXXXXX");
    if(!mkdtemp(scratchdir)){
        strcpy(scratchdir, "/tmp/mc.XXXXXX");
        if(!mkdtemp(scratchdir)){ perror("mkdtemp"); _exit(2); }
    }
    return scratchdir;
}

/* run one execution with the current pts[0..forced) ; returns W->failed */
static int execute(void){
    npts = 0; spent = 0; exec_trivial = false;
    W->tracelen = 0; atomic_store(&W->failed, 0); W->key[0] = W->msg[0] = 0;
    atomic_store(&W->exec_started, now_ms());
    if(H->fork_each && !replaying){
        /* the child writes its points into W->c plus a shadow of n/cost */
        fflush(stdout); fflush(stderr);
        /* each child gets a fresh directory inside ours, so that nothing of
           it stays behind however it ends */
        mc_scratch();
        char sub[sizeof(scratchdir)];
        snprintf(sub, sizeof(sub), "%.200s/f", scratchdir);
        mkdir(sub, 0700);
        pid_t p = fork();
        if(p < 0){ perror("fork"); _exit(2); }
        if(p == 0){
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            strcpy(scratchdir, sub);
            if(!setjmp(fail_jmp)) H->run();
            if(exec_trivial) atomic_fetch_add(&S->trivial, 1);
            /* publish points */
            publish();
            _exit(atomic_load(&W->failed) ? 77 : 0);
        }
        int st = 0;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR);
        rm_scratch(sub);
        if(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77)){
            npts = *mc_shadow_n_; memcpy(pts, mc_shadow_, npts*sizeof(pt_t));
        }else{
            atomic_store(&W->failed, 1);
            strcpy(W->key, "crash");
            snprintf(W->msg, sizeof(W->msg), "execution died: status 0x%x", st);
        }
    }else{
        if(!setjmp(fail_jmp)) H->run();
        if(exec_trivial) atomic_fetch_add(&S->trivial, 1);
    }
    atomic_store(&W->exec_started, 0);
    atomic_fetch_add_explicit(&S->execs, 1, memory_order_relaxed);
    uint64_t t = npts > forced ? npts - forced + 1 : 1;
    atomic_fetch_add_explicit(&S->trans, t, memory_order_relaxed);
    uint64_t m = atomic_load(&S->maxlen);
    if(npts > m) atomic_store(&S->maxlen, npts);
    if(npts < forced && !atomic_load(&W->failed)){
        atomic_store(&W->failed, 2); strcpy(W->key, "harness");
        snprintf(W->msg, sizeof(W->msg), "replay divergence: run ended at %u of %u choices", npts, forced);
    }
    return atomic_load(&W->failed);
}

static void sample(void){
    if(atomic_load(&S->nsample) >= 3) return;
    int i = atomic_fetch_add(&S->nsample, 1);
    if(i >= 3) return;
    uint32_t n = W->tracelen < 1500 ? W->tracelen : 1500;
    int k = snprintf(S->sample[i], 400, "choices:");
    for(uint32_t j = 0; j < npts && k < 380; j++) k += snprintf(S->sample[i]+k, 12, " %u", pts[j].c);
    S->sample[i][k++] = '\n';
    memcpy(S->sample[i]+k, W->trace, n); S->sample[i][k+n] = 0;
}

static bool push(const pt_t *p, uint32_t len, unsigned last){
    lock();
    int q = atomic_load(&S->qlen);
    if(q >= QCAP){ unlock(); return false; }
    prefix_t *x = &S->q[q];
    x->len = len;
    for(uint32_t i = 0; i < len; i++) x->c[i] = p[i].c;
    x->c[len-1] = (uint16_t)last;
    atomic_store(&S->qlen, q+1);
    unlock();
    return true;
}

/* explore the subtree below prefix pts[0..base) */
static void explore(uint32_t base, int njobs){
    uint32_t len = base;
    static pt_t cur[MAXLEN];
    static uint16_t maxc[MAXLEN]; /* alternatives at i allowed: next c must be < maxc */
    fresh = true;
    for(;;){
        forced = len;
        int f = execute();
        fresh = false;
        if(f == 1 || f == 2){ atomic_store(&S->stop, 1); return; }
        if(atomic_load(&S->stop)) return;
        uint64_t e = atomic_load_explicit(&S->execs, memory_order_relaxed);
        if(e == 1 || e == 100 || e == 5000) sample();
        uint32_t n = npts;
        memcpy(cur, pts, n*sizeof(pt_t));
        for(uint32_t i = len > 0 ? len : 0; i < n; i++) maxc[i] = cur[i].n;
        /* donate work when others are idle */
        if(njobs > 1 && atomic_load_explicit(&S->qlen, memory_order_relaxed) < njobs*2){
            unsigned sp = 0;
            for(uint32_t i = 0; i < n; i++){
                /* the shallowest level with alternatives left */
                if(i >= base && cur[i].c + 1u < maxc[i] && sp + cur[i].cost <= bound){
                    unsigned hi = maxc[i];
                    bool all = true;
                    for(unsigned a = hi - 1; a > cur[i].c; a--){
                        if(!push(cur, i+1, a)){ all = false; maxc[i] = (uint16_t)(a+1); break; }
                    }
                    if(all) maxc[i] = (uint16_t)(cur[i].c + 1u);
                    break;
                }
                if(cur[i].c) sp += cur[i].cost;
            }
        }
        /* backtrack */
        static unsigned pre[MAXLEN+1];
        pre[0] = 0;
        for(uint32_t i = 0; i < n; i++) pre[i+1] = pre[i] + (cur[i].c ? cur[i].cost : 0);
        int64_t i = (int64_t)n - 1;
        for(; i >= (int64_t)base; i--){
            if(cur[i].c + 1u < maxc[i] && pre[i] + cur[i].cost <= bound) break;
        }
        if(i < (int64_t)base) return;
        cur[i].c++;
        len = (uint32_t)i + 1;
        memcpy(pts, cur, len*sizeof(pt_t));
    }
}

static void worker(int idx, int njobs){
    widx = idx; W = &S->w[idx];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    mc_shadow_ = mmap(NULL, MAXLEN*sizeof(pt_t), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    mc_shadow_n_ = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    for(;;){
        if(atomic_load(&S->stop)) break;
        lock();
        int q = atomic_load(&S->qlen);
        if(q == 0){
            int act = atomic_load(&S->active);
            unlock();
            if(act == 0) break;
            usleep(500);
            continue;
        }
        prefix_t *x = &S->q[q-1];
        uint32_t base = x->len;
        for(uint32_t i = 0; i < base; i++){ pts[i].c = x->c[i]; pts[i].n = 0; }
        atomic_store(&S->qlen, q-1);
        atomic_fetch_add(&S->active, 1);
        unlock();
        explore(base, njobs);
        atomic_fetch_sub(&S->active, 1);
    }
    if(H->fini) H->fini();
    rm_scratch(scratchdir);
    atomic_store(&W->finished, 1);
    _exit(0);
}

static void json_str(FILE *f, const char *s){
    fputc('"', f);
    for(; *s; s++){
        unsigned char c = (unsigned char)*s;
        if(c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if(c == '\n') fputs("\\n", f);
        else if(c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void write_replay(const char *path, wrec_t *w, int argc, char **argv){
    FILE *f = fopen(path, "w");
    if(!f){ perror(path); return; }
    fprintf(f, "property %s\nharness %s\n", propid, H->name);
    for(int i = 0; i < nopts; i++) fprintf(f, "opt %s=%s\n", optk[i], optv[i]);
    fprintf(f, "bound %u\nkey %s\nmessage %s\nchoices", bound, w->key, w->msg);
    uint32_t n = atomic_load(&w->len);
    for(uint32_t i = 0; i < n; i++) fprintf(f, " %u", w->c[i]);
    fprintf(f, "\ntrace\n%.*s", (int)w->tracelen, w->trace);
    fclose(f);
    (void)argc; (void)argv;
}

static void on_alarm(int s){ (void)s;
    static const char m[] = "mc: replay timed out\n";
    (void)!write(2, m, sizeof(m)-1); _exit(124);
}

static void report(FILE *o, const char *status, uint64_t t0, int njobs, const char *msg, const char *key){
    fprintf(o, "{\"harness\":"); json_str(o, H->name);
    fprintf(o, ",\"status\":"); json_str(o, status);
    fprintf(o, ",\"bound\":%u,\"jobs\":%d", bound, njobs);
    fprintf(o, ",\"executions\":%lu,\"states\":%lu,\"transitions\":%lu,\"prunes\":%lu,\"points\":%lu,\"outcomes\":%lu,\"trivial\":%lu,\"cases\":%lu,\"maxlen\":%lu,\"set_full\":%lu,\"complete\":%s",
        S->execs, S->states, S->trans, S->prunes, S->points, S->outcomes, S->trivial, S->cases, S->maxlen, S->set_full,
        (S->timed_out || S->stop) ? "false" : "true");
    fprintf(o, ",\"wall_s\":%.2f", (double)(now_ms()-t0)/1000.0);
    fprintf(o, ",\"opts\":{");
    for(int i = 0; i < nopts; i++){ if(i) fputc(',', o); json_str(o, optk[i]); fputc(':', o); json_str(o, optv[i]); }
    fprintf(o, "},\"known\":{");
    int first = 1;
    for(int i = 0; i < nknown; i++) if(S->known_hits[i]){ if(!first) fputc(',', o); first = 0; json_str(o, known[i]); fprintf(o, ":%lu", S->known_hits[i]); }
    fprintf(o, "},\"samples\":[");
    for(int i = 0; i < S->nsample && i < 3; i++){ if(i) fputc(',', o); json_str(o, S->sample[i]); }
    fprintf(o, "]");
    if(msg){ fprintf(o, ",\"message\":"); json_str(o, msg); fprintf(o, ",\"key\":"); json_str(o, key); }
    fprintf(o, "}\n");
}

/* what a process over its time is doing: "where=... cpu=..." */
static char hanginfo[200];
static void hang_info(pid_t p){
    char path[64], b[512]; size_t n; FILE *f;
    snprintf(path, sizeof(path), "/proc/%d/stat", (int)p);
    if((f = fopen(path, "r"))){
        n = fread(b, 1, sizeof(b)-1, f); b[n] = 0; fclose(f);
        char *q = strrchr(b, ')'); unsigned long ut = 0, st = 0; char state = '?';
        if(q) sscanf(q+1, " %c %*s %*s %*s %*s %*s %*s %*s %*s %*s %*s %lu %lu", &state, &ut, &st);
        snprintf(hanginfo, sizeof(hanginfo), " (state %c, user %lu, system %lu ticks", state, ut, st);
    }
    snprintf(path, sizeof(path), "/proc/%d/wchan", (int)p);
    if((f = fopen(path, "r"))){
        n = fread(b, 1, 60, f); b[n] = 0; fclose(f);
        strcat(hanginfo, ", in "); strcat(hanginfo, b);
    }
    if(hanginfo[0]) strcat(hanginfo, ")");
}

int mc_main(int argc, char **argv, const mc_harness_t *h){
    H = h;
    const char *replay = NULL, *out = NULL, *replay_out = NULL;
    int njobs = 8; long tlimit = 0;
    for(int i = 1; i < argc; i++){
        if(!strcmp(argv[i], "--bound")) bound = (unsigned)atoi(argv[++i]);
        else if(!strcmp(argv[i], "--jobs")) njobs = atoi(argv[++i]);
        else if(!strcmp(argv[i], "--time")) tlimit = atol(argv[++i]);
        else if(!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if(!strcmp(argv[i], "--replay-out")) replay_out = argv[++i];
        else if(!strcmp(argv[i], "--json")) out = argv[++i];
        else if(!strcmp(argv[i], "--property")) propid = argv[++i];
        else if(!strcmp(argv[i], "--known")){ if(nknown < MAXKNOWN) known[nknown++] = argv[++i]; }
        else if(!strcmp(argv[i], "--no-prune")) no_prune = 1;
        else if(!strcmp(argv[i], "-v")) verbose = true;
        else if(!strcmp(argv[i], "-o")){
            char *kv = strdup(argv[++i]); char *eq = strchr(kv, '=');
            if(!eq){ fprintf(stderr, "bad -o\n"); return 2; }
            *eq = 0; optk[nopts] = kv; optv[nopts++] = eq+1;
        }else{ fprintf(stderr, "unknown arg %s\n", argv[i]); return 2; }
    }
    if(njobs > MAXJOBS) njobs = MAXJOBS;
    signal(SIGPIPE, SIG_IGN);
    S = mmap(NULL, sizeof(*S), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    uint64_t bits = h->set_bits ? h->set_bits : 22;
    bits = (uint64_t)mc_opt("set_bits", (long)bits);
    set_mask = (1ull<<bits)-1;
    set_tab = mmap(NULL, (set_mask+1)*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    out_tab = mmap(NULL, (OUT_MASK+1ull)*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if(S == MAP_FAILED || set_tab == MAP_FAILED || out_tab == MAP_FAILED){ perror("mmap"); return 2; }
    unsigned tmo = h->exec_timeout ? h->exec_timeout : 20;

    if(replay){
        FILE *f = fopen(replay, "r");
        if(!f){ perror(replay); return 2; }
        static char line[1<<17];
        while(fgets(line, sizeof(line), f)){
            if(!strncmp(line, "opt ", 4)){
                char *kv = strdup(line+4); kv[strcspn(kv, "\n")] = 0;
                char *eq = strchr(kv, '='); if(!eq) continue;
                *eq = 0; optk[nopts] = kv; optv[nopts++] = eq+1;
            }else if(!strncmp(line, "bound ", 6)) bound = (unsigned)atoi(line+6);
            else if(!strncmp(line, "choices", 7)){
                char *p = line+7, *e;
                for(;;){ unsigned long v = strtoul(p, &e, 10); if(e == p) break; pts[forced].c = (uint16_t)v; pts[forced].n = 0; forced++; p = e; }
            }else if(!strncmp(line, "trace", 5)) break;
        }
        fclose(f);
        replaying = true; fresh = true;
        W = &S->w[0];
        signal(SIGALRM, on_alarm); alarm(tmo*5);
        if(h->init) h->init();
        int r = execute();
        if(h->fini) h->fini();
        if(scratchdir[0]) rm_scratch(scratchdir);
        if(r){
            printf("%.*s", (int)W->tracelen, W->trace);
            printf("FAILED key=%s: %s\n", W->key, W->msg);
            if(replay_out){ write_replay(replay_out, W, argc, argv); }
            return r == 2 ? 2 : 1;
        }
        printf("replay passed\n");
        return 0;
    }

    uint64_t t0 = now_ms();
    if(h->init) h->init();
    // each worker has a directory of its own in ours
    mc_scratch();
    S->q[0].len = 0; S->qlen = 1;
    pid_t pids[MAXJOBS];
    fflush(stdout); fflush(stderr);
    for(int i = 0; i < njobs; i++){
        pid_t p = fork();
        if(p < 0){ perror("fork"); return 2; }
        if(p == 0){
            char sub[sizeof(scratchdir)];
            snprintf(sub, sizeof(sub), "%.200s/w%d", scratchdir, i);
            strcpy(scratchdir, sub);
            mkdir(scratchdir, 0700);
            worker(i, njobs);
        }
        pids[i] = p;
    }
    int left = njobs, bad = -1; const char *why = NULL; char whybuf[200];
    int status_of_bad = 0;
    while(left){
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if(p == 0){
            usleep(2000);
            uint64_t n = now_ms();
            if(tlimit && n - t0 > (uint64_t)tlimit*1000 && !S->stop){
                S->timed_out = 1; S->stop = 1;
            }
            for(int i = 0; i < njobs; i++){
                uint64_t s = S->w[i].exec_started;
                if(pids[i] > 0 && s && n > s && n - s > tmo*1000ull){
                    if(bad < 0){ bad = i; why = "hang"; S->stop = 1; hang_info(pids[i]); }
                    /* others may hang, too */
                    kill(pids[i], SIGKILL);
                }else if(pids[i] > 0 && bad >= 0 && s && n > s && n - s > 5000){
                    kill(pids[i], SIGKILL);
                }
            }
            continue;
        }
        if(p < 0){ if(errno == EINTR) continue; break; }
        int i; for(i = 0; i < njobs; i++) if(pids[i] == p) break;
        if(i == njobs) continue;
        pids[i] = -1; left--;
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->w[i].finished)){
            if(bad < 0){
                bad = i; why = "crash"; status_of_bad = st;
                snprintf(whybuf, sizeof(whybuf), "the code under test died (wait status 0x%x)", st);
            }
            S->stop = 1;
        }else if((S->w[i].failed == 1 || S->w[i].failed == 2) && bad < 0){
            bad = i; why = "fail";
        }
    }
    (void)status_of_bad;
    rm_scratch(scratchdir);
    FILE *o = out ? fopen(out, "w") : stdout;
    if(!o){ perror(out); return 2; }
    if(bad < 0){
        report(o, "ok", t0, njobs, NULL, NULL);
        if(o != stdout) fclose(o);
        return 0;
    }
    wrec_t *w = &S->w[bad];
    if(!strcmp(why, "crash")){ w->failed = 1; strcpy(w->key, "crash"); strcpy(w->msg, whybuf); }
    if(!strcmp(why, "hang")){ w->failed = 1; strcpy(w->key, "hang"); snprintf(w->msg, sizeof(w->msg), "one execution ran for over %u s%s", tmo, hanginfo); }
    if(replay_out) write_replay(replay_out, w, argc, argv);
    report(o, w->failed == 2 ? "error" : "violation", t0, njobs, w->msg, w->key);
    if(o != stdout) fclose(o);
    fprintf(stderr, "%s: %s: %s: %s\n", H->name, w->failed == 2 ? "HARNESS ERROR" : "violation", w->key, w->msg);
    return w->failed == 2 ? 2 : 1;
}
