#define _GNU_SOURCE
// A07: the metadata log of a mailbox, with the real log_file.c: every sequence
// of updates, with reopening at any place, around the compaction threshold,
// and with a crash or a torn write at any file operation.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include "libimaildir/libimaildir.h"
#include "mc/mc.h"

static sigjmp_buf env;
static bool crash_on;
static int ncrash, maxcrash;
static bool armed(void){ return crash_on && mc_dev_left(); }
static void crash(const char *what){ mc_log("CRASH at %s", what); siglongjmp(env, 1); }
static void on_disk_full(void){}
#include "harness/crash.h"
int __real_fsync(int fd);
int __wrap_fsync(int fd);
int __wrap_fsync(int fd){ (void)fd; return 0; }

#define NK 4
// what a key stands for
typedef struct {
    int kind;       // 0 nothing, 1 message, 2 expunge
    unsigned uid; uint64_t modseq; int state; unsigned fl; int date;
} ent_t;
typedef struct { ent_t k[NK]; unsigned vup, vdn; uint64_t hup, maxmod; } ref_t;
static ref_t ref, pend;     // completed updates; the same plus the one under way
static unsigned next_uid; static uint64_t next_mod;

static char dir[600];
static string_builder_t sb;
static dstr_t dirname_;
static jsw_atree_t msgs, expd, mods;
static maildir_log_i *lg;

static msg_key_t keyof(int i){ return i == NK - 1 ? KEY_LOCAL(1) : KEY_UP((unsigned)i + 5); }
static imap_time_t dateof(int d){
    if(!d) return (imap_time_t){0};
    return (imap_time_t){ .year = 2020 + d, .month = 2, .day = 29, .hour = 23, .min = 59, .sec = d, .z_hour = d & 1 ? -7 : 5, .z_min = 30 };
}
static msg_flags_t flagsof(unsigned f){
    return (msg_flags_t){ .answered = f & 1, .flagged = !!(f & 2), .seen = !!(f & 4), .draft = !!(f & 8), .deleted = !!(f & 16) };
}
static unsigned flnum(msg_flags_t f){ return (unsigned)f.answered | f.flagged * 2u | f.seen * 4u | f.draft * 8u | f.deleted * 16u; }

static void trees_init(void){
    jsw_ainit(&msgs, jsw_cmp_msg_key, msg_jsw_get_msg_key);
    jsw_ainit(&expd, jsw_cmp_msg_key, expunge_jsw_get_msg_key);
    jsw_ainit(&mods, jsw_cmp_ulong, msg_mod_jsw_get_modseq);
}
static void trees_free(void){
    jsw_anode_t *n;
    while(jsw_apop(&mods)){}
    while((n = jsw_apop(&expd))){ msg_expunge_t *x = CONTAINER_OF(n, msg_expunge_t, node); msg_expunge_free(&x); }
    while((n = jsw_apop(&msgs))){ msg_t *x = CONTAINER_OF(n, msg_t, node); msg_free(&x); }
}

// does what was read equal r?  NULL if so
static const char *differs(const ref_t *r, uint64_t himod){
    static char w[300];
    size_t nm = 0, nx = 0, nmod = 0;
    for(int i = 0; i < NK; i++){
        msg_key_t k = keyof(i);
        jsw_anode_t *a = jsw_afind(&msgs, &k, NULL), *b = jsw_afind(&expd, &k, NULL);
        const ent_t *t = &r->k[i];
        if(t->kind == 0 || (t->kind == 2 && !t->uid && !t->modseq)){
            // an expunge which nobody ever heard of may be forgotten
            if(a){ snprintf(w, sizeof(w), "message %d is back", i); return w; }
            if(b && t->kind == 0){ snprintf(w, sizeof(w), "an expunge of message %d appeared", i); return w; }
            if(b) nx++;
            continue;
        }
        if(t->kind == 1){
            if(!a || b){ snprintf(w, sizeof(w), "message %d is %s", i, b ? "expunged" : "lost"); return w; }
            msg_t *m = CONTAINER_OF(a, msg_t, node);
            nm++; nmod += t->modseq > 0;
            imap_time_t d = dateof(t->date), *g = &m->internaldate;
            if(m->uid_dn != t->uid || m->mod.modseq != t->modseq || (int)m->state != t->state || flnum(m->flags) != t->fl){
                snprintf(w, sizeof(w), "message %d reads uid %u modseq %lu state %d flags %x, last written uid %u modseq %lu state %d flags %x",
                    i, m->uid_dn, (unsigned long)m->mod.modseq, (int)m->state, flnum(m->flags), t->uid, (unsigned long)t->modseq, t->state, t->fl);
                return w;
            }
            if(g->year != d.year || g->month != d.month || g->day != d.day || g->hour != d.hour || g->min != d.min || g->sec != d.sec || g->z_hour != d.z_hour || g->z_min != d.z_min){
                snprintf(w, sizeof(w), "message %d has another date", i); return w;
            }
        }else{
            if(!b || a){ snprintf(w, sizeof(w), "the expunge of message %d is lost%s", i, a ? ", the message is back" : ""); return w; }
            msg_expunge_t *x = CONTAINER_OF(b, msg_expunge_t, node);
            nx++; nmod += t->modseq > 0;
            if(x->uid_dn != t->uid || x->mod.modseq != t->modseq || (int)x->state != t->state){
                snprintf(w, sizeof(w), "the expunge of message %d reads uid %u modseq %lu state %d, last written %u %lu %d", i, x->uid_dn,
                    (unsigned long)x->mod.modseq, (int)x->state, t->uid, (unsigned long)t->modseq, t->state);
                return w;
            }
        }
    }
    if(msgs.size != nm || expd.size != nx){ snprintf(w, sizeof(w), "%zu messages and %zu expunges, should be %zu and %zu", msgs.size, expd.size, nm, nx); return w; }
    if(mods.size != nmod){ snprintf(w, sizeof(w), "%zu modseqs, should be %zu", mods.size, nmod); return w; }
    uint64_t last = 0;
    jsw_atrav_t tr;
    for(jsw_anode_t *n = jsw_atfirst(&tr, &mods); n; n = jsw_atnext(&tr)){
        msg_mod_t *m = CONTAINER_OF(n, msg_mod_t, node);
        if(m->modseq <= last) return "modseqs are not ascending";
        last = m->modseq;
    }
    if(lg->get_uidvld_up(lg) != r->vup || lg->get_uidvld_dn(lg) != r->vdn){
        snprintf(w, sizeof(w), "UIDVALIDITY reads %u:%u, last written %u:%u", lg->get_uidvld_up(lg), lg->get_uidvld_dn(lg), r->vup, r->vdn); return w;
    }
    if(lg->get_himodseq_up(lg) != r->hup){
        snprintf(w, sizeof(w), "highest modseq from above reads %lu, last written %lu", (unsigned long)lg->get_himodseq_up(lg), (unsigned long)r->hup); return w;
    }
    if(himod != (r->maxmod > 1 ? r->maxmod : 1)){
        snprintf(w, sizeof(w), "highest modseq reads %lu, should be %lu", (unsigned long)himod, (unsigned long)r->maxmod); return w;
    }
    return NULL;
}
static void open_log(void){
    trees_init();
    uint64_t himod = 0;
    derr_t e = imaildir_log_open(&sb, &msgs, &expd, &mods, &himod, &lg);
    if(is_error(e) && disk_was_full){ DROP_VAR(&e); lg = NULL; siglongjmp(env, 2); }
    if(is_error(e)){
        DUMP(e); DROP_VAR(&e);
        mc_fail("unopenable", "the log cannot be opened any more");
    }
    bool c = crash_on; crash_on = false;
    const char *w = differs(&ref, himod);
    if(w){
        char first[300]; snprintf(first, sizeof(first), "%s", w);
        // the update which was under way may have made it
        if(differs(&pend, himod)) mc_fail("log-wrong", "after reopening the log: %s", first);
        ref = pend;
    }
    pend = ref;
    trees_free(); // what was read is not needed any more
    crash_on = c;
}
static void close_log(void){
    lg->close(lg); lg = NULL;
}

static void num(derr_t e){
    if(is_error(e) && disk_was_full){
        // the mailbox is closed, and opened again later
        mc_log("an update fails");
        DROP_VAR(&e);
        siglongjmp(env, 2);
    }
    if(is_error(e)){ DUMP(e); DROP_VAR(&e); mc_fail("update-failed", "an update of the log fails"); }
}
static void put_msg(int i){
    const ent_t *t = &pend.k[i];
    msg_t m = { .key = keyof(i), .uid_dn = t->uid, .internaldate = dateof(t->date), .flags = flagsof(t->fl),
        .mod = { .type = MOD_TYPE_MESSAGE, .modseq = t->modseq }, .state = (msg_state_e)t->state };
    derr_t e = lg->update_msg(lg, &m);
    num(e);
}
static void put_exp(int i){
    const ent_t *t = &pend.k[i];
    msg_expunge_t x = { .key = keyof(i), .uid_dn = t->uid, .state = (msg_expunge_state_e)t->state,
        .mod = { .type = MOD_TYPE_EXPUNGE, .modseq = t->modseq } };
    derr_t e = lg->update_expunge(lg, &x);
    num(e);
}
static uint64_t newmod(void){ pend.maxmod = ++next_mod; return next_mod; }

// the updates a mailbox makes; false if it makes no sense now
enum { U_NEW, U_FILL, U_NOT4ME, U_FLAGS, U_EXP, U_PUSHED, U_UFLAGS, NU };
static const char *unames[] = { "new", "fill", "not4me", "flags", "expunge", "expunge pushed", "flags (unfilled)" };
static bool possible(int u, int i){
    const ent_t *t = &ref.k[i];
    switch(u){
        case U_NEW: return t->kind == 0;
        case U_FILL: return t->kind == 1 && (t->state == MSG_UNFILLED);
        case U_NOT4ME: return t->kind == 1 && t->state == MSG_UNFILLED;
        case U_FLAGS: return t->kind == 1 && t->state == MSG_FILLED;
        case U_UFLAGS: return t->kind == 1 && t->state != MSG_FILLED;
        case U_EXP: return t->kind == 1;
        case U_PUSHED: return t->kind == 2 && t->state == MSG_EXPUNGE_UNPUSHED;
    }
    return false;
}
static void update(int u, int i){
    ent_t *t = &pend.k[i];
    mc_log("%s message %d", unames[u], i);
    switch(u){
        case U_NEW: *t = (ent_t){ .kind = 1, .state = MSG_UNFILLED, .fl = (unsigned)i & 1 ? 4 : 0, .date = i & 1 }; put_msg(i); break;
        case U_FILL: t->state = MSG_FILLED; t->uid = next_uid++; t->modseq = newmod(); t->date = i + 1; put_msg(i); break;
        case U_NOT4ME: t->state = MSG_NOT4ME; put_msg(i); break;
        case U_FLAGS: case U_UFLAGS: t->fl = (t->fl * 2 + 1) & 31; if(u == U_FLAGS) t->modseq = newmod(); put_msg(i); break;
        case U_EXP: {
            bool filled = t->state == MSG_FILLED;
            *t = (ent_t){ .kind = 2, .uid = t->uid, .modseq = filled ? newmod() : 0, .state = filled ? MSG_EXPUNGE_UNPUSHED : MSG_EXPUNGE_PUSHED };
            put_exp(i);
        } break;
        case U_PUSHED: t->state = MSG_EXPUNGE_PUSHED; put_exp(i); break;
    }
    ref = pend;
}

static long o_depth, o_prefill;
static const char *o_base;
static char *tmpl; static size_t tmpln; static ref_t tref; static unsigned tuid; static uint64_t tmod;

static void wipe_dir(void){
    char p[700];
    snprintf(p, sizeof(p), "%s/.cache", dir); __real_unlink(p);
    snprintf(p, sizeof(p), "%s/.cache.tmp", dir); __real_unlink(p);
}
// a log which stands before its compaction: written once by the code itself
static void prefill(void){
    char p[700]; snprintf(p, sizeof(p), "%s/.cache", dir);
    if(!tmpl){
        open_log();
        pend.vup = 7; pend.vdn = 8; num(lg->set_uidvlds(lg, 7, 8)); ref = pend;
        // the base: what the messages are before anything else
        for(int i = 0; i < NK; i++){
            switch(o_base[i]){
                case '-': break;
                case 'u': update(U_NEW, i); break;
                case 'n': update(U_NEW, i); update(U_NOT4ME, i); break;
                case 'f': update(U_NEW, i); update(U_FILL, i); break;
                case 'e': update(U_NEW, i); update(U_FILL, i); update(U_EXP, i); break;
                case 'x': update(U_NEW, i); update(U_FILL, i); update(U_EXP, i); update(U_PUSHED, i); break;
                default: mc_error("base %c", o_base[i]);
            }
        }
        close_log();
        FILE *f = __real_fopen(p, "r");
        if(!f) mc_error("no .cache: %s", strerror(errno));
        tmpl = malloc(1 << 20); tmpln = fread(tmpl, 1, 1 << 19, f);
        __real_fclose(f);
        // repeat the line of the UIDVALIDITY up to the wanted number of lines
        long lines = 0;
        for(size_t k = 0; k < tmpln; k++) lines += tmpl[k] == '\n';
        char *nl = memchr(tmpl, '\n', tmpln);
        size_t L = (size_t)(nl - tmpl) + 1;
        for(; lines < o_prefill; lines++){
            memmove(tmpl + L, tmpl, tmpln);
            tmpln += L;
        }
        tref = ref; tuid = next_uid; tmod = next_mod;
    }
    ref = pend = tref; next_uid = tuid; next_mod = tmod;
    FILE *f = __real_fopen(p, "w");
    if(!f) mc_error("cannot write .cache");
    fwrite(tmpl, 1, tmpln, f);
    __real_fclose(f);
}

static void body(void){
    volatile long left = o_depth;
    int why = sigsetjmp(env, 0);
    if(why){
        ncrash++;
        if(why == 2 && lg) lg->close(lg);
        disk_was_full = false;
        lg = NULL; trees_init();
        left = 1;
    }
    crash_on = ncrash < maxcrash;
    mc_log("open");
    open_log();
    for(; left > 0; left--){
        struct { int u, i; } opt[40]; unsigned n = 0;
        for(int i = 0; i < NK; i++) for(int u = 0; u < NU; u++) if(possible(u, i)){ opt[n].u = u; opt[n++].i = i; }
        unsigned k = mc_choose(n + 4, "update");
        if(k < n) update(opt[k].u, opt[k].i);
        else if(k == n){ mc_log("reopen"); close_log(); open_log(); }
        else if(k == n + 1){ mc_log("UIDVALIDITY"); pend.vup += 3; pend.vdn += 5; num(lg->set_uidvlds(lg, pend.vup, pend.vdn)); ref = pend; }
        else if(k == n + 2){ mc_log("modseq from above"); pend.hup += 100; num(lg->set_himodseq_up(lg, pend.hup)); ref = pend; }
        else{ mc_log("explicit modseq"); num(lg->set_explicit_modseq_dn(lg, newmod())); ref = pend; }
    }
    close_log();
    crash_on = false;
    mc_log("final open");
    open_log();
    close_log();
    open_log();
    close_log();
}
static void run(void){
    snprintf(dir, sizeof(dir), "%s/log", mc_scratch());
    __real_mkdir(dir, 0700);
    DSTR_WRAP(dirname_, dir, strlen(dir), true);
    sb = SBD(dirname_);
    wipe_dir();
    ref = pend = (ref_t){0};
    ref.hup = pend.hup = 0;
    next_uid = 1; next_mod = 1;
    ncrash = 0; crash_on = disk_was_full = false;
    prefill();
    body();
    wipe_dir();
    mc_note(mc_hash(0, &ref, sizeof(ref)));
}
static void init(void){
    o_depth = mc_opt("depth", 3); o_prefill = mc_opt("prefill", 0);
    disk_full = mc_opt("full", 0);
    maxcrash = (int)mc_opt("crash", 0);
    o_base = mc_opts("base", "----");
    trees_init();
}
int main(int argc, char **argv){
    bool fe = false;
    for(int i = 1; i < argc; i++) if(!strncmp(argv[i], "crash=", 6) && argv[i][6] != '0') fe = true;
    mc_harness_t h = { .name = "a07_log", .run = run, .init = init, .exec_timeout = 30, .fork_each = fe };
    return mc_main(argc, argv, &h);
}
