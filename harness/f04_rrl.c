// F04: the rate limiter's shared table.  All sequences of (time step, source,
// burst) up to a depth against a reference which keeps one plain record per
// table slot; slot sharing between sources is observed, not assumed.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "server/dns/libdns.h"
#include "mc/mc.h"

#define NSRC 6
static struct sockaddr_storage src[NSRC];
static int slot[NSRC];
static size_t nb;

static void mkaddrs(void){
    static const char *names[NSRC] = {"1.2.3.4", "1.2.3.5", "255.0.0.1", "1111:2222:3333:4444::", "1111:2222:3333:4444:ffff::1", "::1"};
    for(int i = 0; i < NSRC; i++){
        derr_t e = read_addr(&src[i], names[i], (uint16_t)(53 + i));
        if(is_error(e)) mc_error("read_addr");
    }
}

static rrl_t mk(void){
    rrl_t r;
    derr_t e = rrl_init(&r, nb);
    if(is_error(e)) mc_error("rrl_init");
    return r;
}

static void find_slots(void){
    xtime_t t = 5*SECOND;
    for(int i = 0; i < NSRC; i++){
        slot[i] = i;
        for(int j = 0; j < i; j++){
            rrl_t r = mk();
            for(int k = 0; k < 20; k++) rrl_check(&r, ss2sa(&src[j]), t);
            bool share = !rrl_check(&r, ss2sa(&src[i]), t);
            rrl_free(&r);
            if(share){ slot[i] = slot[j]; break; }
        }
    }
    // different addresses must be spread in a large table; the ports and the
    // lower half of an IPv6 address do not distinguish sources
    if(nb > 1000){
        MC_CHECK(slot[0] != slot[1] && slot[0] != slot[2] && slot[1] != slot[2], "collide", "distinct IPv4 sources share a slot of a table of %zu", nb);
        MC_CHECK(slot[3] == slot[4], "v6-prefix", "addresses of one /64 are counted apart");
        MC_CHECK(slot[3] != slot[5] && slot[3] != slot[0] && slot[5] != slot[0], "collide", "IPv6 sources share a slot");
    }
}

#define ALLOW 8
static const xtime_t steps[] = {0, SECOND/2, SECOND - 1, SECOND, 2*SECOND, 31*SECOND, 32*SECOND, 33*SECOND, 64*SECOND};
#define NSTEP (sizeof(steps)/sizeof(*steps))
static const int bursts[] = {1, 7, 8, 9, 20};
#define NBURST 5

static void run(void){
    nb = (size_t)mc_opt("nb", 997);
    int depth = (int)mc_opt("depth", 4);
    mkaddrs();
    static size_t done_for = (size_t)-1;
    if(done_for != nb){ find_slots(); done_for = nb; }
    rrl_t r = mk();
    // per slot: second of the last granted request, number granted in it
    struct { bool used; xtime_t sec; int n; } ref[NSRC];
    // a fresh table counts as one request in second 0
    for(int i = 0; i < NSRC; i++){ ref[i].used = true; ref[i].sec = 0; ref[i].n = 1; }
    static const xtime_t starts[] = {1*SECOND, 40*SECOND - 1, 1700000000ULL*SECOND + 7};
    xtime_t now = starts[mc_choose(3, "start")];
    int nsrc = (int)mc_opt("nsrc", 3);
    static const int pick[] = {0, 1, 3, 4, 2, 5};
    uint64_t trace = 0;
    for(int d = 0; d < depth; d++){
        unsigned st = mc_choose(NSTEP, "step");
        now += steps[st];
        int s = pick[mc_choose((unsigned)nsrc, "source")];
        int b = bursts[mc_choose(NBURST, "burst")];
        for(int k = 0; k < b; k++){
            bool ok = rrl_check(&r, ss2sa(&src[s]), now);
            int q = slot[s];
            xtime_t sec = now / SECOND;
            bool exp;
            if(nb == 0) exp = true;
            else{
                if(!ref[q].used || ref[q].sec % 32 != sec % 32){
                    ref[q].used = true; ref[q].n = 0;
                    ref[q].sec = sec;
                }
                exp = ref[q].n < ALLOW;
                if(exp) ref[q].n++;
            }
            trace = mc_hash_u(trace, ok);
            if(ok != exp) mc_log("source %d at %llu ns, request %d of the burst", s, (unsigned long long)now, k + 1);
            MC_CHECK(ok || !exp, "refused", "refused a request within the allowance");
            MC_CHECK(!ok || exp, "exceeded", "served more than the allowance in one second");
        }
        uint64_t h = mc_hash_u(mc_hash(nb, ref, sizeof(ref)), now ^ (uint64_t)d << 60);
        mc_note(h);
    }
    mc_outcome(trace);
    rrl_free(&r);
}

// every request count within one second and across the boundary, both
// families and random table sizes are covered by run(); this walks time
int main(int argc, char **argv){
    mc_harness_t h = { .name = "f04_rrl", .run = run, .exec_timeout = 20 };
    return mc_main(argc, argv, &h);
}
