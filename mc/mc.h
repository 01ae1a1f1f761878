/* mc: a small stateless/stateful explorer for real C code.
 *
 * A harness is a deterministic function run_fn() which asks mc_choose() for
 * every nondeterministic decision.  The explorer re-runs it for every choice
 * sequence (depth-first, deviation-bounded, shared over N worker processes),
 * optionally pruning on already-seen states.  */
#ifndef MC_H
#define MC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

/* free choice in [0,n): every alternative is explored */
unsigned mc_choose(unsigned n, const char *label);
/* environment choice: 0 is the default answer, any other answer costs one
   deviation; explored while the total is within the bound */
unsigned mc_dev(unsigned n, const char *label);
/* like mc_dev but with a given cost for non-default answers */
unsigned mc_cost(unsigned n, unsigned cost, const char *label);
/* deviations left in this execution */
unsigned mc_dev_left(void);

/* report a violation of the property; key identifies it for KNOWN_FINDINGS.
   Does not return. */
void mc_fail(const char *key, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
#define MC_CHECK(cond, key, ...) do{ if(!(cond)) mc_fail(key, __VA_ARGS__); } while(0)
/* like mc_fail, but when the key is a listed known finding the hit is counted
   and the execution continues */
void mc_soft(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
/* harness/infrastructure error (not a violation): exit 2 */
void mc_error(const char *fmt, ...)
    __attribute__((noreturn, format(printf, 1, 2)));

/* record a visited state; true: an identical state (with the same deviations
   left) was already expanded and the harness should clean up and return.
   The hash must include everything the future depends upon, including the
   remaining depth. */
bool mc_seen(uint64_t hash);
/* record a visited state for the coverage count only, never prune */
void mc_note(uint64_t hash);
/* record an observed outcome (distinct ones are counted) */
void mc_outcome(uint64_t hash);
/* this execution is not of interest (harness precondition not met) */
void mc_trivial(void);
/* append a line to the trace of this execution (kept for the replay file) */
void mc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool mc_verbose(void);
/* sub-case counter for loops that enumerate data exhaustively in one run */
void mc_case(uint64_t n);

uint64_t mc_hash(uint64_t h, const void *p, size_t n);
static inline uint64_t mc_hash_u(uint64_t h, uint64_t v){
    return mc_hash(h, &v, sizeof(v));
}

typedef struct {
    const char *name;       /* harness name */
    void (*run)(void);      /* one execution */
    void (*init)(void);     /* once per process, before exploration */
    void (*fini)(void);     /* once per worker */
    bool fork_each;         /* run every execution in a fresh process */
    unsigned exec_timeout;  /* seconds for one execution (default 20) */
    unsigned set_bits;      /* log2 of the state table (default 22) */
} mc_harness_t;

/* configuration string values given as -o key=value */
long mc_opt(const char *key, long dflt);
const char *mc_opts(const char *key, const char *dflt);
/* worker scratch directory (created on demand, removed at the end) */
const char *mc_scratch(void);

int mc_main(int argc, char **argv, const mc_harness_t *h);
#endif
