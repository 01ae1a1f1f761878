#define _GNU_SOURCE
// A01-A06: the mail store between a model IMAP server and model mail clients.
// Every execution is one history: a fixed beginning (-o pre=...), then -o depth
// steps chosen from -o menu, with up to --bound deviations (lost connections,
// refusals, events from -o inj in the middle of a response, crashes).
#include "harness/a_world.h"

static bool nodev = true;       // no deviations now
static const char *o_names, *o_inj, *o_menu, *o_pre;
static long o_drop, o_no, o_split, o_depth, o_sess, o_crash, o_uid, o_idx, o_order, o_grow;
static char *names[32]; static bool name_is_gen[32]; static int nnames;  // -o names=a:b:... for S J W M P Q Z T
static bool crash_armed; static int ncrash;
static sigjmp_buf crash_env;

static bool armed(void){ return crash_armed && !nodev && mc_dev_left(); }
static void crash(const char *what){
    T("== CRASH at %s", what);
    siglongjmp(crash_env, 1);
}
static void on_disk_full(void){
    // the mailbox is closed with all its sessions, and opened again later
    T("== DISK FULL");
    nfaults++;
    crash_armed = false;
    for(int i = 0; i < nsess; i++) ss[i].excused = true;
}
#include "harness/crash.h"

// ------------------------------------------------------------------- actions
typedef struct { char op; int sess; int idx; } act_t;
static const char server_ops[] = "nmfdxuzvG";

#define MAXACT 2000
static int live_count(void){ int n = 0; for(int i = 0; i < nsess; i++) n += live(&ss[i]); return n; }

// what a mailbox may be called
static bool good_name(const char *n){
    for(;;){
        size_t l = strcspn(n, "/");
        #define IS(s) (l == strlen(s) && !memcmp(n, s, l))
        if(!l || l > 255 || IS(".") || IS("..") || IS("cur") || IS("tmp") || IS("new")) return false;
        if(IS(".cache") || IS(".cache.tmp") || IS(".invalid")) return false;
        if(memchr(n, '\n', l)) return false;
        if(!n[l]) return true;
        n += l + 1;
    }
}

static int idxs(int n, int *out){
    // first, last and (if asked) the others
    int k = 0;
    if(n <= 0) return 0;
    out[k++] = 0;
    if(n > 1) out[k++] = n - 1;
    if(o_idx > 2 && n > 2) out[k++] = 1;
    return k > o_idx ? (int)o_idx : k;
}

// the k-th message file of INBOX
static int namecmp(const struct dirent **a, const struct dirent **b){ return strcmp((*a)->d_name, (*b)->d_name); }
static int notdot(const struct dirent *d){ return d->d_name[0] != '.'; }
static bool first_file(int k, char *out, size_t cap){
    char p[700]; snprintf(p, sizeof(p), "%s/INBOX/cur", dirpath);
    struct dirent **l;
    int n = scandir(p, &l, notdot, namecmp);
    bool ok = n > k;
    if(ok && out) snprintf(out, cap, "%s/%s", p, l[k]->d_name);
    for(int i = 0; i < n; i++) free(l[i]);
    if(n >= 0) free(l);
    return ok;
}

static int enabled(const char *menu, act_t *out, int cap){
    int n = 0, ix[8];
    #define ADD(o, s, i) do{ if(n == cap) mc_error("too many actions"); out[n++] = (act_t){ o, s, i }; } while(0)
    for(const char *m = menu; *m; m++){
        switch(*m){
            case 'n': case 'm': ADD(*m, -1, 0); continue;
            case 'u': case 'v': ADD(*m, -1, 0); continue;
            case 'z': {
                // somebody deletes a message file while nobody is connected
                bool any = false;
                for(int i = 0; i < nsess; i++) any |= ss[i].used;
                if(!any) for(int i = 0; i < 3 && first_file(i, NULL, 0); i++) ADD('z', -1, i);
            } continue;
            case 'G': {
                bool any = false;
                for(int i = 0; i < nsess; i++) any |= ss[i].used;
                if(!any) ADD('G', -1, 0);
            } continue;
            case 'f': case 'd': case 'x': {
                int k = idxs(mb[0].n, ix);
                for(int i = 0; i < k; i++) ADD(*m, -1, ix[i]);
            } continue;
            case 'c': if(live_count() < o_sess && nsess < MAXSESS - 2) ADD('c', -1, 0); continue;
            case 'k': case 'K': for(int i = 0; i < nsess; i++) if(live(&ss[i])) ADD(*m, i, 0); continue;
        }
        for(int i = 0; i < nsess; i++){
            sess_t *x = &ss[i];
            if(!live(x) || !x->greeted) continue;
            if(*m == 'D'){ if(x->op == OP_IDLE && x->idling) ADD('D', i, 0); continue; }
            if(x->op != OP_NONE) continue;
            bool sel = x->mbox >= 0;
            // clients act on messages only after they looked at them
            for(int k = 0; k < x->nv && strchr("EqBFtybCpRZ", *m); k++) if(x->v[k].content < 0) sel = false;
            switch(*m){
                case 's': case 'e': case 'l': case 'o': case 'A': case 'U': case 'X': case 'Y': ADD(*m, i, 0); break;
                case 'S': case 'J': case 'W': case 'P': case 'Q': case 'T':
                    for(int k = 0; k < nnames; k++) ADD(*m, i, k);
                    break;
                case 'Z': if(sel && x->nv) for(int k = 0; k < nnames; k++) ADD(*m, i, k); break;
                case 'M': for(int k = 0; k < nnames; k++) for(int j = 0; j < nnames; j++) ADD(*m, i, k * 32 + j); break;
                case 'N': if(sel) ADD(*m, i, 0); break;
                case 'E': case 'q': case 'i': case 'B': case 'F': case 'H': if(sel) ADD(*m, i, 0); break;
                case 't': case 'y': case 'b': case 'C': case 'p': case 'R': if(sel){
                    int k = idxs(x->nv, ix);
                    for(int j = 0; j < k; j++) ADD(*m, i, ix[j]);
                } break;
                default: mc_error("unknown op %c", *m);
            }
        }
    }
    return n;
}

static void run_world(sess_t *except);

// which contents does the client name?
static void intent_view(sess_t *x, intent_t *in, int idx){
    for(int i = 0; i < x->nv; i++){
        if(idx >= 0 && i != idx) continue;
        if(x->v[i].content >= 0) in->cont[in->ncont++] = x->v[i].content;
    }
}
static void expunge_intent(sess_t *x){
    x->intent = add_intent(x, IN_EXPUNGE);
    intent_t *in = &ints[x->intent];
    if(x->examine) return;
    for(int i = 0; i < x->nv; i++){
        int c = x->v[i].content;
        if(c < 0) continue;
        int k = mb_find_content(x->mbox, c);
        bool del = (x->v[i].flknown && (x->v[i].fl & F_DEL)) || (k >= 0 && (mb[x->mbox].m[k].fl & F_DEL));
        for(int j = 0; j < nints; j++){
            intent_t *o = &ints[j];
            if(o->type == IN_STORE && !o->answer && o->sign == '+' && (o->fl & F_DEL) && content_in(o->cont, o->ncont, c)) del = true;
        }
        if(del) in->cont[in->ncont++] = c;
    }
}
// a long history: repeat the first line of the metadata log (while nobody is
// connected) until the log is about to be compacted
static void grow_log(void){
    char p[700]; snprintf(p, sizeof(p), "%s/INBOX/.cache", dirpath);
    FILE *f = __real_fopen(p, "r");
    if(!f) return;
    static char b[1 << 18];
    size_t n = fread(b, 1, sizeof(b) / 4, f);
    __real_fclose(f);
    char *nl = memchr(b, '\n', n);
    if(!nl) return;
    size_t L = (size_t)(nl - b) + 1;
    long lines = 0;
    for(size_t i = 0; i < n; i++) lines += b[i] == '\n';
    f = __real_fopen(p, "w");
    for(; lines < o_grow; lines++) fwrite(b, 1, L, f);
    fwrite(b, 1, n, f);
    __real_fclose(f);
}
// commands of two sessions overlapped: a DELETE or RENAME at the same time as
// another use of the mailbox may leave an empty directory, which is not judged
static bool raced;
// whoever uses the mailbox (or one below it) is thrown out
static void throw_out(const char *name, bool below){
    for(int i = 0; i < nsess; i++){
        sess_t *y = &ss[i];
        if(!y->used) continue;
        bool sel = y->op == OP_SELECT || y->op == OP_EXAMINE;
        const char *ns[3] = {
            sel ? (y->selname ? y->selname : mb[y->selmbox].name) : NULL,
            y->mbox >= 0 ? mb[y->mbox].name : NULL,
            sel && y->oldmb >= 0 ? mb[y->oldmb].name : NULL,    // still being left
        };
        for(int k = 0; k < 3; k++){
            const char *n = ns[k];
            if(n && (!strcmp(n, name) || (below && inferior(name, n)))) y->mayend = true;
        }
    }
}
static void do_act(act_t a){
    stepno++;
    sess_t *x = a.sess >= 0 ? &ss[a.sess] : NULL;
    if(!x) T("== server event %c %d", a.op, a.idx);
    unsigned uid = x && a.idx < x->nv ? x->v[a.idx].uid : 0;
    bool byuid = x && uid && o_uid;
    char set[32];
    if(byuid) snprintf(set, sizeof(set), "%u", uid); else snprintf(set, sizeof(set), "%d", a.idx + 1);
    const char *u = byuid ? "UID " : "";
    if(x) x->uidmode = byuid;
    switch(a.op){
        case 'n': mb_add(0, new_content(false), 0); break;
        case 'm': mb_add(0, new_content(true), 0); break;
        case 'f': case 'd': {
            smsg_t *g = &mb[0].m[a.idx];
            g->fl ^= a.op == 'f' ? F_FLAG : F_DEL; g->modseq = ++mb[0].himodseq;
        } break;
        case 'x': mb_del(0, a.idx); break;
        case 'u':
            mb[0].uidvld += 7; mb[0].uidnext = 1; mb[0].n = mb[0].nvan = 0; mb[0].himodseq = 1;
            nresets++;
            mb_add(0, new_content(false), 0);
            for(int i = 0; i < nsess; i++){
                if(!ss[i].used) continue;
                if(ss[i].mbox == 0 || ss[i].op == OP_SELECT || ss[i].op == OP_EXAMINE) ss[i].mayend = true;
                if(ss[i].umbox == 0) srv_drop(&ss[i], false);
            }
            break;
        case 'v': // somebody else deletes or creates the second mailbox
            if(mb[1].exists){ mb[1].exists = false; mb[1].n = mb[1].nvan = 0; }
            else{ mb[1].exists = true; mb[1].uidvld += 10; mb[1].uidnext = 1; mb[1].himodseq = 1; }
            for(int i = 0; i < nsess; i++){
                sess_t *y = &ss[i];
                if(y->used && (y->mbox == 1 || y->op == OP_SELECT || y->op == OP_EXAMINE)) y->mayend = true;
                if(y->umbox == 1) srv_drop(y, false);
            }
            break;
        case 'G': grow_log(); break;
        case 'z': {
            char p[1000], b[2000];
            if(!first_file(a.idx, p, sizeof(p))) mc_error("no file");
            FILE *f = __real_fopen(p, "r");
            size_t n = fread(b, 1, sizeof(b), f);
            __real_fclose(f);
            int c = content_by_plain(b, n);
            T("== somebody deletes the file of m%d", c);
            if(c < 0) mc_fail("content-corrupt", "a message file holds the text of no message");
            if(__real_unlink(p)) mc_error("unlink");
            if(nints == MAXLOG) mc_error("intents full");
            ints[nints++] = (intent_t){ .type = IN_EXPUNGE, .mbox = 0, .cont = { c }, .ncont = 1, .step = stepno, .sess = -1 };
        } break;
        case 'c': connect_sess(); break;
        case 'k': T("== upstream connection of %d breaks", a.sess); srv_drop(x, true); break;
        case 'K': T("== client %d disappears", a.sess); x->dn.broken = true; x->excused = true; break;
        case 's': case 'e': case 'o':
            x->selmbox = a.op == 'o' ? 1 : 0; x->selexamine = a.op == 'e';
            cl_send(x, a.op == 'e' ? OP_EXAMINE : OP_SELECT, "%s %s", a.op == 'e' ? "EXAMINE" : "SELECT", mb[x->selmbox].name);
            break;
        case 'l': cl_send(x, OP_LOGOUT, "LOGOUT"); break;
        case 'N': cl_send(x, OP_NOOP, "NOOP"); break;
        case 'i': cl_send(x, OP_IDLE, "IDLE"); break;
        case 'D': T("    C%d DONE", x->id); b_fmt(&x->dn.in, "DONE\r\n"); break;
        case 't': case 'y': case 'b':
            x->intent = add_intent(x, IN_STORE);
            ints[x->intent].sign = a.op == 'y' ? '-' : '+';
            ints[x->intent].fl = a.op == 'b' ? F_DEL : F_FLAG;
            if(!x->examine) intent_view(x, &ints[x->intent], a.idx);
            cl_send(x, OP_STORE, "%sSTORE %s %cFLAGS (%s)", u, set, ints[x->intent].sign, a.op == 'b' ? "\\Deleted" : "\\Flagged");
            break;
        case 'R': // replace the flags
            x->intent = add_intent(x, IN_STORE);
            ints[x->intent].sign = '=';
            ints[x->intent].fl = F_ANS;
            if(!x->examine) intent_view(x, &ints[x->intent], a.idx);
            cl_send(x, OP_STORE, "%sSTORE %s FLAGS (\\Answered)", u, set);
            break;
        case 'B':
            x->intent = add_intent(x, IN_STORE);
            ints[x->intent].sign = '+'; ints[x->intent].fl = F_DEL;
            if(!x->examine) intent_view(x, &ints[x->intent], -1);
            cl_send(x, OP_STORE, "STORE 1:* +FLAGS (\\Deleted)");
            break;
        case 'E': expunge_intent(x); cl_send(x, OP_EXPUNGE, "EXPUNGE"); break;
        case 'q': expunge_intent(x); cl_send(x, OP_CLOSE, "CLOSE"); break;
        case 'C':
            x->intent = add_intent(x, IN_COPY);
            ints[x->intent].dst = 1;
            intent_view(x, &ints[x->intent], a.idx);
            cl_send(x, OP_COPY, "%sCOPY %s %s", u, set, mb[1].name);
            break;
        case 'F': case 'p':
            x->intent = add_intent(x, IN_SEEN);
            if(!x->examine) intent_view(x, &ints[x->intent], a.op == 'F' ? -1 : a.idx);
            if(a.op == 'F') cl_send(x, OP_FETCH, "FETCH 1:* (UID BODY[])");
            else cl_send(x, OP_FETCH, "%sFETCH %s BODY[]", u, set);
            break;
        case 'H': cl_send(x, OP_SEARCH, "SEARCH ALL"); break;
        case 'U': cl_send(x, OP_STATUS, "STATUS %s (MESSAGES UNSEEN UIDNEXT UIDVALIDITY RECENT)", mb[0].name); break;
        case 'X':
            // whoever uses the mailbox is thrown out
            throw_out(mb[1].name, false);
            cl_send(x, OP_LIST, "DELETE %s", mb[1].name); break;
        case 'S': case 'J':
            x->selmbox = mbox_by_name(names[a.idx]); x->selexamine = a.op == 'J';
            cl_send(x, a.op == 'J' ? OP_EXAMINE : OP_SELECT, "%s \"%s\"", a.op == 'J' ? "EXAMINE" : "SELECT", names[a.idx]);
            x->selname = names[a.idx];
            // a DELETE or RENAME in flight may end it
            for(int i = 0; i < nsess; i++) if(&ss[i] != x && ss[i].used && ss[i].op == OP_LIST) x->mayend = true;
            break;
        case 'W': throw_out(names[a.idx], false); cl_send(x, OP_LIST, "DELETE \"%s\"", names[a.idx]); break;
        case 'P': cl_send(x, OP_LIST, "CREATE \"%s\"", names[a.idx]); break;
        case 'T': cl_send(x, OP_STATUS, "STATUS \"%s\" (MESSAGES UNSEEN UIDNEXT UIDVALIDITY RECENT)", names[a.idx]); break;
        case 'M': {
            const char *from = names[a.idx / 32], *to = names[a.idx % 32];
            throw_out(from, strcasecmp(from, "INBOX")); throw_out(to, false);
            cl_send(x, OP_LIST, "RENAME \"%s\" \"%s\"", from, to);
        } break;
        case 'Z':
            x->intent = add_intent(x, IN_COPY);
            ints[x->intent].dst = -2; ints[x->intent].dname = names[a.idx];
            intent_view(x, &ints[x->intent], 0);
            cl_send(x, OP_COPY, "COPY 1 \"%s\"", names[a.idx]);
            break;
        case 'Q': {
            x->intent = add_intent(x, IN_APPEND);
            int c = new_content(false);
            ints[x->intent].dst = -2; ints[x->intent].dname = names[a.idx]; ints[x->intent].fl = F_DRAFT;
            ints[x->intent].cont[0] = c; ints[x->intent].ncont = 1;
            cl_send(x, OP_APPEND, "APPEND \"%s\" (\\Draft) {%zu}", names[a.idx], conts[c].plain.n);
        } break;
        case 'Y': cl_send(x, OP_LIST, "CREATE %s", mb[1].name); break;
        case 'A': {
            x->intent = add_intent(x, IN_APPEND);
            int c = new_content(false);
            ints[x->intent].dst = 0; ints[x->intent].fl = F_DRAFT;
            ints[x->intent].cont[0] = c; ints[x->intent].ncont = 1;
            cl_send(x, OP_APPEND, "APPEND %s (\\Draft) {%zu}", mb[0].name, conts[c].plain.n);
        } break;
        default: mc_error("op %c", a.op);
    }
}

// --------------------------------------------------------------- server steps
static void server_step(sess_t *x){
    bool np;
    size_t n = srv_have_cmd(x, &np);
    char *cmd = malloc(n + 1);
    memcpy(cmd, x->up.out.p, n); cmd[n] = 0;
    act_t acts[MAXACT]; int na = 0;
    bool no = false;
    if(!nodev && mc_dev_left()){
        bool relay = strstr(cmd, " UID STORE ") || strstr(cmd, " UID EXPUNGE ") || strstr(cmd, " UID COPY ") || strstr(cmd, " APPEND ") || strstr(cmd, " DELETE ") || strstr(cmd, " RENAME ") || strstr(cmd, " CREATE ");
        na = enabled(o_inj, acts, MAXACT);
        unsigned k = mc_dev(1 + (unsigned)na + (o_drop ? 1 : 0) + (o_no && relay ? 1 : 0), "before a server step");
        if(k){
            if(k <= (unsigned)na){
                // something happens first
                free(cmd);
                do_act(acts[k-1]);
                return;
            }
            k -= (unsigned)na + 1;
            if(o_drop && k == 0){
                free(cmd);
                T("== upstream connection of %d breaks before: %.50s", x->id, x->up.out.p);
                srv_drop(x, true);
                return;
            }
            no = true;
            nfaults++;
            // a CLOSE whose EXPUNGE is refused ends the session (CLOSE cannot
            // be answered with NO)
            if(!strncmp(cmd, "maildir_up", 10)) x->excused = true; // deletions at the start are not allowed to fail
            if(strstr(cmd, " UID EXPUNGE "))
                for(int i = 0; i < nsess; i++) if(ss[i].used && ss[i].op == OP_CLOSE) ss[i].excused = true;
        }
    }
    b_drop(&x->up.out, n);
    stepno++;
    tdata("  s", x->id, cmd, n);
    srv_exec(x, cmd, n, no);
    free(cmd);
    tdata("  S", x->id, rsp.p, rsp.n);
    buf_t r = {0};
    b_add(&r, rsp.p, rsp.n);
    size_t ends[64]; int L = rsp_n;
    memcpy(ends, rsp_end, sizeof(ends));
    unsigned k = 0;
    if(!nodev && mc_dev_left()){
        na = o_split ? enabled(o_inj, acts, MAXACT) : 0;
        unsigned nd = o_drop ? (unsigned)L + 1 : 0;
        k = mc_dev(1 + nd + (unsigned)(L * na), "within a response");
        if(k && k <= nd){
            int j = (int)k - 1;
            T("== upstream connection of %d breaks after %d lines", x->id, j);
            b_add(&x->up.in, r.p, j ? ends[j-1] : 0);
            b_free(&r);
            settle_code();
            if(x->used) srv_drop(x, true);
            return;
        }
        if(k){
            k -= nd + 1;
            int j = (int)k / na;
            raced = true;   // commands overlap
            T("== pause after %d lines", j);
            size_t m = j ? ends[j-1] : 0;
            b_add(&x->up.in, r.p, m);
            b_add(&x->held, r.p + m, r.n - m);
            b_free(&r);
            settle_code();
            // the action may have become impossible
            act_t now[MAXACT]; int nn = enabled(o_inj, now, MAXACT);
            act_t a = acts[(int)k % na];
            for(int i = 0; i < nn; i++) if(now[i].op == a.op && now[i].sess == a.sess && now[i].idx == a.idx){ do_act(a); break; }
            run_world(x);
            T("== continue");
            if(x->used && !x->upgone) b_add(&x->up.in, x->held.p, x->held.n);
            x->held.n = 0;
            return;
        }
    }
    b_add(&x->up.in, r.p, r.n);
    b_free(&r);
}

static void run_world(sess_t *except){
    for(int guard = 0; ; guard++){
        if(guard > 2000) mc_fail("livelock-server", "the proxy keeps sending commands");
        settle_code();
        srv_idle_push();
        if(settle_code()) continue;
        sess_t *rdy[MAXSESS]; unsigned n = 0;
        bool plus = false;
        for(int i = 0; i < nsess; i++){
            sess_t *x = &ss[i];
            if(!x->used || x->upgone || x == except || x->held.n) continue;
            bool np;
            if(srv_have_cmd(x, &np)) rdy[n++] = x;
            else if(np){ mc_error("synchronizing literals are not modelled"); plus = true; }
        }
        (void)plus;
        if(!n) return;
        unsigned k = 0;
        if(n > 1 && o_order && !nodev) k = mc_dev(n, "which connection is served first");
        server_step(rdy[k]);
    }
}

// after a step: clients look at what is new to them
static void autofetch(void){
    for(int guard = 0; guard < 50; guard++){
        bool any = false;
        for(int i = 0; i < nsess; i++){
            sess_t *x = &ss[i];
            if(!idle_client(x) || x->mbox < 0) continue;
            int a = -1, b = -1;
            for(int k = 0; k < x->nv; k++) if(!x->v[k].uid || x->v[k].content < 0){ if(a < 0) a = k; b = k; }
            if(a < 0) continue;
            any = true;
            int nv = x->nv;
            x->uidmode = false;
            cl_send(x, OP_FETCH, "FETCH %d:%d (UID FLAGS INTERNALDATE BODY.PEEK[])", a + 1, b + 1);
            run_world(NULL);
            if(idle_client(x)){
                MC_CHECK(x->status == 1, "fetch-failed", "client %d: FETCH of new messages failed: %s", x->id, x->stline);
                MC_CHECK(x->nv >= nv, "expunge-forbidden", "messages disappeared during FETCH");
                for(int k = a; k <= b; k++) MC_CHECK(x->v[k].uid && x->v[k].content >= 0, "fetch-incomplete",
                    "client %d: FETCH %d:%d did not deliver message %d", x->id, a + 1, b + 1, k + 1);
                for(int k = a; k <= b; k++) MC_CHECK(x->v[k].date[0], "date-missing",
                    "client %d: FETCH %d:%d (INTERNALDATE) gave no date for message %d", x->id, a + 1, b + 1, k + 1);
            }
        }
        if(!any) return;
    }
    mc_error("autofetch does not end");
}
static void check_answers(void){
    for(int i = 0; i < nsess; i++){
        sess_t *x = &ss[i];
        if(!live(x)) continue;
        MC_CHECK(x->greeted, "no-greeting", "client %d was not greeted", x->id);
        if(x->op != OP_NONE && !(x->op == OP_IDLE && x->idling))
            mc_fail("no-completion", "client %d: command \"%s\" is never answered", x->id, x->tag);
    }
}
static void check_tree(void);
static void floors_after_select(sess_t *x){
    // every message of the mailbox is known now: later ones must get UIDs
    // from the announced UIDNEXT on
    if(!x->uidnext) return;
    if(nfloors == 128) mc_error("floors full");
    floors[nfloors++] = (floor_t){ x->mbox, x->uidvld, x->uidnext };
}
static void step(act_t a){
    sess_t *x = a.sess >= 0 ? &ss[a.sess] : NULL;
    do_act(a);
    int cmdno = x ? x->ncmd : 0;
    run_world(NULL);
    check_answers();
    bool selected = x && x->ncmd == cmdno && (a.op == 's' || a.op == 'e' || a.op == 'o' || a.op == 'S' || a.op == 'J') && idle_client(x) && x->mbox >= 0;
    unsigned un = x ? x->uidnext : 0; int nv = x ? x->nv : 0;
    autofetch();
    check_answers();
    if(selected && idle_client(x)){
        for(int i = 0; i < nv && i < x->nv; i++)
            MC_CHECK(x->v[i].uid < un || !un, "uidnext-low", "UIDNEXT %u was announced but UID %u exists", un, x->v[i].uid);
        floors_after_select(x);
    }
    if(x && (a.op == 'S' || a.op == 'J') && x->used && live(x)){
        MC_CHECK(x->status != 1 || good_name(names[a.idx]), "select-hostile", "SELECT of \"%s\" was answered OK", names[a.idx]);
        if(x->status != 1 && mbox_by_name(names[a.idx]) < 0 && good_name(names[a.idx])) add_gone(names[a.idx]);
    }
    check_tree();
}

// ------------------------------------------------------------- final checking
static int cmpint(const void *a, const void *b){ return *(const int*)a - *(const int*)b; }
static void compare(sess_t *x, const char *when){
    int b = x->mbox, got[MAXVIEW], want[MAXMSG], nw = 0;
    for(int i = 0; i < x->nv; i++){
        MC_CHECK(x->v[i].content >= 0, "view-unknown", "client %d (%s): message %d has no content", x->id, when, i + 1);
        got[i] = x->v[i].content * 64 + (int)(x->v[i].fl & 31);
    }
    for(int i = 0; i < mb[b].n; i++)
        if(!conts[mb[b].m[i].content].not4me) want[nw++] = mb[b].m[i].content * 64 + (int)mb[b].m[i].fl;
    qsort(got, (size_t)x->nv, sizeof(int), cmpint);
    qsort(want, (size_t)nw, sizeof(int), cmpint);
    buf_t g = {0}, w = {0};
    for(int i = 0; i < x->nv; i++) b_fmt(&g, " m%d/%x", got[i] / 64, got[i] % 64);
    for(int i = 0; i < nw; i++) b_fmt(&w, " m%d/%x", want[i] / 64, want[i] % 64);
    if(x->nv != nw || memcmp(got, want, sizeof(int) * (size_t)nw)){
        // a message which was added through the proxy and expunged by someone
        // else before the server ever told this connection about it: the
        // proxy hears of the expunge only when the mailbox is selected again
        int ng = 0, extra = 0;
        for(int i = 0; i < x->nv; i++){
            int c = x->v[i].content;
            if(mb_find_content(b, c) >= 0) continue;
            extra++;
            ng += conts[c].ghost;
        }
        bool ghost = *when == 'a' && ng && ng == extra && x->nv - ng == nw;
        if(ghost) mc_soft("ghost-after-append", "a message appended and then expunged elsewhere stays visible until the mailbox is selected again");
        else mc_fail("not-converged", "client %d (%s) sees%s but the server has%s (message/flags)", x->id, when, g.n ? g.p : " nothing", w.n ? w.p : " nothing");
    }
    b_free(&g); b_free(&w);
}
static void look(sess_t *x){
    // the numbering the proxy uses now is the one the client has
    int nv = x->nv;
    if(nv){
        x->uidmode = false;
        cl_send(x, OP_FETCH, "FETCH 1:* (UID FLAGS)");
        run_world(NULL);
        check_answers();
        if(!idle_client(x)) return;
        MC_CHECK(x->status == 1, "fetch-failed", "client %d: FETCH 1:* failed: %s", x->id, x->stline);
        MC_CHECK(x->fetchcount == nv, "view-size",
            "client %d knows %d messages, FETCH 1:* delivered %d", x->id, nv, x->fetchcount);
    }
}
static void noop(sess_t *x){
    x->uidmode = false;
    cl_send(x, OP_NOOP, "NOOP");
    run_world(NULL);
    check_answers();
    autofetch();
}
static void finale(void){
    nodev = true;
    run_world(NULL);
    check_answers();
    autofetch();
    for(int i = 0; i < nsess; i++){
        sess_t *x = &ss[i];
        if(live(x) && x->op == OP_IDLE){
            int n = 0;
            for(int k = 0; k < mb[x->mbox].n; k++) n += !conts[mb[x->mbox].m[k].content].not4me;
            int ng = 0;
            for(int k = 0; k < nconts; k++) ng += conts[k].ghost;
            if(x->nv > n && x->nv <= n + ng) mc_soft("ghost-after-append", "a message appended and then expunged elsewhere stays visible until the mailbox is selected again");
            else MC_CHECK(x->nv == n, "idle-stale", "client %d is in IDLE and knows %d messages, the server has %d", x->id, x->nv, n);
            for(int k = 0; k < x->nv; k++) if(x->v[k].content >= 0 && x->v[k].flknown){
                int s = mb_find_content(x->mbox, x->v[k].content);
                MC_CHECK(s < 0 || (x->v[k].fl & 31) == mb[x->mbox].m[s].fl, "idle-stale-flags",
                    "client %d is in IDLE and sees m%d with flags %x, the server has %x", x->id, x->v[k].content, x->v[k].fl & 31, mb[x->mbox].m[s].fl);
            }
            do_act((act_t){ 'D', i, 0 });
            run_world(NULL);
            check_answers();
            autofetch();
        }
    }
    for(int i = 0; i < nsess; i++){
        sess_t *x = &ss[i];
        if(!idle_client(x) || x->mbox < 0) continue;
        look(x);
        noop(x);
        if(idle_client(x)) look(x);
        if(idle_client(x)) compare(x, "after NOOP");
    }
    uint64_t h = 0;
    for(int b = 0; b < nmb; b++) for(int i = 0; i < mb[b].n; i++) h = mc_hash_u(h, (uint64_t)mb[b].m[i].content * 64 + mb[b].m[i].fl);
    mc_outcome(mc_hash_u(h, (uint64_t)neffs));
    // everybody leaves, somebody new looks
    for(int i = 0; i < nsess; i++) if(idle_client(&ss[i])) do_act((act_t){ 'l', i, 0 });
    run_world(NULL);
    for(int b = 0; b < nmb; b++){
        if(!mb[b].exists || !good_name(mb[b].name)) continue;
        if(nsess == MAXSESS) mc_error("too many sessions");
        connect_sess();
        sess_t *x = &ss[nsess-1];
        run_world(NULL);
        MC_CHECK(idle_client(x), "no-greeting", "a new client is not greeted");
        x->selmbox = b; x->selexamine = true;
        cl_send(x, OP_EXAMINE, "EXAMINE \"%s\"", mb[b].name);
        run_world(NULL);
        check_answers();
        MC_CHECK(x->status == 1, "select-failed", "a new client cannot open the mailbox: %s", x->stline);
        autofetch();
        noop(x);
        look(x);
        compare(x, "new client");
        do_act((act_t){ 'l', x->id, 0 });
        run_world(NULL);
        MC_CHECK(!x->used, "logout-hangs", "LOGOUT does not end the session");
    }
}

// ------------------------------------------------------------ the local tree
static const char *o_tree; static char rootpath[300];
// -o gen=tok,tok,...@len: the name "?" stands for every concatenation of 1..len
// of the tokens, one per execution
static char **gen; static int ngen;
static void make_gen(const char *o){
    if(!*o) return;
    char *d = strdup(o), *at = strrchr(d, '@'), *tok[32];
    int len = atoi(at + 1), nt = 0;
    *at = 0;
    for(char *t = d, *q; t; t = q){ if((q = strchr(t, ','))) *q++ = 0; tok[nt++] = t; }
    int lo = 0;
    for(int l = 0; l < len; l++){
        int hi = ngen;
        for(int i = l ? lo : -1; i < (l ? hi : 0); i++)
            for(int k = 0; k < nt; k++){
                const char *pre = l ? gen[i] : "";
                char *nm = malloc(strlen(pre) + strlen(tok[k]) + 1);
                strcpy(nm, pre); strcat(nm, tok[k]);
                gen = realloc(gen, (size_t)(ngen + 1) * sizeof(*gen));
                gen[ngen++] = nm;
            }
        lo = hi;
    }
}
static uint64_t outside0; static uint64_t outh; static char wpath[1200];
static int w_outside(const char *p, const struct stat *s, int f, struct FTW *b){
    (void)s; (void)b;
    size_t n = strlen(dirpath);
    if(!strncmp(p, dirpath, n) && (!p[n] || p[n] == '/')) return 0;
    uint64_t h = mc_hash(1, p, strlen(p));
    if(f == FTW_F){
        char buf[300]; FILE *fp = __real_fopen(p, "r");
        size_t k = fp ? fread(buf, 1, sizeof(buf), fp) : 0;
        if(fp) __real_fclose(fp);
        h = mc_hash(h, buf, k);
    }
    outh += h;  // the order of the walk does not matter
    return 0;
}
static uint64_t outside(void){
    outh = 0;
    nftw(rootpath, w_outside, 16, FTW_PHYS);
    return outh;
}
// is there a message file with that content (any content: -1)?
static bool has_file(const char *name, int content){
    char p[1000]; snprintf(p, sizeof(p), "%s/%s/cur", dirpath, name);
    DIR *d = opendir(p);
    if(!d) return false;
    bool ok = false;
    for(struct dirent *e; !ok && (e = readdir(d)); ){
        if(*e->d_name == '.') continue;
        char q[1400], b[2000]; snprintf(q, sizeof(q), "%s/%s", p, e->d_name);
        FILE *f = __real_fopen(q, "r");
        if(!f) continue;
        size_t n = fread(b, 1, sizeof(b), f);
        __real_fclose(f);
        ok = content < 0 || content_by_plain(b, n) == content;
    }
    closedir(d);
    return ok;
}
static void check_tree(void){
    if(!*o_tree) return;
    MC_CHECK(outside() == outside0, "tree-escape", "something outside the mail directory was changed");
    for(int i = 0; i < nmb; i++){
        smbox_t *m = &mb[i];
        if(!m->exists) continue;
        for(int k = 0; k < m->n; k++)
            if(local[i][m->m[k].content])
                MC_CHECK(has_file(m->name, m->m[k].content), "tree-lost",
                    "the local copy of m%d in \"%s\" is gone, although the mailbox still has it", m->m[k].content, m->name);
    }
    for(int i = 0; i < ngone && !nfaults; i++)
        if(mbox_by_name(gone[i]) < 0)
            MC_CHECK(!has_file(gone[i], -1), "tree-leftover", "\"%s\" does not exist any more, but its local copy does", gone[i]);
}
static int w_left(const char *p, const struct stat *s, int f, struct FTW *b){
    (void)s;
    size_t n = strlen(dirpath);
    if((f != FTW_D && f != FTW_DP) || !p[n]) return 0;
    p += n + 1;
    const char *l = p + b->base - n - 1;
    if(!strcmp(l, "cur") || !strcmp(l, "tmp") || !strcmp(l, "new")) return 0;
    bool ok = false;
    for(int i = 0; i < nmb; i++) if(mb[i].exists) ok |= !strcmp(mb[i].name, p) || inferior(p, mb[i].name);
    if(!ok) snprintf(wpath, sizeof(wpath), "%s", p);
    return 0;
}

static int rmcb(const char *p, const struct stat *s, int f, struct FTW *b){
    (void)s; (void)f; (void)b; return __real_remove(p);
}
static void wipe(void){
    if(strncmp(rootpath, "/dev/shm/mc.", 12) && strncmp(rootpath, "/tmp/mc.", 8)) mc_error("scratch path");
    nftw(rootpath, rmcb, 16, FTW_DEPTH|FTW_PHYS);
}
static void mkd(const char *p){
    char t[600]; snprintf(t, sizeof(t), "%s", p);
    for(char *q = t + 1; *q; q++) if(*q == '/'){ *q = 0; __real_mkdir(t, 0700); *q = '/'; }
    __real_mkdir(t, 0700);
}
static void plant(const char *rel){
    char t[600], u[700];
    snprintf(t, sizeof(t), "%s/%s", rootpath, rel); mkd(t);
    snprintf(u, sizeof(u), "%s/cur", t); mkd(u);
    snprintf(u, sizeof(u), "%s/cur/1.1,1:2,", t);
    FILE *f = __real_fopen(u, "w"); fprintf(f, "victim"); __real_fclose(f);
    snprintf(u, sizeof(u), "%s/.cache", t);
    f = __real_fopen(u, "w"); fprintf(f, "victim"); __real_fclose(f);
}

static void reset(void){
    snprintf(rootpath, sizeof(rootpath), "%s/mail%d", mc_scratch(), (int)getpid());
    snprintf(dirpath, sizeof(dirpath), "%s%s", rootpath, *o_tree ? "/r/s/t/u/acct/mail" : "");
    wipe();
    mkd(dirpath);
    if(*o_tree){
        plant("r/s/t/u/acct"); plant("r/s/t/u/acct/x"); plant("r/s/t/u/o/mail/INBOX"); plant("r/s/t/u/o"); plant("r/s/t/u"); plant("r/s/t/z");
        outside0 = outside();
    }
    memset(local, 0, sizeof(local)); ngone = 0; raced = false;
    memset(mb, 0, sizeof(mb));
    nmb = 2; next_vld = 300;
    mb[0] = (smbox_t){ .name = "INBOX", .uidvld = 100, .uidnext = 1, .himodseq = 1, .exists = true };
    mb[1] = (smbox_t){ .name = "Other", .uidvld = 200, .uidnext = 1, .himodseq = 1, .exists = true };
    for(int i = 0; i < nconts; i++){ b_free(&conts[i].body); b_free(&conts[i].plain); }
    nconts = 0;
    const char *genname = "?";
    if(ngen){
        genname = gen[mc_choose(ngen, "name")];
        for(int i = 0; i < nnames; i++) if(name_is_gen[i]) names[i] = (char*)genname;
        T("the name is \"%s\"", genname);
    }
    if(*o_tree){
        mb[1].exists = false; nmb = 1;
        char t[2000]; snprintf(t, sizeof(t), "%s", o_tree);
        for(char *p = t, *q; p; p = q){
            if((q = strchr(p, ':'))) *q++ = 0;
            if(!strcmp(p, "?")){ p = (char*)genname; if(mbox_by_name(p) >= 0) continue; }
            int d = !strcmp(p, "INBOX") ? 0 : mb_new(p);
            mb_add(d, new_content(false), 0);
        }
    }
    nsess = neffs = nints = stepno = nlearned = nfloors = nfaults = nresets = 0;
    memset(dlcount, 0, sizeof(dlcount)); memset(dlseen, 0, sizeof(dlseen));
    crashed_ever = disk_was_full = false; ncrash = 0;
    vtime = 1600000000;
    sched = manual_scheduler(&msched);
    dm_open = false;
}

static void prelude(const char *p){
    while(*p){
        act_t acts[MAXACT];
        char op[2] = { *p++, 0 };
        int want = -1;
        if(isdigit((unsigned char)*p)) want = *p++ - '0';
        int n = enabled(op, acts, MAXACT);
        int k = -1;
        if(strchr("SJWPQTZM", *op)){
            // by the last session; the name's number (two for M)
            if(*op == 'M'){ want = want * 32 + *p++ - '0'; }
            for(int i = 0; i < n; i++) if(acts[i].idx == want) k = i;
            if(k < 0) mc_error("prelude: %s%d not possible", op, want);
            step(acts[k]);
            continue;
        }
        for(int i = n - 1; i >= 0; i--){
            if(want >= 0 && (strchr(server_ops, op[0]) ? acts[i].idx : acts[i].sess) != want) continue;
            k = i;
        }
        if(k < 0) mc_error("prelude: %s%d not possible", op, want);
        step(acts[k]);
    }
}

static void after_crash(void){
    ncrash++;
    // the process is gone: all objects are abandoned
    crashed_ever = true; nfaults++;
    crash_armed = false;
    for(int i = 0; i < nsess; i++){
        sess_t *x = &ss[i];
        if(!x->used) continue;
        if(x->intent >= 0 && !ints[x->intent].answer) ints[x->intent].answer = 3;
        x->used = false; x->umbox = -1; x->upgone = true;
    }
    sched = manual_scheduler(&msched);
    memset(&dm, 0, sizeof(dm));
    dm_open = false;
    vtime += 10;
}

static void body(void){
    volatile int left = (int)o_depth;
    if(o_crash && sigsetjmp(crash_env, 0)){
        after_crash();
        // the next process runs an ordinary session before the final look,
        // and may die too
        left = 0;
        crash_armed = ncrash < o_crash;
        nodev = false;
        connect_sess(); run_world(NULL);
        step((act_t){ 's', nsess - 1, 0 });
        if(strchr(o_pre, 'o') || strchr(o_menu, 'o')){
            // the other mailbox must open, too
            if(!mb[1].exists) step((act_t){ 'v', -1, 0 });
            connect_sess(); run_world(NULL);
            step((act_t){ 'o', nsess - 1, 0 });
            MC_CHECK(ss[nsess-1].used && ss[nsess-1].mbox == 1, "other-lost", "the second mailbox cannot be opened any more");
        }
        crash_armed = false;
    }else{
        nodev = true;
        prelude(o_pre);
        nodev = false;
        crash_armed = o_crash;
    }
    while(left-- > 0){
        act_t acts[MAXACT];
        int n = enabled(o_menu, acts, MAXACT);
        if(!n) break;
        unsigned k = mc_choose((unsigned)n, "next step");
        step(acts[k]);
        if(crashed_ever && left == 0) break;
    }
    crash_armed = false;
    finale();
    nodev = true;
    for(int i = 0; i < nsess; i++) if(ss[i].used){ ss[i].excused = true; ss[i].up.broken = true; ss[i].dn.broken = true; }
    settle_code();
    for(int i = 0; i < nsess; i++) MC_CHECK(!ss[i].used, "never-ends", "session %d never finishes after its connections broke", i);
    dirmgr_free(&dm);
    dm_open = false;
    if(*o_tree){
        check_tree();
        *wpath = 0;
        nftw(dirpath, w_left, 16, FTW_PHYS);
        MC_CHECK(!*wpath || nfaults || raced, "tree-unpruned", "the directory \"%s\" is left, but there is no such mailbox", wpath);
    }
}

static void run(void){
    reset();
    body();
    wipe();
    mc_note(mc_hash_u((uint64_t)neffs, (uint64_t)nints));
}

static void init(void){
    setenv("TZ", "UTC", 1); tzset();
    o_pre = mc_opts("pre", "nnncs"); o_menu = mc_opts("menu", "nfxtbECN"); o_inj = mc_opts("inj", "nfx");
    o_depth = mc_opt("depth", 2); o_sess = mc_opt("sess", 2);
    o_drop = mc_opt("drop", 1); o_no = mc_opt("no", 1); o_split = mc_opt("split", 1);
    o_crash = mc_opt("crash", 0); o_grow = mc_opt("grow", 997); disk_full = mc_opt("full", 0); o_uid = mc_opt("uid", 0); o_idx = mc_opt("idx", 2); o_order = mc_opt("order", 1);
    o_names = mc_opts("names", "INBOX:Other"); o_tree = mc_opts("tree", "");
    for(char *t = strdup(o_names), *q; t; t = q){ if((q = strchr(t, ':'))) *q++ = 0; name_is_gen[nnames] = !strcmp(t, "?"); names[nnames++] = t; }
    make_gen(mc_opts("gen", ""));
    if(mc_verbose()) logger_add_fileptr(LOG_LVL_INFO, stderr);
    derr_t e = keypair_from_private_pem(&kp, mykey_priv);
    if(is_error(e)) mc_error("key");
    link_list_append(&keylist, &kp->link);
}

#ifndef A_MAIL_LIB
int main(int argc, char **argv){
    bool fork_each = false;
    for(int i = 1; i < argc; i++) if(!strncmp(argv[i], "crash=", 6) && argv[i][6] != '0') fork_each = true;
    mc_harness_t h = { .name = "a_mail", .run = run, .init = init, .exec_timeout = 30, .fork_each = fork_each };
    return mc_main(argc, argv, &h);
}
#endif
