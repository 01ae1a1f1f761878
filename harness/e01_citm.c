// The real citm_t with its real io_pair_t, anon_t, preuser_t, user_t, sc_t,
// imap_server_t, imap_client_t and keydir_t, between model IMAP clients and a
// model IMAP server over in-memory streams.  The explorer decides which peer
// or connection moves next, where peers fail, and when citm is shut down.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <ftw.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

#include "libcitm/libcitm.h"
#include "mc/mc.h"
#include "harness/ms.h"

#define NC 4        // clients
#define NUP 24      // upward connections
#define NCN 24      // connection attempts
#define NU 2        // users

static const char *plans[NC]; static int nplans;
static char planbuf[128];
static bool newkey; static int lazy, slowclose; static bool closing_; static int keychanges;

typedef enum { ST_NEW, ST_OPEN, ST_OVER } cst_e;

typedef struct {
    ms_t s;
    citm_conn_t conn;
    bool used, freed;
    // client side
    int ci;
    // server side
    int sess;       // the client this connection was opened for, or -1
    int user;       // logged in as, or -1
    bool greeted;
    buf_t line;
    buf_t pend;     // replies ready to be sent
    char synctag[64];
    bool syncing;
    bool faulted;
    bool said;      // the last words to the peer were sent
    int nenable;
} mconn_t;

typedef struct {
    citm_connect_i iface;
    citm_conn_cb cb; void *data;
    bool used, canceled, over;
    int sess;
} mcn_t;

typedef struct {
    const char *plan; int pos;
    int user;
    cst_e st;
    mconn_t *dn;
    int nup;            // upward connections made for it
    mconn_t *up;
    mcn_t *cn;
    bool waiting;       // for the answer of step pos
    bool greeted, bye, excused, accepted, finished;
    bool faulted;       // its own connection
    char tag[16];
    int ncmd;
    int lastuid;
    int nlines;
    bool selected;
    bool appsure; int appchg;   // what the proxy surely knew when the upload began
    bool in;            // was told that the login succeeded
    bool attached;      // so before the own key was deleted
} cl_t;

static mconn_t dn[NC], up[NUP];
static mcn_t cn[NCN];
static cl_t cl[NC];
static int nup, ncn;
static int onconn;      // client being handed over, or -1
static citm_t citm;
static manual_scheduler_t msched;
static scheduler_i *sched;
static bool canceled;
static bool unsettled[NU];
// the one other key of each account, and whether the proxy surely knows of it
static bool haspeer[NU], sure[NU], mydel[NU], known[NU], followed[NU], early[NU];
static int nuid[NU], nchg[NU];
static char pfpr[128];
static keypair_t *peerkey;
static char apptext[NC][256];
static char root[256];
static int live;        // connections opened and not freed

// ------------------------------------------------------------------- files
static int rm_cb(const char *p, const struct stat *st, int t, struct FTW *f){
    (void)st; (void)t; (void)f;
    return remove(p);
}
static void rmtree(const char *p){ nftw(p, rm_cb, 16, FTW_DEPTH | FTW_PHYS); }
static void mkdirs(const char *p){
    char b[512];
    snprintf(b, sizeof(b), "%s", p);
    for(char *c = b + 1; *c; c++) if(*c == '/'){ *c = 0; mkdir(b, 0700); *c = '/'; }
    mkdir(b, 0700);
}
static char keypem[NU][8192]; static size_t keypemlen[NU];
static char fpr[NU][128];
static keypair_t *keys[NU];

// reading a key is most of the time of an execution, so read each key once
derr_t __real_keypair_load_private_path(keypair_t **out, const string_builder_t *path);
derr_t __wrap_keypair_load_private_path(keypair_t **out, const string_builder_t *path);
derr_t __wrap_keypair_load_private_path(keypair_t **out, const string_builder_t *path){
    DSTR_VAR(buf, 1024);
    derr_t e = FMT(&buf, "%x", FSB(*path));
    if(is_error(e)) mc_error("path");
    for(int u = 0; u < NU; u++){
        char w[512];
        int n = snprintf(w, sizeof(w), "%s/u%d/keys/mykey.pem", root, u);
        if(!keys[u] || buf.len != (size_t)n || memcmp(w, buf.data, buf.len)) continue;
        return keypair_copy(keys[u], out);
    }
    return __real_keypair_load_private_path(out, path);
}
static char peerpem[4096];

// -------------------------------------------------------------- connections
static void conn_free(citm_conn_t *c){
    mconn_t *m = NULL;
    for(int i = 0; i < NC; i++) if(&dn[i].conn == c) m = &dn[i];
    for(int i = 0; i < NUP; i++) if(&up[i].conn == c) m = &up[i];
    if(!m || !m->used) mc_fail("free-unknown", "a connection which was never handed out was freed");
    if(m->freed) mc_fail("double-free", "a connection was closed twice");
    if(!m->s.iface.awaited) mc_fail("free-early", "a connection was freed while its stream was still in use");
    m->freed = true;
    live--;
}

static void conn_open(mconn_t *m){
    *m = (mconn_t){ .used = true, .ci = -1, .sess = -1, .user = -1 };
    ms_init(&m->s);
    m->conn = (citm_conn_t){
        .stream = &m->s.iface, .security = IMAP_SEC_INSECURE, .free = conn_free,
    };
    live++;
}

static void cn_cancel(citm_connect_i *iface){
    mcn_t *c = NULL;
    for(int i = 0; i < ncn; i++) if(&cn[i].iface == iface) c = &cn[i];
    if(!c || c->over) mc_fail("connect-cancel", "a connection attempt was canceled after its end");
    c->canceled = true;
}

static derr_t connect_imap(citm_io_i *io, citm_conn_cb cb, void *data, citm_connect_i **out){
    derr_t e = E_OK;
    (void)io;
    if(ncn == NCN) mc_fail("connects", "more than %d connection attempts upwards", NCN);
    if(onconn < 0 && canceled) mc_fail("connect-after-cancel", "a connection upwards was started after the shutdown began");
    mcn_t *c = &cn[ncn++];
    *c = (mcn_t){ .iface = { .cancel = cn_cancel }, .cb = cb, .data = data, .used = true, .sess = onconn };
    if(onconn >= 0) cl[onconn].cn = c;
    *out = &c->iface;
    return e;
}
static citm_io_i io = { .connect_imap = connect_imap };

// -------------------------------------------------------------------- judge
// a fault on something that belongs to client i alone
static void excuse(int i){ cl[i].excused = true; }
// a fault on the key connection of a user (-1: of an unknown user)
static void excuse_user(int u){
    for(int i = 0; i < nplans; i++){
        if(u >= 0 && cl[i].user != u) continue;
        if(cl[i].accepted && cl[i].st != ST_OVER) excuse(i);
    }
    for(int i = 0; i < NU; i++) if(u < 0 || u == i) unsettled[i] = true;
}

// --------------------------------------------------------------- the server
static bool word_is(const char *p, const char *w){
    size_t n = strlen(w);
    return !strncasecmp(p, w, n) && (p[n] == ' ' || p[n] == '\r' || !p[n]);
}

static bool opens(keypair_t *kp, const dstr_t cipher, buf_t *plain){
    derr_t e = E_OK;
    dstr_t copy = {0}, out = {0}, block = {0};
    decrypter_t dc = {0};
    LIST(dstr_t) recips = {0};
    plain->n = 0;
    PROP_GO(&e, dstr_copy(&cipher, &copy), cu);
    PROP_GO(&e, dstr_new(&out, 4096), cu);
    PROP_GO(&e, LIST_NEW(dstr_t, &recips, 512), cu);
    PROP_GO(&e, dstr_new(&block, 1024), cu);
    PROP_GO(&e, decrypter_new(&dc), cu);
    PROP_GO(&e, decrypter_start(&dc, kp, &recips, &block), cu);
    PROP_GO(&e, decrypter_update(&dc, &copy, &out), cu);
    PROP_GO(&e, decrypter_finish(&dc, &out), cu);
    b_add(plain, out.data, out.len);
cu:
    decrypter_free(&dc);
    dstr_free(&block); LIST_FREE(dstr_t, &recips); dstr_free(&out); dstr_free(&copy);
    bool ok = !is_error(e);
    DROP_VAR(&e);
    return ok;
}

// an uploaded message reached the server
static void srv_append(mconn_t *m, const char *msg, size_t n){
    cl_t *c = &cl[m->sess];
    int u = m->user, i = m->sess;
    buf_t plain = {0};
    if(memmem(msg, n, "secret", 6)) mc_fail("plaintext", "an uploaded message left the proxy unencrypted");
    dstr_t cipher = dstr_from_cstrn((char*)msg, n, false);
    if(!opens(keys[u], cipher, &plain))
        mc_fail("append-own", "the upload of client %d can not be decrypted on this device", i);
    if(plain.n != strlen(apptext[i]) || memcmp(plain.p, apptext[i], plain.n))
        mc_fail("append-text", "the upload of client %d is not what was sent", i);
    for(int o = 0; o < NU; o++) if(o != u && opens(keys[o], cipher, &plain))
        mc_fail("append-other", "the upload of client %d is readable for another user", i);
    bool peer = opens(peerkey, cipher, &plain);
    if(peer && (plain.n != strlen(apptext[i]) || memcmp(plain.p, apptext[i], plain.n)))
        mc_fail("append-text", "the upload of client %d is not what was sent", i);
    if(c->appsure && c->appchg == nchg[u] && peer != haspeer[u])
        mc_fail(peer ? "append-deleted" : "append-peer", "the upload of client %d can %sbe read by the %s key", i,
            peer ? "" : "not ", peer ? "deleted" : "new");
    b_free(&plain);
}

// one complete command line
static void srv_cmd(mconn_t *m, char *ln, size_t len){
    buf_t *o = &m->pend;
    if(!strcmp(ln, "DONE")){
        if(!m->syncing) mc_fail("proto-done", "DONE without a command it could end");
        m->syncing = false;
        b_fmt(o, "%s OK done\r\n", m->synctag);
        return;
    }
    if(m->syncing) mc_fail("proto-sync", "a command during XKEYSYNC or IDLE: %.40s", ln);
    char tag[64]; int k = 0;
    if(sscanf(ln, "%63s %n", tag, &k) != 1) mc_fail("proto-tag", "bad line to the server: %.40s", ln);
    char *p = ln + k;
    if(word_is(p, "LOGIN")){
        if(m->user >= 0) mc_fail("proto-login", "a second LOGIN on a connection");
        char us[64] = "", pa[64] = "";
        sscanf(p + 6, "%63s %63s", us, pa);
        int u = -1;
        for(int i = 0; i < NU; i++){
            char n[8]; snprintf(n, sizeof(n), "u%d", i);
            if(!strcmp(us, n)) u = i;
        }
        if(u < 0 || strcmp(pa, "good")){
            if(m->sess < 0) mc_fail("proto-pass", "a key connection logged in with %s/%s", us, pa);
            b_fmt(o, "%s NO wrong\r\n", tag);
            return;
        }
        m->user = u;
        if(m->sess >= 0){
            if(cl[m->sess].user != u) mc_fail("wrong-user", "the session of u%d was logged in as u%d", cl[m->sess].user, u);
            cl[m->sess].accepted = true;
            if(unsettled[u]) excuse(m->sess);
        }
        b_fmt(o, "%s OK [CAPABILITY IMAP4rev1 ENABLE UNSELECT IDLE UIDPLUS QRESYNC CONDSTORE XKEY] in\r\n", tag);
        return;
    }
    if(m->user < 0) mc_fail("proto-early", "a command before the login: %.40s", ln);
    if(word_is(p, "XKEYSYNC")){
        if(m->sess >= 0) mc_fail("proto-xkey", "XKEYSYNC on a session's connection");
        bool mine = strcasestr(p, fpr[m->user]) != NULL;
        if(!mine) mc_fail("proto-mykey", "XKEYSYNC does not list the own key");
        if(newkey && !strncmp(tag, "preuser", 7)) b_fmt(o, "* XKEYSYNC DELETED %s\r\n", fpr[m->user]);
        bool has = strcasestr(p, pfpr) != NULL;
        if(has && !haspeer[m->user]) b_fmt(o, "* XKEYSYNC DELETED %s\r\n", pfpr);
        if(!has && haspeer[m->user]) b_fmt(o, "* XKEYSYNC CREATED {%zu}\r\n%s\r\n", strlen(peerpem), peerpem);
        if(has != haspeer[m->user]) { sure[m->user] = false; nchg[m->user]++; }
        b_fmt(o, "* XKEYSYNC OK\r\n+ OK\r\n");
        m->syncing = true;
        snprintf(m->synctag, sizeof(m->synctag), "%s", tag);
        return;
    }
    if(word_is(p, "XKEYADD")){
        b_fmt(o, "%s OK added\r\n", tag);
        return;
    }
    if(m->sess < 0) mc_fail("proto-key", "unexpected command on the key connection: %.40s", ln);
    if(word_is(p, "ENABLE")){
        b_fmt(o, "* ENABLED CONDSTORE QRESYNC\r\n%s OK enabled\r\n", tag);
    }else if(word_is(p, "CREATE")){
        // the name tells which client and which command this is
        int c, n; char v[16];
        if(sscanf(p, "CREATE c%dn%d%15s", &c, &n, v) != 3 || c != m->sess)
            mc_fail("wrong-session", "the command %.40s came over the connection of client %d", ln, m->sess);
        b_fmt(o, "%s %s\r\n", tag, v[0] == 'x' ? "NO not created" : "OK created");
    }else if(word_is(p, "APPEND")){
        char *br = strchr(p, '{');
        unsigned n;
        char *nl = br ? strstr(br, "\r\n") : NULL;
        if(!nl || sscanf(br, "{%u", &n) != 1 || (size_t)(nl + 2 - ln) + n > len) mc_fail("proto-append", "bad APPEND to the server: %.60s", ln);
        srv_append(m, nl + 2, n);
        b_fmt(o, "%s OK [APPENDUID 1 %d] stored\r\n", tag, ++nuid[m->user]);
    }else if(word_is(p, "SELECT")){
        b_fmt(o, "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n"
            "* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft \\*)] ok\r\n"
            "* 0 EXISTS\r\n* 0 RECENT\r\n* OK [UIDVALIDITY 1] ok\r\n* OK [UIDNEXT 1] ok\r\n"
            "* OK [HIGHESTMODSEQ 1] ok\r\n%s OK [READ-WRITE] selected\r\n", tag);
    }else if(word_is(p, "IDLE")){
        b_fmt(o, "+ idling\r\n");
        m->syncing = true;
        snprintf(m->synctag, sizeof(m->synctag), "%s", tag);
    }else if(word_is(p, "LOGOUT")){
        b_fmt(o, "* BYE bye\r\n%s OK bye\r\n", tag);
    }else{
        // CLOSE, UNSELECT, NOOP, UID FETCH, SEARCH of an empty mailbox
        if(word_is(p, "UID") && strstr(p, "SEARCH")) b_fmt(o, "* SEARCH\r\n");
        b_fmt(o, "%s OK fine\r\n", tag);
    }
}

static void srv_read(mconn_t *m){
    buf_t *b = &m->s.out;
    if(!b->n) return;
    b_add(&m->line, b->p, b->n);
    b->n = 0;
    while(m->line.n){
        // a command is complete when its last line has no literal
        size_t pos = 0;
        bool whole = false;
        while(true){
            char *nl = memmem(m->line.p + pos, m->line.n - pos, "\r\n", 2);
            if(!nl) break;
            size_t end = (size_t)(nl - m->line.p);
            unsigned lit;
            char *br = memrchr(m->line.p + pos, '{', end - pos);
            if(br && end && m->line.p[end - 1] == '}' && sscanf(br, "{%u", &lit) == 1){
                pos = end + 2 + lit;
                if(pos > m->line.n) break;
                continue;
            }
            char ln[16384];
            if(end >= sizeof(ln)) mc_fail("proto-long", "a line of %zu bytes to the server", end);
            memcpy(ln, m->line.p, end); ln[end] = 0;
            b_drop(&m->line, end + 2);
            whole = true;
            mc_log("  to server %d: %s", (int)(m - up), ln);
            if(!m->faulted) srv_cmd(m, ln, end);
            break;
        }
        if(!whole) break;
    }
}

// -------------------------------------------------------------- the clients
static char step_of(cl_t *c){ return c->plan[c->pos]; }

// what was uploaded into the selected mailbox is there at once, as it was sent
static void check_local(cl_t *c){
    if(!c->selected || c->excused) return;
    char d[512];
    snprintf(d, sizeof(d), "%s/u%d/mail/INBOX/cur", root, c->user);
    DIR *dir = opendir(d);
    if(!dir) mc_fail("local-copy", "there is no mailbox for the uploaded message");
    bool found = false;
    struct dirent *de;
    const char *want = apptext[c - cl];
    while((de = readdir(dir))){
        char f[1024], got[512];
        snprintf(f, sizeof(f), "%s/%s", d, de->d_name);
        FILE *fp = fopen(f, "r");
        if(!fp) continue;
        size_t n = fread(got, 1, sizeof(got), fp);
        fclose(fp);
        if(n == strlen(want) && !memcmp(got, want, n)) found = true;
    }
    closedir(dir);
    if(!found) mc_fail("local-copy", "the message which client %d uploaded is not in the mailbox", (int)(c - cl));
}

static void client_line(cl_t *c, char *ln){
    int i = (int)(c - cl);
    mc_log("  client %d gets: %s", i, ln);
    c->nlines++;
    // a session whose server fails during its logout may hear of both
    if(c->bye && !c->excused && strncmp(ln, c->tag, strlen(c->tag)))
        mc_fail("after-bye", "client %d was told something after BYE: %.50s", i, ln);
    if(!c->greeted){
        if(!strncmp(ln, "* OK", 4)){ c->greeted = true; return; }
        if(!strncmp(ln, "* BYE", 5) && c->excused){ c->bye = true; return; }
        mc_fail("greeting", "client %d was greeted with %.50s", i, ln);
    }
    if(!strncmp(ln, "* BYE", 5)){
        if(step_of(c) != 'O' && !c->excused && !canceled)
            mc_fail("bye", "client %d was told %.60s although nothing of it failed", i, ln);
        c->bye = true;
        return;
    }
    if(!strncmp(ln, "+ ", 2) && step_of(c) == 'A') return;
    if(!strncmp(ln, "* ", 2)){
        // selecting tells the state of the mailbox
        if(!c->selected && !strchr("SLN", step_of(c))) mc_fail("untagged", "client %d got %.60s in step %c", i, ln, step_of(c));
        return;
    }
    if(!c->waiting) mc_fail("unasked", "client %d got an answer to no question: %.60s", i, ln);
    size_t tl = strlen(c->tag);
    if(strncmp(ln, c->tag, tl) || ln[tl] != ' ')
        mc_fail("wrong-answer", "client %d waits for %s and got %.60s", i, c->tag, ln);
    char s = step_of(c);
    bool no = !strncmp(ln + tl, " NO", 3), ok = !strncmp(ln + tl, " OK", 3);
    bool expno = s == 'W' || s == 'X';
    if(expno ? !no : !ok)
        mc_fail("wrong-result", "client %d: step %c was answered %.60s", i, s, ln);
    if(s == 'L' && !c->accepted) mc_fail("false-login", "client %d was let in without the server's consent", i);
    if(s == 'O' && !c->bye) mc_fail("no-bye", "client %d was logged out without BYE", i);
    if(s == 'L') c->in = true;
    if(s == 'S') c->selected = true;
    if(s == 'A') check_local(c);
    c->waiting = false;
    c->pos++;
}

static void client_read(cl_t *c){
    buf_t *b = &c->dn->s.out;
    char *nl;
    while(b->n && (nl = memmem(b->p, b->n, "\r\n", 2))){
        size_t n = (size_t)(nl - b->p);
        char ln[2048];
        if(n >= sizeof(ln)) mc_fail("long-line", "a line of %zu bytes to a client", n);
        memcpy(ln, b->p, n); ln[n] = 0;
        b_drop(b, n + 2);
        client_line(c, ln);
    }
}

// b waits until every client has come that far
static bool barrier(void){
    for(int i = 0; i < nplans; i++){
        const char *b = strchr(cl[i].plan, 'b');
        if(!b || cl[i].st == ST_OVER) continue;
        if(cl[i].waiting || !cl[i].greeted || cl[i].pos < b - cl[i].plan) return false;
    }
    return true;
}

// can the client do its next step?
static bool client_ready(cl_t *c){
    if(c->st == ST_NEW) return !canceled;
    if(c->st != ST_OPEN || c->waiting || !c->greeted) return false;
    if(step_of(c) == 'b'){
        if(!barrier()) return false;
        c->pos++;
    }
    return step_of(c) != 0;
}

static void client_go(cl_t *c){
    int i = (int)(c - cl);
    if(c->st == ST_NEW){
        c->st = ST_OPEN;
        c->dn = &dn[i];
        conn_open(c->dn);
        c->dn->ci = i;
        mc_log("client %d connects", i);
        onconn = i;
        citm_on_imap_connection(&citm, &c->dn->conn);
        onconn = -1;
        return;
    }
    char s = step_of(c);
    buf_t *b = &c->dn->s.in;
    mc_log("client %d does %c", i, s);
    if(s == 'E' || s == 'R'){
        // leaves without a word
        if(s == 'E') c->dn->s.peer_eof = true; else c->dn->s.broken = true;
        c->finished = true;
        c->faulted = true;
        excuse(i);
        c->pos++;
        return;
    }
    snprintf(c->tag, sizeof(c->tag), "c%dt%d", i, ++c->ncmd);
    c->waiting = true;
    switch(s){
        case 'W': b_fmt(b, "%s LOGIN u%d bad\r\n", c->tag, c->user); break;
        case 'L': b_fmt(b, "%s LOGIN u%d good\r\n", c->tag, c->user); break;
        case 'N': b_fmt(b, "%s NOOP\r\n", c->tag); break;
        case 'C': b_fmt(b, "%s CREATE c%dn%dy\r\n", c->tag, i, c->ncmd); break;
        case 'X': b_fmt(b, "%s CREATE c%dn%dx\r\n", c->tag, i, c->ncmd); break;
        case 'A':
            c->appsure = sure[c->user]; c->appchg = nchg[c->user];
            snprintf(apptext[i], sizeof(apptext[i]), "Subject: s\r\n\r\nsecret %d of %d\r\n", c->ncmd, i);
            b_fmt(b, "%s APPEND INBOX {%zu}\r\n%s\r\n", c->tag, strlen(apptext[i]), apptext[i]);
            break;
        case 'S': b_fmt(b, "%s SELECT INBOX\r\n", c->tag); break;
        case 'O': b_fmt(b, "%s LOGOUT\r\n", c->tag); break;
        default: mc_error("unknown step %c", s);
    }
}

// ----------------------------------------------------------------- the loop
static bool pump_conn(mconn_t *m){
    if(!m->used || m->freed) return false;
    return ms_pump(&m->s);
}

static void peers_read(void){
    for(int i = 0; i < nup; i++) srv_read(&up[i]);
    for(int i = 0; i < nplans; i++){
        cl_t *c = &cl[i];
        if(c->st != ST_OPEN) continue;
        client_read(c);
        if(c->dn->freed){
            c->st = ST_OVER;
            if(step_of(c) == 0) c->finished = true;
            if(!c->finished && !c->excused && !canceled)
                mc_fail("dropped", "client %d was disconnected in step %d of %s although nothing of it failed", i, c->pos, c->plan);
        }
    }
}

static void run_sched(void){
    manual_scheduler_run(&msched);
    peers_read();
}

// is there anything for the event loop to do?
static int io_ready(mconn_t **out){
    int n = 0;
    for(int i = 0; i < nplans + nup; i++){
        mconn_t *m = i < nplans ? &dn[i] : &up[i - nplans];
        if(!m->used || m->freed || m->s.iface.awaited) continue;
        ms_t *s = &m->s;
        if((s->iface.canceled || s->broken) && !s->await_cb) continue;
        bool r = s->iface.canceled || s->broken || !link_list_isempty(&s->writes) || s->shutdown_cb
            || (s->in.n && !link_list_isempty(&s->reads))
            || (s->peer_eof && !s->in.n && !s->iface.eof && !link_list_isempty(&s->reads))
            || (s->iface.eof && s->iface.is_shutdown && s->await_cb);
        if(r) out[n++] = m;
    }
    return n;
}

typedef enum { EV_SCHED, EV_IO, EV_CNCANCEL, EV_CONNECT, EV_SRV, EV_CLIENT, EV_END,
    EV_CNFAIL, EV_CEOF, EV_CRST, EV_UEOF, EV_URST, EV_UBYE, EV_UJUNK, EV_XKEYDEL, EV_XKEYNEW, EV_CANCEL } ev_e;
static const char *evname[] = { "sched", "io", "connect canceled", "connected", "server answers", "client step", "end",
    "connect fails", "client EOF", "client reset", "server EOF", "server reset", "server BYE", "server junk", "own key deleted", "other key comes or goes", "shutdown" };
typedef struct { ev_e ev; int i; mconn_t *m; } evt_t;

#define SLOW(m) (slowclose && (m) >= up && (m) < up + NUP && (m)->sess < 0 && (m)->s.iface.canceled)

static int enabled(evt_t *ev, bool faults){
    int n = 0;
    #define ADD(...) do { if(n == 128) mc_error("events"); ev[n++] = (evt_t){ __VA_ARGS__ }; } while(0)
    bool work = !link_list_isempty(&msched.scheduled);
    if(work) ADD(EV_SCHED, 0, NULL);
    mconn_t *io_[NC + NUP];
    int nio = io_ready(io_);
    for(int i = 0; i < nio; i++) if(!SLOW(io_[i])) ADD(EV_IO, 0, io_[i]);
    for(int i = 0; i < ncn; i++) if(!cn[i].over && cn[i].canceled) ADD(EV_CNCANCEL, i, NULL);
    // by default the server is quick; when it is lazy, it is the last to move
    for(int k = 0; k < 2; k++){
        if(k != lazy){
            for(int i = 0; i < nplans; i++) if(client_ready(&cl[i])) ADD(EV_CLIENT, i, NULL);
            continue;
        }
        for(int i = 0; i < ncn; i++) if(!cn[i].over && !cn[i].canceled) ADD(EV_CONNECT, i, NULL);
        for(int i = 0; i < nup; i++){
            mconn_t *m = &up[i];
            if(m->freed || m->faulted || m->s.iface.canceled || m->s.peer_eof) continue;
            if(m->pend.n || !m->greeted) ADD(EV_SRV, i, m);
        }
    }
    // closing the connection for the keys may take longer than everything else
    closing_ = false;
    for(int i = 0; i < nio; i++) if(SLOW(io_[i])){ closing_ = true; ADD(EV_IO, 0, io_[i]); }
    if(!n) ADD(EV_END, 0, NULL);
    if(!faults) return n;
    for(int i = 0; i < ncn; i++) if(!cn[i].over && !cn[i].canceled) ADD(EV_CNFAIL, i, NULL);
    for(int i = 0; i < nplans; i++){
        cl_t *c = &cl[i];
        if(c->st != ST_OPEN || c->faulted || c->dn->freed || c->dn->s.iface.awaited || c->dn->s.peer_eof) continue;
        ADD(EV_CEOF, i, NULL);
        ADD(EV_CRST, i, NULL);
    }
    for(int i = 0; i < nup; i++){
        mconn_t *m = &up[i];
        if(m->freed || m->faulted || m->s.iface.awaited || m->s.peer_eof) continue;
        ADD(EV_UEOF, i, m);
        ADD(EV_URST, i, m);
        if(!m->s.iface.canceled){
            ADD(EV_UBYE, i, m);
            ADD(EV_UJUNK, i, m);
            if(m->syncing && m->sess < 0){
                if(!strncmp(m->synctag, "user", 4)) ADD(EV_XKEYDEL, i, m);
            }
        }
    }
    if(keychanges) for(int u = 0; u < NU; u++){
        bool used = false;
        for(int i = 0; i < nplans; i++) used |= cl[i].user == u;
        if(used) ADD(EV_XKEYNEW, u, NULL);
    }
    if(!canceled) ADD(EV_CANCEL, 0, NULL);
    return n;
}

static void up_fault(mconn_t *m){
    m->faulted = true;
    if(m->sess >= 0) excuse(m->sess);
    else excuse_user(m->user);
}

static void do_event(evt_t *e){
    mcn_t *c = e->ev == EV_CNCANCEL || e->ev == EV_CONNECT || e->ev == EV_CNFAIL ? &cn[e->i] : NULL;
    mconn_t *m = e->m;
    if(e->ev > EV_IO) mc_log("[%s %d]", evname[e->ev], e->i);
    switch(e->ev){
        case EV_SCHED: run_sched(); return;
        case EV_IO: pump_conn(m); peers_read(); return;
        case EV_CNCANCEL: {
            derr_t err = { .type = E_CANCELED };
            c->over = true;
            c->cb(c->data, NULL, err);
            return;
        }
        case EV_CNFAIL: {
            derr_t err = E_OK;
            TRACE_ORIG(&err, E_CONN, "failed to connect");
            c->over = true;
            if(c->sess >= 0) excuse(c->sess); else excuse_user(-1);
            c->cb(c->data, NULL, err);
            return;
        }
        case EV_CONNECT: {
            if(nup == NUP) mc_error("too many connections");
            m = &up[nup++];
            conn_open(m);
            m->sess = c->sess;
            if(c->sess >= 0) cl[c->sess].up = m;
            c->over = true;
            c->cb(c->data, &m->conn, E_OK);
            return;
        }
        case EV_SRV:
            if(!m->greeted){ m->greeted = true; b_fmt(&m->s.in, "* OK hello\r\n"); return; }
            b_add(&m->s.in, m->pend.p, m->pend.n);
            m->pend.n = 0;
            return;
        case EV_CLIENT: client_go(&cl[e->i]); return;
        case EV_CEOF: cl[e->i].faulted = true; excuse(e->i); dn[e->i].s.peer_eof = true; return;
        case EV_CRST: cl[e->i].faulted = true; excuse(e->i); dn[e->i].s.broken = true; return;
        case EV_UEOF: up_fault(m); m->s.peer_eof = true; return;
        case EV_URST: up_fault(m); m->s.broken = true; return;
        case EV_UBYE: up_fault(m); b_fmt(&m->s.in, "* BYE going down\r\n"); m->s.peer_eof = true; return;
        case EV_UJUNK: up_fault(m); b_fmt(&m->s.in, "* 5 JUNK\r\n"); return;
        case EV_XKEYDEL: up_fault(m); mydel[m->user] = true;
            for(int i = 0; i < nplans; i++) cl[i].attached = cl[i].user == m->user && cl[i].in;
            b_fmt(&m->s.in, "* XKEYSYNC DELETED %s\r\n", fpr[m->user]); return;
        case EV_XKEYNEW: {
            int u = e->i;
            haspeer[u] = !haspeer[u];
            if(haspeer[u] && !followed[u]) early[u] = true;
            sure[u] = false; nchg[u]++;
            for(int i = 0; i < nup; i++){
                mconn_t *k = &up[i];
                if(k->freed || k->sess >= 0 || k->user != u || !k->syncing) continue;
                // what is told must not overtake what was said before
                if(haspeer[u]) b_fmt(&k->pend, "* XKEYSYNC CREATED {%zu}\r\n%s\r\n", strlen(peerpem), peerpem);
                else b_fmt(&k->pend, "* XKEYSYNC DELETED %s\r\n", pfpr);
            }
            return;
        }
        case EV_CANCEL: canceled = true; citm_cancel(&citm); return;
        case EV_END: return;
    }
}

// nothing left to do but for the peers
static bool settled(evt_t *ev, int n){ return n && ev[0].ev >= EV_CONNECT && !closing_; }

// is there a message in the mailboxes of the user which names the other key?
static bool warned_;
static int warn_in(const char *p, const struct stat *st, int type, struct FTW *w){
    (void)st; (void)w;
    if(type != FTW_F) return 0;
    static char buf[1 << 16];
    FILE *f = fopen(p, "r");
    if(!f) return 0;
    size_t n = fread(buf, 1, sizeof(buf) - 1, f);
    fclose(f);
    buf[n] = 0;
    if(strcasestr(buf, pfpr)) warned_ = true;
    return 0;
}
static bool warned(int u){
    char p[600];
    snprintf(p, sizeof(p), "%s/u%d/mail", root, u);
    warned_ = false;
    nftw(p, warn_in, 8, FTW_PHYS);
    return warned_;
}

// at rest, the proxy follows the keys of each user with a session
static void check_keys(void){
    if(canceled) return;
    for(int u = 0; u < NU; u++){
        int nsess = 0;
        for(int i = 0; i < nplans; i++){
            cl_t *c = &cl[i];
            if(c->user != u || c->st != ST_OPEN || !c->in) continue;
            if(mydel[u] && c->attached) mc_fail("own-key", "client %d may go on although the own key was deleted", i);
            if(!c->excused && !c->bye) nsess++;
        }
        mydel[u] = false;
        bool busy = false, follows = false;
        // not before the server has said what it owes
        for(int i = 0; i < ncn; i++) if(!cn[i].over && cn[i].sess < 0) busy = true;
        for(int i = 0; i < nup; i++){
            mconn_t *k = &up[i];
            if(k->freed || k->sess >= 0) continue;
            if((k->user == u || k->user < 0) && (k->pend.n || !k->greeted)) busy = true;
            if(k->user != u || k->faulted || !k->syncing || strncmp(k->synctag, "user", 4)) continue;
            follows = true;
        }
        if(busy) continue;
        if(nsess && !follows) mc_fail("follow", "the proxy does not follow the keys of u%d, who has %d session%s", u, nsess, nsess > 1 ? "s" : "");
        if(!follows) continue;
        char p[600];
        snprintf(p, sizeof(p), "%s/u%d/keys/%s.pem", root, u, pfpr);
        bool has = !access(p, F_OK);
        if(has != haspeer[u]) mc_fail(has ? "key-kept" : "key-missed", "the other key of u%d was %s, but the proxy %s it", u,
            has ? "deleted" : "added", has ? "keeps" : "does not have");
        sure[u] = true;
        // a key which comes after the first complete sync is announced, unless it
        // may have been seen before that
        if(has && !known[u]){
            bool w = warned(u);
            if(followed[u] && !early[u] && !w) mc_fail("unannounced", "the other key of u%d came without a warning to the user", u);
            if(!nchg[u] && w) mc_fail("false-warning", "the user u%d is warned of a key which was there from the start", u);
            known[u] = true;
        }
        followed[u] = true;
    }
}

static void drive(bool faults){
    evt_t ev[128];
    for(int step = 0;; step++){
        if(step > 4000) mc_fail("endless", "the loop does not come to rest");
        int base = enabled(ev, false);
        if(settled(ev, base)){ memset(unsettled, 0, sizeof(unsettled)); check_keys(); }
        bool end = base == 1 && ev[0].ev == EV_END;
        int k = 0;
        if(mc_dev_left() > 0){
            int n = enabled(ev, faults);
            // a client which steps early may do so at no cost only at rest
            k = mc_dev(n, "event");
        }
        if(k == 0 && end) return;
        do_event(&ev[k]);
    }
}

static void ended(void){
    // every session went to its end
    for(int i = 0; i < nplans; i++){
        cl_t *c = &cl[i];
        if(c->st == ST_NEW){ if(!canceled) mc_error("client %d never connected", i); continue; }
        if(c->st == ST_OVER) continue;
        if(canceled) mc_fail("shutdown-client", "the shutdown left client %d connected", i);
        if(!c->excused)
            mc_fail("stuck", "client %d is stuck in step %d of %s", i, c->pos, c->plan);
        mc_fail("not-closed", "client %d is still connected (step %d of %s) although %s", i, c->pos, c->plan,
            c->faulted ? "it left" : "its server side failed");
    }
    for(int i = 0; i < nup; i++){
        mconn_t *m = &up[i];
        if(!m->used || m->freed) continue;
        mc_fail(canceled ? "shutdown-server" : "left-open", "connection %d to the server (%s) is still open%s", i,
            m->sess >= 0 ? "of a session" : "for keys", canceled ? " after the shutdown" : " although no session is left");
    }
    for(int i = 0; i < ncn; i++) if(!cn[i].over) mc_error("connection attempt %d is not over", i);
    if(live) mc_fail("leak", "%d connections were never freed", live);
}

static void put_user(int u){
    char p[512];
    snprintf(p, sizeof(p), "%s/u%d/keys", root, u);
    mkdirs(p);
    snprintf(p, sizeof(p), "%s/u%d/keys/mykey.pem", root, u);
    FILE *f = fopen(p, "w");
    if(!f) mc_error("fopen %s", p);
    fwrite(keypem[u], 1, keypemlen[u], f);
    fclose(f);
}

static void run(void){
    snprintf(root, sizeof(root), "%s/r%d", mc_scratch(), (int)getpid());
    rmtree(root);
    mkdirs(root);
    memset(cl, 0, sizeof(cl));
    for(int i = 0; i < NC; i++){ ms_free(&dn[i].s); b_free(&dn[i].line); b_free(&dn[i].pend); }
    for(int i = 0; i < NUP; i++){ ms_free(&up[i].s); b_free(&up[i].line); b_free(&up[i].pend); }
    memset(dn, 0, sizeof(dn)); memset(up, 0, sizeof(up)); memset(cn, 0, sizeof(cn));
    memset(unsettled, 0, sizeof(unsettled));
    nup = ncn = live = 0; onconn = -1; canceled = false;
    for(int u = 0; u < NU; u++){ haspeer[u] = mc_opt("peer", 0); sure[u] = mydel[u] = known[u] = followed[u] = false; early[u] = haspeer[u]; nuid[u] = nchg[u] = 0; }
    bool have[NU] = {0};
    for(int i = 0; i < nplans; i++){
        cl[i] = (cl_t){ .plan = plans[i] + 1, .user = plans[i][0] - '0' };
        if(!have[cl[i].user]){ have[cl[i].user] = true; put_user(cl[i].user); }
    }
    sched = manual_scheduler(&msched);
    derr_t e = citm_init(&citm, &io, sched, SBS(root));
    if(is_error(e)) mc_error("citm_init");

    drive(true);
    ended();
    if(!canceled){
        // nothing may be left of the sessions, so this has nothing to do
        canceled = true;
        citm_cancel(&citm);
        drive(false);
        ended();
    }
    unsigned long h = 0;
    for(int i = 0; i < nplans; i++) h = h * 8 + (unsigned long)(cl[i].excused ? 1 : 0) + (unsigned long)(cl[i].bye ? 2 : 0);
    mc_outcome(mc_hash_u(mc_hash_u(1, (uint64_t)nup), h));
    citm_free(&citm);
    rmtree(root);
}

static void init(void){
    newkey = mc_opt("newkey", 0);
    lazy = (int)mc_opt("lazy", 0);
    slowclose = (int)mc_opt("slowclose", 0);
    keychanges = (int)mc_opt("keys", 1);
    const char *p = mc_opts("plan", "0LNO,1LCO");
    snprintf(planbuf, sizeof(planbuf), "%s", p);
    for(char *t = strtok(planbuf, ","); t; t = strtok(NULL, ",")){
        if(nplans == NC) mc_error("too many clients");
        plans[nplans++] = t;
    }
    // keys are made once
    snprintf(root, sizeof(root), "%s/k%d", mc_scratch(), (int)getpid());
    rmtree(root);
    mkdirs(root);
    for(int u = 0; u < NU + 1; u++){
        keypair_t *kp;
        char path[512];
        snprintf(path, sizeof(path), "%s/key.pem", root);
        derr_t e = gen_key(2048, path);
        if(is_error(e)) mc_error("gen_key");
        e = keypair_load_private(&kp, path);
        if(is_error(e)) mc_error("keypair_load");
        if(u < NU){
            FILE *f = fopen(path, "r");
            keypemlen[u] = fread(keypem[u], 1, sizeof(keypem[u]), f);
            fclose(f);
            DSTR_VAR(hex, 128);
            e = bin2hex(kp->fingerprint, &hex);
            if(is_error(e)) mc_error("bin2hex");
            snprintf(fpr[u], sizeof(fpr[u]), "%.*s", (int)hex.len, hex.data);
        }else{
            DSTR_VAR(pem, 4096);
            e = keypair_get_public_pem(kp, &pem);
            if(is_error(e)) mc_error("pem");
            snprintf(peerpem, sizeof(peerpem), "%.*s", (int)pem.len, pem.data);
        }
        if(u < NU) keys[u] = kp;
        else{
            peerkey = kp;
            DSTR_VAR(hex, 128);
            e = bin2hex(kp->fingerprint, &hex);
            if(is_error(e)) mc_error("bin2hex");
            snprintf(pfpr, sizeof(pfpr), "%.*s", (int)hex.len, hex.data);
        }
        remove(path);
    }
    rmtree(root);
}

int main(int argc, char **argv){
    mc_harness_t h = { .name = "e01_citm", .run = run, .init = init };
    return mc_main(argc, argv, &h);
}
