// G03: the numbers of signed account requests.  Histories of registrations,
// requests (waiting or event driven), restarts, damaged files, requests which
// fail before or after the server saw them; crashes, torn writes and full
// disks at every call which changes a file.  The modelled server keeps for
// every token the last number, as the real one does, and checks signatures
// with OpenSSL.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "libhttp/libhttp.h"
#include "api_client.h"
#include "mc/mc.h"

static bool crash_on; static sigjmp_buf env;
static bool armed(void){ return crash_on && mc_dev_left(); }
static void crash(const char *what){ mc_log("CRASH at %s", what); siglongjmp(env, 1); }
static void on_disk_full(void){ mc_log("DISK FULL"); }
#include "harness/crash.h"

// ------------------------------------------------------------ the server
#define MAXTOK 8
typedef struct { unsigned key; char secret[80]; uint64_t last; bool inst; } tok_t;
static tok_t toks[MAXTOK]; static int ntoks;
static unsigned nreq;
static const char *want_path, *want_arg; static bool want_pass; // what the user asked for
static const char *user = "me@x.com", *pass = "pa:ss \xc3\xa9";
// what becomes of a request: 0 answered, 1 lost before the server, 2 lost
// after the server, 3 status 500, 4 garbage, 5 a failure in the contents
static unsigned fate;
static char resp[600]; static int resp_status; static const char *resp_reason;

static size_t unb64(const char *s, size_t n, char *o){
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    unsigned v = 0; int bits = 0; size_t k = 0;
    for(size_t i = 0; i < n; i++){
        const char *q = s[i] ? strchr(A, s[i]) : NULL;
        if(s[i] == '='){ for(size_t j = i; j < n; j++) MC_CHECK(s[j] == '=' && j < i + 2, "body-b64", "the body is not base64"); MC_CHECK(n % 4 == 0, "body-b64", "the body is not base64"); break; }
        MC_CHECK(q, "body-b64", "the body is not base64");
        v = v << 6 | (unsigned)(q - A); bits += 6;
        if(bits >= 8){ bits -= 8; o[k++] = (char)(v >> bits); v &= (1u << bits) - 1; }
    }
    o[k] = 0; return k;
}
// one flat json object: strings, null and numbers
typedef struct { char path[200], arg[200]; bool has_path, has_arg, arg_null, has_nonce; uint64_t nonce; } body_t;
static const char *skip(const char *p){ while(*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; return p; }
static const char *jstr(const char *p, char *o){
    size_t k = 0;
    MC_CHECK(*p == '"', "body-json", "the body is not JSON near %.20s", p);
    for(p++; *p != '"'; p++){
        MC_CHECK(*p && k < 190, "body-json", "the body is not JSON");
        if(*p != '\\'){ o[k++] = *p; continue; }
        p++;
        switch(*p){
            case 'n': o[k++] = '\n'; break; case 't': o[k++] = '\t'; break; case 'r': o[k++] = '\r'; break; case 'b': o[k++] = '\b'; break; case 'f': o[k++] = '\f'; break;
            case 'u': { unsigned v; MC_CHECK(sscanf(p + 1, "%4x", &v) == 1, "body-json", "the body is not JSON"); if(v < 128) o[k++] = (char)v; else { o[k++] = (char)(0xc0 | v >> 6); o[k++] = (char)(0x80 | (v & 63)); } p += 4; break; }
            default: o[k++] = *p;
        }
    }
    o[k] = 0; return p + 1;
}
static void parse_body(const dstr_t b, body_t *o){
    static char t[2000]; MC_CHECK(b.len < 1500, "body", "the body is very long");
    unb64(b.data, b.len, t);
    memset(o, 0, sizeof(*o));
    const char *p = skip(t);
    MC_CHECK(*p == '{', "body-json", "the body is not a JSON object: %.40s", t);
    p = skip(p + 1);
    while(*p != '}'){
        char k[200]; p = skip(jstr(p, k));
        MC_CHECK(*p == ':', "body-json", "the body is not JSON: %.40s", t);
        p = skip(p + 1);
        if(!strcmp(k, "nonce")){ char *e; MC_CHECK(*p >= '0' && *p <= '9', "body-json", "the nonce is not a number: %.60s", t); errno = 0; o->nonce = strtoull(p, &e, 10); MC_CHECK(!errno && !o->has_nonce, "body-json", "the nonce is not a number: %.60s", t); o->has_nonce = true; p = e; }
        else if(!strncmp(p, "null", 4)){ p += 4; if(!strcmp(k, "arg")) o->has_arg = o->arg_null = true; }
        else { char v[200]; p = jstr(p, v); if(!strcmp(k, "path")){ strcpy(o->path, v); o->has_path = true; } else if(!strcmp(k, "arg")){ strcpy(o->arg, v); o->has_arg = true; } }
        p = skip(p);
        if(*p == ',') p = skip(p + 1); else MC_CHECK(*p == '}', "body-json", "the body is not JSON: %.60s", t);
    }
    MC_CHECK(!*skip(p + 1), "body-json", "the body is not JSON: %.60s", t);
}
static bool hdr(http_pairs_t *h, const char *name, char *o){
    int n = 0;
    for(; h; h = h->prev) if(h->pair.key.len == strlen(name) && !strncasecmp(h->pair.key.data, name, h->pair.key.len)){ n++; snprintf(o, 300, "%.*s", (int)h->pair.value.len, h->pair.value.data); }
    return n == 1;
}
// secret of the n-th token: long, short, with characters which need escapes
static void new_secret(int n, char *o){
    static const char *S[] = { "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "s", "a\"b\\c/d\xc3\xa9", "with space and '" };
    snprintf(o, 80, "%s", S[n % 4]);
}
static unsigned new_key(int n){ static const unsigned K[] = { 17, 4294967295u, 0, 1000000, 2147483648u }; return K[n % 5]; }

// true if there is an answer
static bool serve(url_t url, http_pairs_t *hdrs, const dstr_t body){
    nreq++;
    body_t b; parse_body(body, &b);
    char path[200]; snprintf(path, sizeof(path), "%.*s", (int)dstr_from_off(url.path).len, dstr_from_off(url.path).data);
    MC_CHECK(!strcmp(path, want_path), "path", "a request for %s went to %s", want_path, path);
    MC_CHECK(b.has_path && !strcmp(b.path, want_path), "path", "a request for %s says %s", want_path, b.path);
    MC_CHECK(b.has_arg && (want_arg && *want_arg ? !strcmp(b.arg, want_arg) : b.arg_null), "arg", "the argument %s was sent as %s", want_arg ? want_arg : "(none)", b.arg);
    char h[300], h2[300];
    bool ok = false; tok_t *t = NULL;
    if(want_pass){
        char up[200], dec[200]; size_t n;
        MC_CHECK(hdr(hdrs, "Authorization", h) && !strncmp(h, "Basic ", 6), "auth", "a request with a password has no such header");
        n = unb64(h + 6, strlen(h + 6), dec); snprintf(up, sizeof(up), "%s:%s", user, pass);
        MC_CHECK(n == strlen(up) && !memcmp(dec, up, n), "auth", "user and password were sent as %s", dec);
        ok = true;
    }else{
        MC_CHECK(b.has_nonce, "no-nonce", "a signed request has no number");
        MC_CHECK(hdr(hdrs, "X-AUTH-TOKEN", h), "auth", "a signed request does not name its token");
        for(int i = 0; i < ntoks; i++){ char k[30]; sprintf(k, "%u", toks[i].key); if(!strcmp(k, h)) t = &toks[i]; }
        MC_CHECK(t, "auth", "a request was signed by the unknown token %s", h);
        unsigned char mac[64]; unsigned ml; char hex[140];
        HMAC(EVP_sha512(), t->secret, (int)strlen(t->secret), (const unsigned char*)body.data, body.len, mac, &ml);
        for(unsigned i = 0; i < ml; i++) sprintf(hex + 2 * i, "%02x", mac[i]);
        MC_CHECK(hdr(hdrs, "X-AUTH-SIGNATURE", h2) && !strcasecmp(h2, hex), "signature", "the signature of a request is wrong");
        // the point of it all
        MC_CHECK(b.nonce > t->last, "nonce", "a request was sent with the number %llu after one with %llu", (unsigned long long)b.nonce, (unsigned long long)t->last);
        mc_log("request with number %llu (before %llu)", (unsigned long long)b.nonce, (unsigned long long)t->last);
        // also if it never arrives: who saw it on the way must not use it later
        t->last = b.nonce;
        ok = true;
    }
    (void)ok;
    resp_status = 200; resp_reason = "OK";
    switch(fate){
        case 1: return false;
        case 3: resp_status = 500; resp_reason = "Oops"; strcpy(resp, "{\"status\":\"success\",\"contents\":{}}"); return true;
        case 4: strcpy(resp, "{\"status\":"); return true;
        case 5: strcpy(resp, "{\"status\":\"error\",\"contents\":\"no\"}"); return true;
        case 6: resp_status = 401; resp_reason = "Unauthorized"; strcpy(resp, "no"); return true;
        case 7: resp_status = 403; resp_reason = "Forbidden"; strcpy(resp, "{\"status\":\"success\",\"contents\":{}}"); return true;
    }
    if(want_pass && !strcmp(want_path, "/api/add_token")){
        if(ntoks >= MAXTOK) mc_error("too many tokens");
        tok_t *n = &toks[ntoks]; n->key = new_key(ntoks); n->last = 0; new_secret(ntoks, n->secret); ntoks++;
        char q[200]; size_t k = 0; for(const char *s = n->secret; *s; s++){ if(*s == '"' || *s == '\\') q[k++] = '\\'; q[k++] = *s; } q[k] = 0;
        snprintf(resp, sizeof(resp), "{\"status\":\"success\",\"contents\":{\"token\":%u,\"secret\":\"%s\",\"more\":[1]}}", n->key, q);
    }else snprintf(resp, sizeof(resp), "{\"status\":\"success\",\"contents\":{\"n\":%u}}", nreq);
    return fate != 2;
}

// ----------------------------------------------------- the program's network
derr_t __wrap_http_sync_req(http_sync_t *sync, http_method_e method, url_t url, http_pairs_t *params, http_pairs_t *hdrs, const dstr_t body, hdr_selector_t *sel, int *status, dstr_t *reason, dstr_t *out);
derr_t __wrap_http_sync_req(http_sync_t *sync, http_method_e method, url_t url, http_pairs_t *params, http_pairs_t *hdrs, const dstr_t body, hdr_selector_t *sel, int *status, dstr_t *reason, dstr_t *out){
    derr_t e = E_OK;
    (void)sync; (void)params; (void)sel;
    MC_CHECK(method == HTTP_METHOD_POST, "method", "a request is not a POST");
    if(!serve(url, hdrs, body)) ORIG(&e, E_CONN, "connection lost");
    *status = resp_status;
    reason->len = 0; PROP(&e, dstr_append(reason, &DSTR_LIT("R")) ); (void)resp_reason;
    out->len = 0; PROP(&e, FMT(out, "%x", FS(resp)) );
    return e;
}
// the event driven one
static duv_scheduler_t dsched;
static schedulable_t *queue[8]; static int nqueue;
static void q_schedule(scheduler_i *i, schedulable_t *s){ (void)i; if(nqueue == 8) mc_error("queue"); queue[nqueue++] = s; }
static struct { rstream_i iface; rstream_read_t *reads[4]; int n; rstream_await_cb await_cb; bool answer; size_t at; bool canceled; derr_t err; schedulable_t later; bool sched; } rs;
static void rs_later(schedulable_t *s){
    (void)s; rs.sched = false;
    while(rs.n && !rs.canceled && rs.answer){
        rstream_read_t *r = rs.reads[0]; rs.n--; memmove(rs.reads, rs.reads + 1, sizeof(*rs.reads) * (size_t)rs.n);
        size_t left = strlen(resp) - rs.at, k = r->buf.size < left ? r->buf.size : left;
        if(k > 7) k = 7;
        memcpy(r->buf.data, resp + rs.at, k); rs.at += k; r->buf.len = k;
        if(!k) rs.iface.eof = true;
        r->cb(&rs.iface, r, r->buf);
    }
    if(rs.n || rs.iface.eof || rs.canceled || !rs.answer){
        if(rs.iface.awaited) return;
        if(!rs.answer || rs.canceled || rs.iface.eof){
            rs.iface.awaited = true;
            derr_t e = E_OK;
            if(!rs.answer) { TRACE_ORIG(&e, E_CONN, "lost"); }
            else if(rs.canceled) { TRACE_ORIG(&e, E_CANCELED, "canceled"); }
            link_t l; link_init(&l); for(int i = 0; i < rs.n; i++) link_list_append(&l, &rs.reads[i]->link);
            rs.n = 0;
            rstream_await_cb cb = rs.await_cb; rs.await_cb = NULL;
            if(cb) cb(&rs.iface, e, &l); else DROP_VAR(&e);
        }
    }
}
static void rs_kick(void){ if(!rs.sched){ rs.sched = true; schedulable_prep(&rs.later, rs_later); q_schedule(NULL, &rs.later); } }
static bool rs_read(rstream_i *i, rstream_read_t *r, dstr_t buf, rstream_read_cb cb){
    if(i->eof || i->canceled || i->awaited) return false;
    if(rs.n == 4) mc_error("reads");
    r->buf = buf; r->cb = cb; link_init(&r->link); rs.reads[rs.n++] = r; rs_kick(); return true;
}
static void rs_cancel(rstream_i *i){ if(i->awaited) return; i->canceled = true; rs.canceled = true; rs_kick(); }
static rstream_await_cb rs_await(rstream_i *i, rstream_await_cb cb){ (void)i; rstream_await_cb o = rs.await_cb; rs.await_cb = cb; return o; }
rstream_i *__wrap_duv_http_req(duv_http_req_t *req, duv_http_t *http, http_method_e method, url_t url, http_pairs_t *params, http_pairs_t *hdrs, const dstr_t body, duv_http_hdr_cb hdr_cb);
rstream_i *__wrap_duv_http_req(duv_http_req_t *req, duv_http_t *http, http_method_e method, url_t url, http_pairs_t *params, http_pairs_t *hdrs, const dstr_t body, duv_http_hdr_cb hdr_cb){
    (void)http; (void)params; (void)hdr_cb;
    MC_CHECK(method == HTTP_METHOD_POST, "method", "a request is not a POST");
    memset(&rs, 0, sizeof(rs));
    rs.iface = (rstream_i){ .read = rs_read, .cancel = rs_cancel, .await = rs_await };
    rs.answer = serve(url, hdrs, body);
    req->status = resp_status; req->reason = DSTR_LIT("R");
    if(!rs.answer) rs_kick();
    return &rs.iface;
}

// ------------------------------------------------------------- the program
static char base[300], tokfile[600], noncefile[600], instfile[600];
static uint64_t installed_last;  // (of the installation's token)
static int answered; static derr_type_t ans_type;
static void api_cb(void *data, derr_t err, json_t *json){
    (void)data; (void)json;
    answered++; ans_type = err.type; DROP_VAR(&err);
}
static http_sync_t *nosync = NULL;
static const dstr_t baseurl = DSTR_GLOBAL("https://api.x:443");
static const char *ARG[] = { "", "a \"q\" \\ \xc3\xa9/", "x" };

static derr_type_t expected(bool pw){
    switch(fate){ case 0: return E_NONE; case 1: case 2: return E_CONN; case 3: case 4: return E_RESPONSE; case 5: return E_NONE; default: return pw ? E_PASSWORD : E_TOKEN; }
}
static void judge(derr_type_t t, bool pw){
    MC_CHECK(t == expected(pw), "result", "a request whose answer was of kind %u is reported as %s", fate, error_to_dstr(t).data);
}
static bool fexists(const char *p){ struct stat st; return !stat(p, &st); }
static void call(api_token_t *tk, bool async, bool pw, unsigned arg){
    want_path = "/api/thing"; want_arg = ARG[arg]; want_pass = pw;
    dstr_t path = dstr_from_cstr((char*)"/api/thing"), da = dstr_from_cstr((char*)ARG[arg]), du = dstr_from_cstr((char*)user), dp = dstr_from_cstr((char*)pass);
    unsigned before = nreq;
    json_t json; json_prep(&json);
    if(!async){
        derr_t e = pw ? api_pass_sync(nosync, baseurl, path, da, du, dp, &json) : api_token_sync(nosync, baseurl, path, da, *tk, &json);
        derr_type_t t = e.type; DROP_VAR(&e);
        MC_CHECK(nreq == before + 1, "requests", "a call sent %u requests", nreq - before);
        judge(t, pw);
        if(t == E_NONE && fate == 0){ uint64_t n = 0; jspec_t *sp = JAPI(JOBJ(true, JKEY("n", JU64(&n)))); bool ok; DSTR_VAR(eb, 300); e = jspec_read_ex(sp, json.root, &ok, &eb); MC_CHECK(!is_error(e) && ok && n == nreq, "answer", "the answer cannot be read"); }
        if(t == E_NONE && fate == 5){ uint64_t n = 0; jspec_t *sp = JAPI(JOBJ(true, JKEY("n", JU64(&n)))); bool ok; DSTR_VAR(eb, 300); e = jspec_read_ex(sp, json.root, &ok, &eb); MC_CHECK(e.type == E_RESPONSE, "answer", "a failed call looks successful"); DROP_VAR(&e); }
    }else{
        dsched.iface.schedule = q_schedule; nqueue = 0; answered = 0;
        static duv_http_t http; http.scheduler = &dsched;
        api_client_t ac;
        bool badurl = arg == 2;
        derr_t e = api_client_init(&ac, &http, badurl ? DSTR_LIT("https://a:70000") : baseurl); if(is_error(e)) mc_error("init");
        bool cancel = mc_opt("cancel", 0) && mc_choose(2, "cancel");
        if(pw) apic_pass(&ac, path, da, du, dp, &json, api_cb, NULL); else apic_token(&ac, path, da, *tk, &json, api_cb, NULL);
        MC_CHECK(!answered, "early-answer", "the callback is called before the function returns");
        bool coming = false;
        if(cancel && !badurl) coming = api_client_cancel(&ac);
        while(nqueue){ schedulable_t *s = queue[0]; nqueue--; memmove(queue, queue + 1, sizeof(*queue) * (size_t)nqueue); s->cb(s); }
        MC_CHECK(answered == 1, "callback", "a call %sis answered %d times", badurl ? "to a bad URL " : "", answered);
        MC_CHECK(nreq == before + !badurl, "requests", "a call sent %u requests", nreq - before);
        if(badurl) MC_CHECK(ans_type != E_NONE, "result", "a call to a bad URL succeeds");
        else if(coming) MC_CHECK(ans_type == E_CANCELED || (ans_type == E_CONN && fate <= 2), "result", "a canceled call is reported as %s", error_to_dstr(ans_type).data);
        else judge(ans_type, pw);
        api_client_free(&ac);
    }
    json_free(&json);
    mc_case(1);
}
static int damaged; static bool tok_known; static unsigned tok_key; // what must be in the file
static uint64_t floor_nonce;
static void step_register(void){
    want_path = "/api/add_token"; want_arg = ""; want_pass = true;
    dstr_t du = dstr_from_cstr((char*)user), dp = dstr_from_cstr((char*)pass);
    int had = ntoks; bool was = fexists(tokfile); (void)was;
    string_builder_t sb = SBS(tokfile);
    disk_was_full = false;
    derr_t e = register_api_token_path_sync(nosync, baseurl, du, dp, &sb);
    derr_type_t t = e.type; DROP_VAR(&e);
    if(disk_was_full){ MC_CHECK(t != E_NONE, "unreported", "a full disk while storing the new token is not reported"); return; }
    if(fate == 5) MC_CHECK(t == E_RESPONSE, "result", "a refused registration is reported as %s", error_to_dstr(t).data);
    else judge(t, true);
    if(t == E_NONE){
        MC_CHECK(ntoks == had + 1, "requests", "a registration created %d tokens", ntoks - had);
        damaged = 0; tok_known = true; tok_key = toks[ntoks - 1].key;
    }
}
static void step_call(bool async){
    if(!fexists(tokfile)){ mc_log("no token"); MC_CHECK(!tok_known, "lost", "the token file is gone"); return; }
    api_token_t tk = {0}; bool ok = false;
    string_builder_t sb = SBS(tokfile);
    disk_was_full = false;
    derr_t e = api_token_read_increment_write_path(&sb, &tk, &ok);
    derr_type_t t = e.type; DROP_VAR(&e);
    if(disk_was_full){
        // either it is reported, or nothing was lost
        MC_CHECK(t != E_NONE, "unreported", "a full disk while counting up is not reported");
        api_token_free0(&tk);
        return;
    }
    MC_CHECK(t == E_NONE, "refused", "the token file cannot be used: %s", error_to_dstr(t).data);
    if(!ok){
        MC_CHECK(damaged, "lost", "an intact token file was found corrupted");
        MC_CHECK(!fexists(tokfile), "kept", "a corrupted token file was not removed");
        damaged = 0; tok_known = false;
        api_token_free0(&tk);
        return;
    }
    MC_CHECK(damaged != 1, "accepted", "a corrupted token file was used");
    damaged = 0;
    if(tok_known) MC_CHECK(tk.key == tok_key, "token", "the file has another token than the one which was stored");
    call(&tk, async, false, (unsigned)mc_opt("arg", 0) ? mc_choose(async ? 3 : 2, "arg") : 0);
    api_token_free0(&tk);
}
// the server's installation token with its separate number
static void step_inst(bool async){
    if(!fexists(instfile)){
        if(ntoks >= MAXTOK) return;
        tok_t *n = &toks[ntoks]; n->key = new_key(ntoks); n->last = installed_last; new_secret(ntoks, n->secret); ntoks++;
        n->inst = true;
        installation_t in = { .token = { .key = n->key, .secret = dstr_from_cstr(n->secret) }, .subdomain = dstr_from_cstr((char*)"s\"u"), .email = dstr_from_cstr((char*)"e@x") };
        disk_was_full = false;
        derr_t e = installation_write_path(in, SBS(instfile));
        derr_type_t t = e.type; DROP_VAR(&e);
        if(disk_was_full){ MC_CHECK(t != E_NONE, "unreported", "a full disk while storing the installation is not reported"); return; }
        MC_CHECK(t == E_NONE, "result", "the installation cannot be stored");
    }
    installation_t in = {0};
    derr_t e = installation_read_path(SBS(instfile), &in);
    MC_CHECK(!is_error(e), "inst-read", "the stored installation cannot be read (%s)", error_to_dstr(e.type).data);
    tok_t *n = NULL; for(int i = 0; i < ntoks; i++) if(toks[i].key == in.token.key) n = &toks[i];
    MC_CHECK(n && in.token.secret.len == strlen(n->secret) && !memcmp(in.token.secret.data, n->secret, in.token.secret.len) && !dstr_cmp(&in.subdomain, &DSTR_LIT("s\"u")) && !dstr_cmp(&in.email, &DSTR_LIT("e@x")), "inst", "the stored installation differs from what was written");
    string_builder_t sb = SBS(noncefile);
    disk_was_full = false;
    e = nonce_read_increment_write_path(&sb, &in.token.nonce);
    derr_type_t t = e.type; DROP_VAR(&e);
    if(disk_was_full) MC_CHECK(t != E_NONE, "unreported", "a full disk while counting up is not reported");
    else{
        MC_CHECK(t == E_NONE, "refused", "the number file cannot be used: %s", error_to_dstr(t).data);
        call(&in.token, async, false, 0);
        for(int i = 0; i < ntoks; i++) if(toks[i].inst && toks[i].last > installed_last) installed_last = toks[i].last;
    }
    installation_free0(&in);
}
static void put(const char *p, const char *text, size_t n){ int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600); if(fd < 0 || (ssize_t)n != __real_write(fd, text, n)) mc_error("put"); close(fd); }
static void step_damage(unsigned how){
    if(!tok_known || !fexists(tokfile) || damaged) return;
    static char b[4000]; int fd = open(tokfile, O_RDONLY); ssize_t n = read(fd, b, sizeof(b)); close(fd); if(n < 0) mc_error("read");
    switch(how){
        case 0: n = 0; break;
        case 1: n /= 2; break;
        case 2: memset(b, 'x', sizeof(b)); n = 3000; break;
        case 3: n = snprintf(b, sizeof(b), "{\"token\":1,\"secret\":\"s\"}"); break;
        case 4: n = snprintf(b, sizeof(b), "{\"token\":1,\"secret\":\"s\",\"nonce\":-1}"); break;
        case 5: n = snprintf(b, sizeof(b), "[%01000d]", 1); break;
    }
    put(tokfile, b, (size_t)n); damaged = 1;
}
static void clean(void){
    char c[700];
    const char *f[] = { tokfile, noncefile, instfile };
    for(int i = 0; i < 3; i++){ __real_unlink(f[i]); snprintf(c, sizeof(c), "%s.tmp", f[i]); __real_unlink(c); }
}
static void run(void){
    crash_on = false; disk_full = mc_opt("full", 0);
    memset(toks, 0, sizeof(toks)); ntoks = 0; nreq = 0; damaged = 0, tok_known = false; floor_nonce = 0; installed_last = 0;
    static char longname[250]; memset(longname, 'l', 240);
    snprintf(base, sizeof(base), "%.200s", mc_scratch());
    bool lng = mc_opt("longname", 0);
    snprintf(tokfile, sizeof(tokfile), "%s/%s%s", base, lng ? longname : "t", ".json");
    snprintf(noncefile, sizeof(noncefile), "%s/%s%s", base, lng ? longname : "n", ".nc");
    snprintf(instfile, sizeof(instfile), "%s/%s%s", base, lng ? longname : "i", ".ins");
    clean();
    // a history before this one
    static const uint64_t PRE[] = { 0, 1, 9, 99, 4294967295ull, 9007199254740993ull, 9223372036854775807ull, 18446744073709551000ull };
    unsigned npre = (unsigned)mc_opt("pre", 1), pre = mc_choose(npre, "number before");
    const char *menu = mc_opts("menu", "rcCiId"); unsigned depth = (unsigned)mc_opt("depth", 3), fates = (unsigned)mc_opt("fates", 8);
    if(pre){
        tok_t *n = &toks[ntoks]; n->key = 5; n->last = PRE[pre]; strcpy(n->secret, "old"); ntoks++;
        api_token_t tk = { .key = 5, .secret = DSTR_LIT("old"), .nonce = PRE[pre] };
        derr_t e = api_token_write(tk, tokfile); if(is_error(e)) mc_error("write");
        tok_known = true; tok_key = 5;
        char b[40]; int k = sprintf(b, "%llu\n", (unsigned long long)PRE[pre]); put(noncefile, b, (size_t)k); installed_last = PRE[pre];
    }
    mc_log("number before: %llu", (unsigned long long)PRE[pre]);
    int fdmark = dup(0); close(fdmark);
    volatile unsigned i = 0;
    while(i < depth){
        unsigned k = mc_choose((unsigned)strlen(menu), "step");
        volatile char c = menu[k];
        fate = 0;
        if(strchr("rcCiIpP", c)) fate = mc_choose(fates, "fate");
        mc_log("step %c fate %u", c, fate);
        i++;
        if(sigsetjmp(env, 1)){
            // what the program had in memory is gone; a new token may or may
            // not have replaced the old one
            crash_on = false;
            for(int fd = fdmark; fd < fdmark + 8; fd++) close(fd);   // the dead program's
            if(c == 'r'){ tok_known = false; if(damaged) damaged = 2; }
            else if(damaged && !fexists(tokfile)) damaged = 0, tok_known = false;
            continue;
        }
        crash_on = true;
        switch(c){
            case 'r': { bool k0 = tok_known; unsigned key0 = tok_key; int nt = ntoks; step_register(); if(ntoks != nt && disk_was_full){ tok_known = k0; tok_key = key0; } break; }
            case 'c': step_call(false); break;
            case 'C': step_call(true); break;
            case 'i': step_inst(false); break;
            case 'I': step_inst(true); break;
            case 'p': call(NULL, false, true, mc_choose(2, "arg")); break;
            case 'P': call(NULL, true, true, mc_choose(3, "arg")); break;
            case 'd': crash_on = false; step_damage(mc_choose(6, "damage")); break;
        }
        crash_on = false;
    }
    // the user can always go on
    crash_on = false; fate = 0;
    if(!fexists(tokfile)){ MC_CHECK(!tok_known, "lost", "the token file is gone"); step_register(); }
    step_call(false);
    if(!fexists(tokfile)) step_register();
    step_call(false); step_call(true);
    if(strchr(menu, 'i')){ if(fexists(instfile) || ntoks < MAXTOK) step_inst(false); }
    mc_outcome(nreq * 100 + (unsigned)ntoks);
    mc_case(1);
    clean();
}
int main(int argc, char **argv){
    mc_harness_t h = { .name = "g03_nonce", .run = run, .exec_timeout = 60 };
    return mc_main(argc, argv, &h);
}
