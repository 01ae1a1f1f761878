From 5949312b144795def15a2283f7e39306985ea8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 001/112] fix: kvpsync: keep deletion records for 255 seconds,
 not 255 nanoseconds

xtime_t counts nanoseconds, so a deletion was forgotten immediately and a
resent or duplicated INSERT brought the deleted key back for good.
---
 server/libkvpsync/recv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index dce1fe2..be057fd 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -3,7 +3,7 @@
    leaving deletions in the data structure for a few minutes to ensure that no
    stray network packet could be still circulating.  We use the IPv4 max TTL
    even though in practice that's a lot longer than a real packet can live. */
-#define GC_DELAY 255
+#define GC_DELAY (255 * SECOND)
 
 // kvpsync_recv_t is the receiver's side of kvp sync
 typedef struct {
-- 
2.43.0


From 10356a08bd6d36e649776b175cb47f81dceacf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 002/112] fix: kvpsync: ignore a FLUSH that does not finish a
 newer sync seen to start

A delayed or duplicated FLUSH of a dead sync made the receiver drop the data
of the current sync and answer a confident no for acknowledged keys.  The
PROTOCOL already requires to ignore a FLUSH whose START was not seen.
---
 server/libkvpsync/recv.c | 38 ++++++++++++++++++++++++++++++++++++--
 server/libkvpsync/recv.h |  9 +++++++++
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/server/libkvpsync/recv.c b/server/libkvpsync/recv.c
index f738ae8..dfd46dd 100644
--- a/server/libkvpsync/recv.c
+++ b/server/libkvpsync/recv.c
@@ -164,8 +164,36 @@ static void do_gc(kvpsync_recv_t *r, xtime_t now){
     }
 }
 
+// remember the START of a sync
+static void note_start(kvpsync_recv_t *r, uint32_t sync_id){
+    for(size_t i = 0; i < r->nstarts; i++){
+        if(r->starts[i] == sync_id) return;
+    }
+    if(r->nstarts == KVPSYNC_RECV_STARTS){
+        // forget the oldest
+        r->nstarts--;
+        if(r->nflushed) r->nflushed--;
+        for(size_t i = 0; i < r->nstarts; i++){
+            r->starts[i] = r->starts[i+1];
+        }
+    }
+    r->starts[r->nstarts++] = sync_id;
+}
+
+// is this a sync which we saw begin, newer than what we are serving?
+static bool is_pending_sync(kvpsync_recv_t *r, uint32_t sync_id, size_t *idx){
+    for(size_t i = r->nflushed; i < r->nstarts; i++){
+        if(r->starts[i] != sync_id) continue;
+        *idx = i;
+        return true;
+    }
+    return false;
+}
+
 static bool _flush_should_free(kvpsync_recv_t *r, recv_datum_t *datum){
-    return datum->sync_id != r->sync_id;
+    size_t idx;
+    return datum->sync_id != r->sync_id
+        && !is_pending_sync(r, datum->sync_id, &idx);
 }
 
 static void flush_stale_data(kvpsync_recv_t *r){
@@ -275,6 +303,7 @@ derr_t kvpsync_recv_handle_update(
         }
         // got the start packet, ack it as normal
         r->initial_sync_acked = true;
+        note_start(r, update.sync_id);
         return e;
     }
 
@@ -289,18 +318,23 @@ derr_t kvpsync_recv_handle_update(
 
     dstr_t key;
     dstr_t val;
+    size_t idx;
     switch(update.type){
         case KVP_UPDATE_EMPTY:
             // noop, just keepalives
             break;
 
         case KVP_UPDATE_START:
-            // noop, sender-side resyncs happen passively to us
+            // sender-side resyncs happen passively to us, until the flush
+            note_start(r, update.sync_id);
             break;
 
         case KVP_UPDATE_FLUSH:
             // ignore any packets before our resync is acknowldged
             if(!r->initial_sync_acked) break;
+            // ignore stray packets from other syncs
+            if(!is_pending_sync(r, update.sync_id, &idx)) break;
+            r->nflushed = idx + 1;
             r->sync_id = update.sync_id;
             r->ok_expiry = MAX(r->ok_expiry, update.ok_expiry);
             flush_stale_data(r);
diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index be057fd..c08cfca 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -5,12 +5,21 @@
    even though in practice that's a lot longer than a real packet can live. */
 #define GC_DELAY (255 * SECOND)
 
+// how many of the most recent syncs a receiver remembers
+#define KVPSYNC_RECV_STARTS 16
+
 // kvpsync_recv_t is the receiver's side of kvp sync
 typedef struct {
     hashmap_t h;  // maps dstr_t keys to dstr_t values
     uint32_t recv_id;  // randomly chosen at boot
     uint32_t sync_id;  // the send_id for a sync we've completed, or zero
     bool initial_sync_acked;
+    /* sync_ids of the START packets we have seen, in order, so that a delayed
+       or duplicated FLUSH can't take us back to an earlier sync, nor finish a
+       sync that we did not see the start of */
+    uint32_t starts[KVPSYNC_RECV_STARTS];
+    size_t nstarts;
+    size_t nflushed;  // starts[:nflushed] are finished or superseded
     xtime_t ok_expiry;
     link_t gc; // recv_datum_t->gc
 } kvpsync_recv_t;
-- 
2.43.0


From 37e8eb29e16e27f75cac06ba29c968036a65a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 003/112] fix: dns: count BP_ENDS_OPT_DATA_OVERRUN as a bad
 parse

---
 server/dns/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.h b/server/dns/parse.h
index 733372c..e6ba4a7 100644
--- a/server/dns/parse.h
+++ b/server/dns/parse.h
@@ -18,7 +18,7 @@ derr_type_t _fmt_lstr_dbg(const fmt_i *iface, writer_i *out);
 bool lstr_ieq(const lstr_t a, const lstr_t b);
 
 typedef enum {
-    BP_MINVAL                = (size_t)-13,
+    BP_MINVAL                = (size_t)-14,
 
     BP_ENDS_OPT_DATA_OVERRUN = (size_t)-14,
     BP_ENDS_OPT_HDR_OVERRUN  = (size_t)-13,
-- 
2.43.0


From 0f4961904509a434f0ebe622e56fd8a9bbcc0af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 004/112] fix: dns: skip an RR's rdata when iterating over RRs

---
 server/dns/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 239a37b..1c0c8ae 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -460,7 +460,7 @@ rr_t *rrs_next(rrs_t *it){
     rr.rdoff = used;
 
     it->rr = rr;
-    it->pos = used;
+    it->pos = used + rr.rdlen;
     it->seen++;
 
     return &it->rr;
-- 
2.43.0


From d4198aea70fca737da1f02cb7ae6a78bf217f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 005/112] fix: dns: do not read a name from a packet without a
 question

---
 server/dns/dns.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/dns/dns.c b/server/dns/dns.c
index 00c86a7..55e9df5 100644
--- a/server/dns/dns.c
+++ b/server/dns/dns.c
@@ -274,6 +274,12 @@ size_t handle_packet(
 
     LOG_DEBUG("%x", FPKT(pkt));
 
+    // without a question, there is no validated name to read
+    if(pkt.qstn.qdcount == 0){
+        LOG_DEBUG("packet without a question!\n");
+        return 0;
+    }
+
     /* save one label more than we'll ever read, so that sort_pkt can be aware
        of junk queries which are only junk because of the extra labels */
     lstr_t rname[6] = {0};
-- 
2.43.0


From c05442437373281806ffb414c76096c0c8a2f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 006/112] fix: dns: do not dereference a NULL membuf after a
 failed send

---
 server/dns/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/dns/main.c b/server/dns/main.c
index d9ced4c..44b7350 100644
--- a/server/dns/main.c
+++ b/server/dns/main.c
@@ -109,7 +109,9 @@ static void on_send(uv_udp_send_t *req, int status){
     globals_t *g = req->handle->data;
 
     membuf_t *membuf = CONTAINER_OF(req, membuf_t, req);
-    g_membuf_return(g, &membuf);
+    // keep our pointer; the membuf's address is logged below
+    membuf_t *returning = membuf;
+    g_membuf_return(g, &returning);
 
     if(status == 0 || status == UV_ECANCELED) return;
 
-- 
2.43.0


From 2deda02103a26a700afdbc9d95aca0addadd5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 007/112] fix: FETCH in an EXAMINEd mailbox must not set \Seen

---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c52eeb..fc0f55b 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1549,7 +1549,8 @@ static derr_t fetch_begin(
        other FETCH commands don't happen to affect any unseen messages */
     bool ispeek = fetch_is_peek_only(dn->fetch.cmd);
     msg_key_list_t *nonpeeks = NULL;
-    if(!ispeek){
+    // in a read-only mailbox, even a non-peek FETCH doesn't set \Seen flags
+    if(!ispeek && !dn->examine){
         PROP(&e, nonpeek_msgs(dn, dn->fetch.uids_dn, &nonpeeks) );
     }
     if(!nonpeeks){
-- 
2.43.0


From dc0752df76a1bce844a4a0ebabee2647f72a28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:55 +0000
Subject: [PATCH 008/112] fix: do not send EXPUNGE for a message the client was
 never told about

---
 libimaildir/dn.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index fc0f55b..48224bf 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -5,6 +5,8 @@
 
 typedef struct {
     unsigned int uid_dn;
+    // expunged before the client was told about it
+    bool unannounced;
     jsw_anode_t node;
 } gathered_t;
 DEF_CONTAINER_OF(gathered_t, node, jsw_anode_t)
@@ -2350,7 +2352,12 @@ static derr_t gather_send_responses(
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
         node = jsw_aerase(&gather->news, &gathered->uid_dn);
-        if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
+        if(node){
+            gathered_free(CONTAINER_OF(node, gathered_t, node));
+            /* the client never knew about this message, so it must not see an
+               EXPUNGE for it either */
+            gathered->unannounced = true;
+        }
 
         node = jsw_aerase(&gather->metas, &gathered->uid_dn);
         if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
@@ -2405,6 +2412,8 @@ static derr_t gather_send_responses(
         jsw_aerase(&dn->views, &gathered->uid_dn);
         msg_view_free(&view);
 
+        if(gathered->unannounced) continue;
+
         unsigned int seq_num;
         PROP_GO(&e, index_to_seq_num(index, &seq_num), cu);
         PROP_GO(&e, send_expunge(dn, seq_num, &temp), cu);
-- 
2.43.0


From 4c2953721717b1d05a9b670eaa6d5c87de7739e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 009/112] fix: CLOSE of an EXAMINEd mailbox must not expunge
 messages

---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 48224bf..2b9e5ef 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2071,7 +2071,8 @@ fail:
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
-    if(!expunge){
+    // a read-only mailbox is left as it is (RFC 3501, 6.4.2)
+    if(!expunge || dn->examine){
         /* since the server_t is not allowed to process commands while it is
            waiting for the dn_t to respond to a command, there's no additional
            need to synchronize at this point */
-- 
2.43.0


From 0a13ebfbc36d358b4a660f26923c66aa2f04ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 010/112] fix: finish a reSELECT before starting the next one
 or relaying commands

---
 libimaildir/up.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index bb7c1eb..4c5c288 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -408,9 +408,11 @@ static derr_t reselect_done(imap_cmd_cb_t *cb, const ie_st_resp_t *st_resp){
 
     // non-initial sync complete
     // TODO: wait for a SEARCH RECENT as well, if necessary
-    PROP(&e, imaildir_up_synced(up->m, up, up->reselect.examine) );
-
+    /* forget this reselect first, since imaildir_up_synced() may request the
+       next one, or may emit the relays which waited for this one */
+    bool examine = up->reselect.examine;
     up_free_reselect(up);
+    PROP(&e, imaildir_up_synced(up->m, up, examine) );
 
     return e;
 }
-- 
2.43.0


From f4985642afdeacbb6a4573ada81d65db57df0721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:12 +0000
Subject: [PATCH 011/112] fix: a COPY which finds nothing to copy must not end
 the session

---
 libimaildir/imaildir.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index f2f7dfe..5a1373f 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2006,9 +2006,14 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
         return e;
     }
 
-    // ensure that we have a COPYUID in the st_resp
+    /* there is no COPYUID when nothing was copied (RFC 4315, section 3), which
+       happens if another connection expunged all of the messages first */
     if(!st_resp->code){
-        ORIG(&e, E_RESPONSE, "expected COPYUID in st_resp but got nothing");
+        LOG_WARN("COPY without COPYUID; nothing was copied\n");
+        if(!relay->locals) return e;
+        const dstr_t *name = ie_mailbox_name(relay->cmd->arg.copy->m);
+        PROP(&e, local_copy_with_hold(m, relay->locals, name) );
+        return e;
     }
     if(st_resp->code->type != IE_ST_CODE_COPYUID){
         TRACE(&e, "expected COPYUID in status response (%x) but got %x\n",
-- 
2.43.0


From fd23eb1ca25240a849cb5ff4faec45fcb294bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 012/112] fix: bootstrap a mailbox again if the first bootstrap
 was interrupted

---
 libimaildir/up.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index 4c5c288..311bcc6 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1200,6 +1200,11 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                     /* start with a bootstrap fetch and don't commit any
                        himodseq values to the log yet */
                     up->bootstrap.needed = true;
+                }else if(!up->select.himodseq_up){
+                    /* the connection was lost before the first bootstrap
+                       finished; this SELECT had no QRESYNC either, so we still
+                       need to bootstrap */
+                    up->bootstrap.needed = true;
                 }
                 break;
 
-- 
2.43.0


From e0f8026906ea382d997f8bd11012f01340072b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:44 +0000
Subject: [PATCH 013/112] fix: tell a dn_t which is still waiting for the
 SELECT that its imaildir is gone

---
 libimaildir/imaildir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 5a1373f..5210866 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -221,6 +221,10 @@ static void do_fail(imaildir_t *m){
         up_t *up = CONTAINER_OF(link, up_t, link);
         up_imaildir_failed(up);
     }
+    while((link = link_list_pop_first(&m->predns)) != NULL){
+        dn_t *dn = CONTAINER_OF(link, dn_t, link);
+        dn_imaildir_failed(dn);
+    }
     while((link = link_list_pop_first(&m->dns)) != NULL){
         dn_t *dn = CONTAINER_OF(link, dn_t, link);
         dn_imaildir_failed(dn);
-- 
2.43.0


From ddba94af5b0588d867d3ea6f1c0406b6a11f177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 014/112] fix: close connections whose views are stale after a
 UIDVALIDITY change

---
 libimaildir/imaildir.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 5210866..900c1e3 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -924,7 +924,12 @@ derr_t imaildir_up_check_uidvld_up(imaildir_t *m, unsigned int uidvld_up){
 
     if(old_uidvld_up == uidvld_up) return e;
 
-    // TODO: puke if we have any connections downwards with built views
+    /* the views of the connections downwards name messages by their old UIDs;
+       close those connections before their commands hit other messages */
+    if(old_uidvld_up && !link_list_isempty(&m->dns)){
+        ORIG_GO(&e, E_IMAILDIR, "UIDVALIDITY changed, views are stale", fail);
+    }
+
     /* TODO: on windows, we'll have to ensure that nobody has any files
              open at all, because delete_all_msg_files() would fail */
 
-- 
2.43.0


From 59a6a107498028f8bbf04fb25bc5b18c1763a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 015/112] fix: forget deletions of an old UIDVALIDITY instead
 of deleting new messages

---
 libimaildir/up.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index 311bcc6..3ab751d 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1197,6 +1197,12 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                        old UIDVALIDITY */
                     up->himodseq_up_seen = 0;
                     up->himodseq_up_committed = 0;
+                    /* uids from the old UIDVALIDITY would refer to arbitrary
+                       other messages now */
+                    if(!up->select.done){
+                        up_free_deletions(up);
+                        seq_set_builder_free(&up->fetch.uids_up);
+                    }
                     /* start with a bootstrap fetch and don't commit any
                        himodseq values to the log yet */
                     up->bootstrap.needed = true;
-- 
2.43.0


From 03aa2be47eedf2b613195ccf69b907e8b8221a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 016/112] fix: keep track of relayed commands which are sent
 after a reselect

link_list_append_list() with a popped link appends nothing, so the relay
was lost: it was leaked, it was never replayed after a lost connection, and
its requester was not cleaned up when the dn_t went away.
---
 libimaildir/imaildir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 900c1e3..2b0289a 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1366,7 +1366,7 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
     imap_cmd_t *cmd = NULL;
     link_t *link;
     while((link = link_list_pop_first(&m->relays_unsent))){
-        link_list_append_list(&m->relays_sent, link);
+        link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
         cmd = imap_cmd_copy(&e, relay->cmd);
-- 
2.43.0


From 31dfd11acb1645e1407e12c17a2c66bd20602bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:41 +0000
Subject: [PATCH 017/112] fix: do not reuse a UID for a message whose FILLED
 state was not logged

When a crash left a message file without its log entry, the loading logic
assigned the message a new uid_dn before looking which uid_dn's are used.
---
 libimaildir/imaildir.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 2b0289a..100e487 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -499,14 +499,7 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         )
     );
 
-    if(read_files){
-        // populate messages by reading files
-        PROP(&e, populate_msgs(m) );
-
-        PROP(&e, imaildir_print_msgs(m) );
-    }
-
-    // detect all of the uid_dn's and uid_local's
+    // detect all of the uid_dn's and uid_local's, before assigning new ones
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &m->msgs);
     for(; node != NULL; node = jsw_atnext(&trav)){
@@ -522,6 +515,13 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         detect_hi_uid_local(m, expunge->key.uid_local);
     }
 
+    if(read_files){
+        // populate messages by reading files
+        PROP(&e, populate_msgs(m) );
+
+        PROP(&e, imaildir_print_msgs(m) );
+    }
+
     return e;
 }
 
-- 
2.43.0


From ef96a292957d6c86a9b41e6f1d86a9a485f5a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 018/112] fix: keep a message's INTERNALDATE through a crash

The internaldate was only logged together with the FILLED state, but a
message whose file is in place is not downloaded again, so that a crash
between the two lost the internaldate for good.
---
 libimaildir/imaildir.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 100e487..154285f 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1254,6 +1254,9 @@ static derr_t _imaildir_up_handle_static_fetch_attr(
         msg->state = MSG_NOT4ME;
         PROP(&e, m->log->update_msg(m->log, msg) );
     }else{
+        /* make sure the internaldate is in place in case we crash, since the
+           loading logic will not download a message whose file is in place */
+        PROP_GO(&e, m->log->update_msg(m->log, msg), fail_tmp);
         // keep the file contents
         PROP(&e, handle_new_msg_file(m, &tmp_path, msg, len) );
         // complete the message and persist its state
@@ -1264,6 +1267,10 @@ static derr_t _imaildir_up_handle_static_fetch_attr(
     }
 
     return e;
+
+fail_tmp:
+    DROP_CMD( remove_path(&tmp_path) );
+    return e;
 }
 
 derr_t imaildir_up_handle_static_fetch_attr(
-- 
2.43.0


From 0ebcb87afa2fc9f238dcf85ad3cfdcef4e97e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:24 +0000
Subject: [PATCH 019/112] fix: finish an interrupted wipe of a mailbox whose
 log is already gone

If the process died while deleting the message files after a UIDVALIDITY
change, the log file was already deleted, and deleting it again failed
whenever the mailbox was opened.
---
 libimaildir/log_file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index f13c047..4bd6227 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -597,6 +597,9 @@ cu:
 derr_t imaildir_log_rm(const string_builder_t *dirpath){
     derr_t e = E_OK;
     string_builder_t path = sb_append(dirpath, SBS(".cache"));
-    PROP(&e, remove_path(&path) );
+    // it may have been deleted already, before a crash
+    bool exists;
+    PROP(&e, exists_path(&path, &exists) );
+    if(exists) PROP(&e, remove_path(&path) );
     return e;
 }
-- 
2.43.0


From 79a45905314b4b09ca34fda48d856a3eafb77ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:24 +0000
Subject: [PATCH 020/112] fix: do not leave message files without a log when
 dropping a mailbox

The log of a mailbox which does not exist anymore was deleted before its
message files.  If the process died in between, the leftover files made the
mailbox impossible to open if it was created again.
---
 libimaildir/imaildir.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 154285f..bc806fb 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -556,6 +556,27 @@ static derr_t delete_all_msg_files(const string_builder_t *maildir_path){
     return e;
 }
 
+/* Delete the log and the message files.  Message files without a log would
+   make the mailbox impossible to open, so mark the cache as invalid first, in
+   case we crash or lose power halfway through. */
+static derr_t wipe_maildir(const string_builder_t *path){
+    derr_t e = E_OK;
+
+    string_builder_t invalid_path = sb_append(path, SBS(".invalid"));
+    PROP(&e, touch_path(&invalid_path) );
+
+    // delete the log from the filesystem
+    PROP(&e, imaildir_log_rm(path) );
+
+    // delete message files from the filesystem
+    PROP(&e, delete_all_msg_files(path) );
+
+    // cache is no longer invalid
+    PROP(&e, remove_path(&invalid_path) );
+
+    return e;
+}
+
 static derr_t imaildir_init_ex(
     imaildir_t *m,
     imaildir_cb_i *cb,
@@ -573,15 +594,7 @@ static derr_t imaildir_init_ex(
 
     if(is_invalid){
         // we must have failed while wiping the cache; finish the job
-
-        // delete the log from the filesystem
-        PROP(&e, imaildir_log_rm(&path) );
-
-        // delete message files from the filesystem
-        PROP(&e, delete_all_msg_files(&path) );
-
-        // cache is no longer invalid
-        PROP(&e, remove_path(&invalid_path) );
+        PROP(&e, wipe_maildir(&path) );
     }
 
     *m = (imaildir_t){
@@ -691,11 +704,7 @@ void imaildir_free(imaildir_t *m){
 
     // check if we found out this maildir doesn't exist anymore
     if(m->rm_on_close){
-        // delete the log from the filesystem
-        DROP_CMD( imaildir_log_rm(&m->path) );
-
-        // delete message files from the filesystem
-        DROP_CMD( delete_all_msg_files(&m->path) );
+        DROP_CMD( wipe_maildir(&m->path) );
     }
 }
 
-- 
2.43.0


From c45b0b3ee8beadfc9ce5f15a9684dc1fecd13c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:49 +0000
Subject: [PATCH 021/112] fix: DELETE of a mailbox must not delete the local
 copy of its inferiors

Also, mark the mailbox invalid while it is being deleted, so that a crash
cannot leave message files without a log, with which the mailbox could not be
opened if it was created again.
---
 libimaildir/dirmgr.c | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 38f2b3a..4b7027e 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -715,6 +715,48 @@ void dirmgr_freeze_free(dirmgr_freeze_t *freeze){
     free(freeze);
 }
 
+static derr_t _rm_mailbox_file(
+    const string_builder_t *base, const dstr_t *name, bool isdir, void *arg
+){
+    derr_t e = E_OK;
+    (void)arg;
+    // leave inferior mailboxes alone, and remove the .invalid marker last
+    if(isdir || dstr_eq(*name, DSTR_LIT(".invalid"))) return e;
+    string_builder_t path = sb_append(base, SBD(*name));
+    PROP(&e, remove_path(&path) );
+    return e;
+}
+
+/* Delete everything that belongs to a mailbox, but not its inferiors, which
+   survive a DELETE of their superior. */
+static derr_t rm_mailbox(const string_builder_t *dir_path){
+    derr_t e = E_OK;
+
+    /* mark the cache as invalid first; if we crash halfway through, leftover
+       message files without a log would prevent the mailbox from opening */
+    string_builder_t invalid_path = sb_append(dir_path, SBS(".invalid"));
+    PROP(&e, touch_path(&invalid_path) );
+
+    char *ctn[3] = {"cur", "tmp", "new"};
+    for(size_t i = 0; i < 3; i++){
+        string_builder_t path = sb_append(dir_path, SBS(ctn[i]));
+        bool exists;
+        PROP(&e, exists_path(&path, &exists) );
+        if(exists) PROP(&e, rm_rf_path(&path) );
+    }
+
+    PROP(&e, for_each_file_in_dir(dir_path, _rm_mailbox_file, NULL) );
+
+    PROP(&e, remove_path(&invalid_path) );
+
+    // keep the directory if there are inferiors
+    bool empty;
+    PROP(&e, dir_is_empty(dir_path, &empty) );
+    if(empty) PROP(&e, drmdir_path(dir_path) );
+
+    return e;
+}
+
 // the freeze you have holds the name
 derr_t dirmgr_delete(dirmgr_t *dm, dirmgr_freeze_t *freeze){
     derr_t e = E_OK;
@@ -731,7 +773,7 @@ derr_t dirmgr_delete(dirmgr_t *dm, dirmgr_freeze_t *freeze){
     bool exists;
     PROP(&e, exists_path(&dir_path, &exists) );
     if(exists){
-        PROP(&e, rm_rf_path(&dir_path) );
+        PROP(&e, rm_mailbox(&dir_path) );
     }
 
     return e;
-- 
2.43.0


From 48a5b8fce5ba3b8e5bb93d67d939700ddf6b5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 022/112] fix: compaction must not bring back a message which
 was never downloaded

The log line for the expunge of a message without a UID is not kept, but
the line which it replaced was.
---
 libimaildir/log_file.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index 4bd6227..1cf8fea 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -96,8 +96,15 @@ static derr_t maybe_compact(log_t *log){
             ORIG_GO(&e, E_PARAM, "missing '|' in logfile line", cu);
         }
 
-        // ignore values we wouldn't write anymore
-        if(dstr_eq(val, DSTR_LIT("1:0:0:x"))) continue;
+        // ignore values we wouldn't write anymore, and whatever they replace
+        if(dstr_eq(val, DSTR_LIT("1:0:0:x"))){
+            hash_elem_t *old = hashmap_dels(&h, &key);
+            if(old){
+                mss = CONTAINER_OF(old, map_str_str_t, elem);
+                map_str_str_free(&mss);
+            }
+            continue;
+        }
 
         // put this key/val pair in the map
         PROP_GO(&e, map_str_str_new(key, val, &mss), cu);
-- 
2.43.0


From 29a47888001071a94d55236ea1b44426fdd54fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:06 +0000
Subject: [PATCH 023/112] fix: answer a SEARCH of an empty mailbox

The untagged response was sent, but never the tagged one.
---
 libimaildir/dn.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 2b9e5ef..d2a45ed 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -761,18 +761,16 @@ derr_t dn_search(
 
     PROP(&e, healthcheck(dn) );
 
-    // handle the empty maildir case
-    if(dn->views.size == 0){
-        PROP(&e, send_search_resp(dn, NULL, out) );
-        return e;
-    }
+    ie_nums_t *nums = NULL;
 
-    // now figure out some constants to do the search
-    unsigned int seq_max;
-    PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
+    // nothing can match in an empty maildir
+    if(dn->views.size > 0){
+        // now figure out some constants to do the search
+        unsigned int seq_max;
+        PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
 
-    ie_nums_t *nums = NULL;
-    PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+        PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+    }
 
     link_t temp = {0};
 
-- 
2.43.0


From 2717112d421b4dbb3eb8a6ef14edf4a90b9c418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 024/112] fix: reject mailbox names which would leave the mail
 directory

SELECT, EXAMINE, APPEND, COPY and STATUS turned any mailbox name into a path,
so that SELECT ../../other/mail/INBOX opened, and after the server's NO even
deleted, files of another account. dirmgr_name_valid was only checked (as an
internal error) after DELETE and RENAME. It also accepted the names of the
store's own files.
---
 libcitm/sc.c         | 53 +++++++++++++++++++++++++++++++++++++-------
 libimaildir/dirmgr.c |  6 ++++-
 libimaildir/dirmgr.h |  2 +-
 3 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 23edd8f..f35da28 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -295,6 +295,20 @@ static derr_t advance_disconnect(sc_t *sc, bool expunge, bool *okout){
     return e;
 }
 
+// mailbox names become paths, so not every name is acceptable
+static derr_t require_valid_name(
+    sc_t *sc, ie_dstr_t **tagp, const ie_mailbox_t *m, bool *valid
+){
+    derr_t e = E_OK;
+
+    *valid = dirmgr_name_valid(ie_mailbox_name(m));
+    if(*valid) return e;
+
+    PROP(&e, RESP_NO(tagp, "invalid mailbox name", &sc->resps) );
+
+    return e;
+}
+
 static derr_t advance_select(
     sc_t *sc,
     ie_dstr_t **tagp,
@@ -313,6 +327,16 @@ static derr_t advance_select(
         sc->select_disconnected = true;
     }
 
+    if(!sc->select_connected){
+        bool valid;
+        PROP(&e, require_valid_name(sc, tagp, *mp, &valid) );
+        if(!valid){
+            sc->select_disconnected = false;
+            *ok = true;
+            return e;
+        }
+    }
+
     ONCE(sc->select_connected){
         // connect our dn_t first, to pick the initial SELECT/EXAMINE correctly
         PROP(&e,
@@ -522,11 +546,14 @@ static derr_t check_status(
         // post-process the STATUS response; the server's values will be wrong
         const ie_status_resp_t *status = resp->arg.status;
         const dstr_t *name = ie_mailbox_name(status->m);
-        ie_status_attr_resp_t old = status->sa;
-        ie_status_attr_resp_t new;
-        PROP(&e, dirmgr_process_status_resp(sc->dirmgr, name, old, &new) );
-        // modify the response
-        resp->arg.status->sa = new;
+        // but we can't have local info for an invalid name
+        if(dirmgr_name_valid(name)){
+            ie_status_attr_resp_t old = status->sa;
+            ie_status_attr_resp_t new;
+            PROP(&e, dirmgr_process_status_resp(sc->dirmgr, name, old, &new) );
+            // modify the response
+            resp->arg.status->sa = new;
+        }
         // relaying it downwards
         send_resp(&e, sc, STEAL(imap_resp_t, respp));
         CHECK(&e);
@@ -543,6 +570,9 @@ static derr_t pre_delete(
 ){
     derr_t e = E_OK;
 
+    PROP(&e, require_valid_name(sc, cmdtagp, argp->delete, valid) );
+    if(!*valid) return e;
+
     *valid = false;
 
     const dstr_t deleting = *ie_mailbox_name(argp->delete);
@@ -594,6 +624,11 @@ static derr_t pre_rename(
 ){
     derr_t e = E_OK;
 
+    PROP(&e, require_valid_name(sc, cmdtagp, argp->rename->old, valid) );
+    if(!*valid) return e;
+    PROP(&e, require_valid_name(sc, cmdtagp, argp->rename->new, valid) );
+    if(!*valid) return e;
+
     *valid = false;
 
     const dstr_t old = *ie_mailbox_name(argp->rename->old);
@@ -657,11 +692,11 @@ static derr_t pre_append(
 ){
     derr_t e = E_OK;
 
-    (void)cmdtagp;
-    *valid = true;
-
     ie_append_cmd_t *append = argp->append;
 
+    PROP(&e, require_valid_name(sc, cmdtagp, append->m, valid) );
+    if(!*valid) return e;
+
     // step 1: write the unencrypted text to a file for saving
     sc->append_tmp_id = dirmgr_new_tmp_id(sc->dirmgr);
     string_builder_t tmp_path = sb_append(&sc->dirmgr->path, SBS("tmp"));
@@ -913,6 +948,8 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
         case IMAP_CMD_COPY:
             PROP(&e, require_selected(sc, tagp, &valid) );
             if(!valid) break;
+            PROP(&e, require_valid_name(sc, tagp, arg->copy->m, &valid) );
+            if(!valid) break;
             PROP(&e, dn_copy(&sc->dn, tagp, arg->copy, out, ok) );
             break;
         case IMAP_CMD_FETCH:
diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 4b7027e..a31fa20 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -322,12 +322,13 @@ void dirmgr_close_dn(dirmgr_t *dm, dn_t *dn){
 }
 
 /* check for invald names, including:
-   - sections named any of: . .. cur tmp new
+   - sections named any of: . .. cur tmp new .cache .cache.tmp .invalid
    - empty sections
    - names starting or ending with /
    - names containing newlines */
 bool dirmgr_name_valid(const dstr_t *name){
     if(dstr_count(name, &DSTR_LIT("\0"))) return false;
+    if(dstr_count(name, &DSTR_LIT("\n"))) return false;
 
     LIST_VAR(dstr_t, split, 2);
     DSTR_STATIC(sep, "/");
@@ -348,6 +349,9 @@ bool dirmgr_name_valid(const dstr_t *name){
         if(!dstr_cmp(&elem, &DSTR_LIT("cur"))) return false;
         if(!dstr_cmp(&elem, &DSTR_LIT("tmp"))) return false;
         if(!dstr_cmp(&elem, &DSTR_LIT("new"))) return false;
+        if(!dstr_cmp(&elem, &DSTR_LIT(".cache"))) return false;
+        if(!dstr_cmp(&elem, &DSTR_LIT(".cache.tmp"))) return false;
+        if(!dstr_cmp(&elem, &DSTR_LIT(".invalid"))) return false;
     } while(split.len > 1);
 
     return true;
diff --git a/libimaildir/dirmgr.h b/libimaildir/dirmgr.h
index 838160d..496d8c2 100644
--- a/libimaildir/dirmgr.h
+++ b/libimaildir/dirmgr.h
@@ -84,7 +84,7 @@ void dirmgr_close_up(dirmgr_t *dm, up_t *up);
 void dirmgr_close_dn(dirmgr_t *dm, dn_t *dn);
 
 /* check for invald names, including:
-   - sections named any of: . .. cur tmp new
+   - sections named any of: . .. cur tmp new .cache .cache.tmp .invalid
    - empty sections
    - names starting or ending with /
    - names containing newlines */
-- 
2.43.0


From f0ec3e692f2329a2a004a4575405d946f9776357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 025/112] fix: a mailbox being deleted or renamed ended other
 sessions which asked for it

SELECT, DELETE or RENAME of a mailbox during the DELETE or RENAME of another
session, or RENAME of a mailbox to its own name, closed the connection.  Answer
with NO instead.
---
 libcitm/sc.c | 66 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index f35da28..503a5c0 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -339,16 +339,24 @@ static derr_t advance_select(
 
     ONCE(sc->select_connected){
         // connect our dn_t first, to pick the initial SELECT/EXAMINE correctly
-        PROP(&e,
-            dirmgr_open_dn(
-                sc->dirmgr,
-                ie_mailbox_name(*mp),
-                &sc->dn,
-                &sc->dn_cb,
-                &sc->s->exts,
-                examine
-            )
+        derr_t e2 = dirmgr_open_dn(
+            sc->dirmgr,
+            ie_mailbox_name(*mp),
+            &sc->dn,
+            &sc->dn_cb,
+            &sc->s->exts,
+            examine
         );
+        CATCH(&e2, E_FROZEN){
+            DROP_VAR(&e2);
+            sc->select_disconnected = false;
+            sc->select_connected = false;
+            *ok = true;
+            PROP(&e,
+                RESP_NO(tagp, "mailbox is being changed", &sc->resps)
+            );
+            return e;
+        }else PROP_VAR(&e, &e2);
         sc->dn_active = true;
 
         // connect our up_t
@@ -565,6 +573,31 @@ static derr_t check_status(
     return e;
 }
 
+// take out a freeze, or tell the client that somebody else has it
+static derr_t try_freeze(
+    sc_t *sc,
+    ie_dstr_t **cmdtagp,
+    const dstr_t *name,
+    dirmgr_freeze_t **freeze,
+    bool *valid
+){
+    derr_t e = E_OK;
+
+    derr_t e2 = dirmgr_freeze_new(sc->dirmgr, name, freeze);
+    CATCH(&e2, E_BUSY){
+        DROP_VAR(&e2);
+        *valid = false;
+        PROP(&e,
+            RESP_NO(cmdtagp, "mailbox is being changed", &sc->resps)
+        );
+        return e;
+    }else PROP_VAR(&e, &e2);
+
+    *valid = true;
+
+    return e;
+}
+
 static derr_t pre_delete(
     sc_t *sc, ie_dstr_t **cmdtagp, imap_cmd_arg_t *argp, bool *valid
 ){
@@ -588,9 +621,7 @@ static derr_t pre_delete(
     }
 
     // take out a freeze on the mailbox in question
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &deleting, &sc->freeze_deleting) );
-
-    *valid = true;
+    PROP(&e, try_freeze(sc, cmdtagp, &deleting, &sc->freeze_deleting, valid) );
 
     return e;
 }
@@ -647,10 +678,13 @@ static derr_t pre_rename(
     }
 
     // take out a freeze on the mailbox in question
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &old, &sc->freeze_rename_src) );
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &new, &sc->freeze_rename_dst) );
-
-    *valid = true;
+    PROP(&e, try_freeze(sc, cmdtagp, &old, &sc->freeze_rename_src, valid) );
+    if(!*valid) return e;
+    PROP(&e, try_freeze(sc, cmdtagp, &new, &sc->freeze_rename_dst, valid) );
+    if(!*valid){
+        dirmgr_freeze_free(sc->freeze_rename_src);
+        sc->freeze_rename_src = NULL;
+    }
 
     return e;
 }
-- 
2.43.0


From 199fb3813d126dd1157902516408a0f3fcb2d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 026/112] fix: RENAME deleted or stranded other mailboxes'
 local copies

Renaming over a mailbox deleted the local copies of the destination's
inferiors, renaming INBOX renamed the local copy of the whole INBOX
directory, open inferiors of the source stayed open on the old path, and
a missing parent of the destination failed the session.
---
 libcitm/sc.c         |  6 +++-
 libimaildir/dirmgr.c | 77 +++++++++++++++++++++++++++++++++++++++++---
 libimaildir/dirmgr.h |  6 +++-
 3 files changed, 82 insertions(+), 7 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 503a5c0..afbe97e 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -667,7 +667,11 @@ static derr_t pre_rename(
     // can't RENAME to/from a mailbox you are connected to
     if(sc->dn_active){
         const dstr_t opened = *ie_mailbox_name(sc->selected_mailbox);
-        if(dstr_eq(opened, old) || dstr_eq(opened, new)){
+        if(
+            dstr_eq(opened, old)
+            || dstr_eq(opened, new)
+            || dirmgr_name_is_inferior(&opened, &old)
+        ){
             PROP(&e,
                 RESP_NO(
                     cmdtagp, "unable to RENAME what is SELECTed", &sc->resps
diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index a31fa20..b989e52 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -357,6 +357,12 @@ bool dirmgr_name_valid(const dstr_t *name){
     return true;
 }
 
+bool dirmgr_name_is_inferior(const dstr_t *name, const dstr_t *parent){
+    if(name->len <= parent->len) return false;
+    if(name->data[parent->len] != '/') return false;
+    return dstr_eq(dstr_sub2(*name, 0, parent->len), *parent);
+}
+
 // part of the imaildir_cb_i
 static bool imaildir_cb_allow_download(imaildir_cb_i *cb, imaildir_t *m){
     dirmgr_t *dm = CONTAINER_OF(cb, dirmgr_t, imaildir_cb);
@@ -761,6 +767,32 @@ static derr_t rm_mailbox(const string_builder_t *dir_path){
     return e;
 }
 
+static derr_t _rm_inferior(
+    const string_builder_t *base, const dstr_t *name, bool isdir, void *arg
+);
+
+// delete everything that belongs to a mailbox and to its inferiors
+static derr_t rm_mailbox_tree(const string_builder_t *dir_path){
+    derr_t e = E_OK;
+    PROP(&e, for_each_file_in_dir(dir_path, _rm_inferior, NULL) );
+    PROP(&e, rm_mailbox(dir_path) );
+    return e;
+}
+
+static derr_t _rm_inferior(
+    const string_builder_t *base, const dstr_t *name, bool isdir, void *arg
+){
+    derr_t e = E_OK;
+    (void)arg;
+    if(!isdir) return e;
+    if(dstr_eq(*name, DSTR_LIT("cur"))) return e;
+    if(dstr_eq(*name, DSTR_LIT("tmp"))) return e;
+    if(dstr_eq(*name, DSTR_LIT("new"))) return e;
+    string_builder_t path = sb_append(base, SBD(*name));
+    PROP(&e, rm_mailbox_tree(&path) );
+    return e;
+}
+
 // the freeze you have holds the name
 derr_t dirmgr_delete(dirmgr_t *dm, dirmgr_freeze_t *freeze){
     derr_t e = E_OK;
@@ -803,20 +835,55 @@ derr_t dirmgr_rename(dirmgr_t *dm, dirmgr_freeze_t *src, dirmgr_freeze_t *dst){
     string_builder_t src_path = sb_append(&dm->path, SBD(src->name));
     string_builder_t dst_path = sb_append(&dm->path, SBD(dst->name));
 
-    // delete dst_path
+    // any existing copy of dst is obsolete, but its inferiors may not be
     bool exists;
     PROP(&e, exists_path(&dst_path, &exists) );
     if(exists){
-        // TODO: this will not play nicely with hierarchical mailboxes
-        PROP(&e, rm_rf_path(&dst_path) );
+        PROP(&e, rm_mailbox(&dst_path) );
+    }
+
+    /* renaming INBOX moves its messages, but INBOX itself and its inferiors
+       remain; both mailboxes are updated when they are next opened */
+    if(dstr_eq(src->name, DSTR_LIT("INBOX"))) return e;
+
+    // the inferiors of src are renamed too; close any that are open
+    hashmap_trav_t trav;
+    hash_elem_t *h = hashmap_iter(&trav, &dm->dirs);
+    while(h){
+        managed_dir_t *mgd = CONTAINER_OF(h, managed_dir_t, h);
+        if(dirmgr_name_is_inferior(&mgd->name, &src->name)){
+            imaildir_forceclose(&mgd->m);
+            hash_elem_remove(&mgd->h);
+            managed_dir_free(&mgd);
+            // start over, since we modified the hashmap
+            h = hashmap_iter(&trav, &dm->dirs);
+        }else{
+            h = hashmap_next(&trav);
+        }
     }
 
-    // do the rename
     PROP(&e, exists_path(&src_path, &exists) );
+    if(!exists) return e;
+
+    PROP(&e, exists_path(&dst_path, &exists) );
     if(exists){
-        PROP(&e, drename_path(&src_path, &dst_path) );
+        // inferiors of dst prevent the rename; src will be downloaded again
+        PROP(&e, rm_mailbox_tree(&src_path) );
+        return e;
     }
 
+    // make sure that the parent of dst exists
+    size_t parent_len = dst->name.len;
+    while(parent_len && dst->name.data[parent_len - 1] != '/') parent_len--;
+    if(parent_len){
+        dstr_t parent = dstr_sub2(dst->name, 0, parent_len - 1);
+        string_builder_t parent_path = sb_append(&dm->path, SBD(parent));
+        PROP(&e, mkdirs_path(&parent_path, 0777) );
+    }
+
+    // do the rename
+    PROP(&e, drename_path(&src_path, &dst_path) );
+
     return e;
 }
 
diff --git a/libimaildir/dirmgr.h b/libimaildir/dirmgr.h
index 496d8c2..33c7c4e 100644
--- a/libimaildir/dirmgr.h
+++ b/libimaildir/dirmgr.h
@@ -90,6 +90,9 @@ void dirmgr_close_dn(dirmgr_t *dm, dn_t *dn);
    - names containing newlines */
 bool dirmgr_name_valid(const dstr_t *name);
 
+// is name somewhere below parent in the mailbox hierarchy?
+bool dirmgr_name_is_inferior(const dstr_t *name, const dstr_t *parent);
+
 typedef derr_t (*for_each_mbx_hook_t)(const dstr_t *name, bool has_ctn,
         bool has_children, void *data);
 derr_t dirmgr_do_for_each_mbx(dirmgr_t *dm, const dstr_t *ref_name,
@@ -155,7 +158,8 @@ void dirmgr_freeze_free(dirmgr_freeze_t *freeze);
 // the freeze you have holds the name
 derr_t dirmgr_delete(dirmgr_t *dm, dirmgr_freeze_t *freeze);
 
-// the freezes you have hold the names
+/* the freezes you have hold the names; inferiors of src are renamed with it
+   (except for INBOX), so any accessors of those are shut down */
 derr_t dirmgr_rename(dirmgr_t *dm, dirmgr_freeze_t *src, dirmgr_freeze_t *dst);
 
 // take a STATUS response from the server and correct for local info
-- 
2.43.0


From 30db7e9cebb00ca505e2713eee1bfe5a96f640f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 027/112] fix: jdump hid the failure to write the final newline

---
 libdstr/jdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/jdump.c b/libdstr/jdump.c
index 5199c48..818d11b 100644
--- a/libdstr/jdump.c
+++ b/libdstr/jdump.c
@@ -267,7 +267,7 @@ derr_type_t jdump_quiet(jdump_i *j, writer_i *out, int indent){
     etype = j->jdump(j, out, indent, 0);
     if(!etype && indent){
         // terminating newline, only in indented cases
-        w.putc(out, '\n');
+        etype = w.putc(out, '\n');
     }
     derr_type_t etype2 = E_NONE;
     if(w.unlock){
-- 
2.43.0


From 5b80f58186103a15db6b9c293a49531731354b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 028/112] fix: json_free with only one kind of preallocated
 memory freed the caller's nodes

---
 libdstr/json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdstr/json.c b/libdstr/json.c
index e9a675f..3bb1263 100644
--- a/libdstr/json.c
+++ b/libdstr/json.c
@@ -754,12 +754,12 @@ void json_prep_preallocated(
     link_init(&json->node_blocks);
     link_init(&json->text_blocks);
 
+    link_init(&json->preallocated_text.link);
+    link_init(&json->preallocated_nodes.link);
     if(text){
-        link_init(&json->preallocated_text.link);
         link_list_append(&json->text_blocks, &json->preallocated_text.link);
     }
     if(nnodes){
-        link_init(&json->preallocated_nodes.link);
         link_list_append(&json->node_blocks, &json->preallocated_nodes.link);
     }
 }
-- 
2.43.0


From 8e20ffd853cb78d8bb55639a7ed06b062c751fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 029/112] fix: the utf8 decoder accepted overlong encodings and
 values beyond U+10FFFF

---
 libdstr/unicode.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index 9bbf208..3127837 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -128,6 +128,11 @@ loop_start:
         LOG_DEBUG("invalid utf8 start byte\n");
         return E_PARAM;
     }
+    if(u < 0xC2 || u > 0xF4){
+        // always an overlong encoding, or always beyond U+10FFFF
+        LOG_DEBUG("invalid utf8 start byte\n");
+        return E_PARAM;
+    }
 
 process_tail:
     while(tail){
@@ -138,11 +143,21 @@ process_tail:
             return E_NONE;
         }
         u = udata[i++];
-        tail--;
         if((u & 0xC0) != 0x80){
             LOG_DEBUG("invalid utf8 secondary byte\n");
             return E_PARAM;
         }
+        // check the first secondary byte for the remaining overlong encodings
+        if(codepoint == 0 && ((tail == 2 && u < 0xA0) || (tail == 3 && u < 0x90))){
+            LOG_DEBUG("overlong utf8 encoding\n");
+            return E_PARAM;
+        }
+        // and for values beyond U+10FFFF
+        if(codepoint == 4 && tail == 3 && u >= 0x90){
+            LOG_DEBUG("utf8 value beyond U+10FFFF\n");
+            return E_PARAM;
+        }
+        tail--;
         codepoint = (codepoint << 6) | (u & 0x3F);
     }
     if(codepoint >= 0xD800 && codepoint <= 0xDFFF){
-- 
2.43.0


From f7398cf71b10f2f7b5f2a6ff3ef488ec4609cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 030/112] fix: integer conversions rejected -0

---
 libdstr/cvt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdstr/cvt.c b/libdstr/cvt.c
index a3e710b..4b1995a 100644
--- a/libdstr/cvt.c
+++ b/libdstr/cvt.c
@@ -107,6 +107,8 @@ static integer_t parse_integer(const dstr_t in, int base){
         if(++i == in.len){
             // end of the number
             out.ok = true;
+            // there is no negative zero
+            if(out.integer == 0) out.negative = false;
             return out;
         }
         c = in.data[i];
-- 
2.43.0


From 6a70ccc2694c41195970852fe3454ad2de517eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 031/112] fix: a number of exactly 64 characters was written
 with a NUL at its end

---
 libdstr/fmt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdstr/fmt.c b/libdstr/fmt.c
index 175ea67..1fa6a37 100644
--- a/libdstr/fmt.c
+++ b/libdstr/fmt.c
@@ -233,7 +233,7 @@ derr_type_t _fmt_int(const fmt_i *iface, writer_i *out){
 
     char buf[64];
     int len = snprintf(buf, sizeof(buf), "%jd", i);
-    if(len < 0 || (size_t)len > sizeof(buf)) return E_INTERNAL;
+    if(len < 0 || (size_t)len >= sizeof(buf)) return E_INTERNAL;
 
     return out->w->puts(out, buf, (size_t)len);
 }
@@ -243,7 +243,7 @@ derr_type_t _fmt_uint(const fmt_i *iface, writer_i *out){
 
     char buf[64];
     int len = snprintf(buf, sizeof(buf), "%ju", u);
-    if(len < 0 || (size_t)len > sizeof(buf)) return E_INTERNAL;
+    if(len < 0 || (size_t)len >= sizeof(buf)) return E_INTERNAL;
 
     return out->w->puts(out, buf, (size_t)len);
 }
@@ -253,7 +253,7 @@ derr_type_t _fmt_float(const fmt_i *iface, writer_i *out){
 
     char buf[64];
     int len = snprintf(buf, sizeof(buf), "%Lf", f);
-    if(len < 0 || (size_t)len > sizeof(buf)) return E_INTERNAL;
+    if(len < 0 || (size_t)len >= sizeof(buf)) return E_INTERNAL;
 
     return out->w->puts(out, buf, (size_t)len);
 }
@@ -263,7 +263,7 @@ derr_type_t _fmt_ptr(const fmt_i *iface, writer_i *out){
 
     char buf[64];
     int len = snprintf(buf, sizeof(buf), "%p", p);
-    if(len < 0 || (size_t)len > sizeof(buf)) return E_INTERNAL;
+    if(len < 0 || (size_t)len >= sizeof(buf)) return E_INTERNAL;
 
     return out->w->puts(out, buf, (size_t)len);
 }
-- 
2.43.0


From 712834f84b96adeca0e07e4fa4ac4a15667335a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:46 +0000
Subject: [PATCH 032/112] fix: jspec compared counted strings only up to an
 embedded NUL

---
 libdstr/jspec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/jspec.c b/libdstr/jspec.c
index d7f068f..515b2c6 100644
--- a/libdstr/jspec.c
+++ b/libdstr/jspec.c
@@ -400,7 +400,7 @@ derr_t jspec_xstrn_read(jspec_t *jspec, jctx_t *ctx){
     jspec_xstrn_t *arg = CONTAINER_OF(jspec, jspec_xstrn_t, jspec);
     const char *s = arg->s;
     size_t n = arg->n;
-    if(text.len != n || strncmp(text.data, s, text.len) != 0){
+    if(text.len != n || memcmp(text.data, s, text.len) != 0){
         jctx_error(ctx,
             "wrong value: expected \"%x\" but got \"%x\"\n",
             FSN_DBG(s, n),
-- 
2.43.0


From e9fb398c98eb633868983bdfe232492f68af2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 033/112] fix: dstr_cmp was not an order for texts of different
 length

---
 libdstr/common.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index eb0da77..9ce5637 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -251,10 +251,6 @@ static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
     if(a.len == 0 && b.len == 0){
         return 0;
     }
-    // but one NULL and one not are not matching
-    if(!a.data || !b.data){
-        return a.data ? *a.data : *b.data;
-    }
     // don't read past the end of either string
     size_t max = MIN(a.len, b.len);
 
@@ -269,14 +265,8 @@ static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
     }
 
     // one string might be longer than the other
-    if(a.len > b.len){
-        int ca = (int)(char_fn(a.data[b.len]));
-        return ca;
-    }
-    if(b.len > a.len){
-        int cb = (int)(char_fn(b.data[a.len]));
-        return -cb;
-    }
+    if(a.len > b.len) return 1;
+    if(b.len > a.len) return -1;
 
     // strings match
     return 0;
-- 
2.43.0


From e110c4994488b88f88fbf514b26386abdd032cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 034/112] fix: dstr_grow0 did not erase the old memory and
 dstr_grow0_quiet lost the new size

---
 libdstr/common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index 9ce5637..c9dd728 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -563,15 +563,16 @@ derr_type_t dstr_grow0_quiet(dstr_t *ds, size_t min_size){
     }
     void* new = malloc(newsize);
     if(!new) return E_NOMEM;
-    memcpy(new, ds->data, ds->len);
-    dstr_zeroize(ds);
+    if(ds->len) memcpy(new, ds->data, ds->len);
+    if(ds->data) dstr_zeroize(ds);
     free(ds->data);
+    ds->size = newsize;
     ds->data = new;
     return E_NONE;
 }
 derr_t dstr_grow0(dstr_t* ds, size_t min_size){
     derr_t e = E_OK;
-    derr_type_t type = dstr_grow_quiet(ds, min_size);
+    derr_type_t type = dstr_grow0_quiet(ds, min_size);
     if(type) ORIG(&e, type, "unable to grow dstr");
     return e;
 }
-- 
2.43.0


From bae858c9892fdcbd07b83d6cacf65e8817ed12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 035/112] fix: list_append_with_mem stored a leading empty word
 as its terminator

---
 libdstr/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index c9dd728..f0abc8c 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -917,7 +917,7 @@ derr_t list_append_with_mem(LIST(dstr_t)* list, dstr_t* mem, dstr_t in,
         }
     }
     // append the new chunk of *mem to *list
-    dstr_t sub = dstr_sub(mem, start, end);
+    dstr_t sub = dstr_sub2(*mem, start, end);
     PROP_GO(&e, LIST_APPEND(dstr_t, list, sub), fail_1);
     return e;
 
-- 
2.43.0


From 58991f01a682a11d6c3bbfc61d4069132356a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 036/112] fix: the base64 decoder accepted misplaced padding

---
 libdstr/common.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index f0abc8c..ec310e3 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -1221,9 +1221,16 @@ derr_type_t b642bin_quiet(const dstr_t* b64, dstr_t* bin, size_t *consumed){
         }else if(c == '/'){
             ch[ch_idx++] = 63;
         }else if(c == '='){
+            // padding may only replace the last two characters of a chunk
+            if(ch_idx < 2) return E_PARAM;
             skip++;
-            ch_idx++;
+            ch[ch_idx++] = 0;
+        }else{
+            // ignore other characters
+            continue;
         }
+        // no data may follow padding within a chunk
+        if(skip && c != '=') return E_PARAM;
         // check if we should flush
         if(ch_idx == 4){
             DSTR_VAR(buffer, 3);
-- 
2.43.0


From 5b856facd79e0fe2627316954d5cafb5a508b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 037/112] fix: hex2bin silently dropped a trailing odd digit

---
 libdstr/common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdstr/common.c b/libdstr/common.c
index ec310e3..2969619 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -1395,6 +1395,7 @@ derr_t hex2bin(const dstr_t* hex, dstr_t* bin){
             *byte = 0;
         }
     }
+    if(shift) ORIG(&e, E_PARAM, "odd number of hex digits");
     return e;
 }
 
-- 
2.43.0


From e3b98671c9b3fca511228548c9397253e9e25cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 038/112] fix: the utf16 encoder wrote garbage for values
 beyond U+10FFFF

---
 libdstr/unicode.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index 3127837..6982aa8 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -66,6 +66,11 @@ derr_type_t utf16_encode_quiet(
         return E_NONE;
     }
 
+    if(codepoint >= 0x110000){
+        LOG_DEBUG("unicode code point too high\n");
+        return E_PARAM;
+    }
+
     codepoint -= 0x10000;
     uint32_t w1 = 0xD800 | ((codepoint >> 10) & 0x3FF);
     uint32_t w2 = 0xDC00 | ((codepoint >> 0) & 0x3FF);
-- 
2.43.0


From 1f2f00b41d5993f09cf19d9e72451f84e5a62927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:40 +0000
Subject: [PATCH 039/112] fix: url ports accepted a sign

---
 libweb/web.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libweb/web.in b/libweb/web.in
index 7ca9dd4..0b7c587 100644
--- a/libweb/web.in
+++ b/libweb/web.in
@@ -26,6 +26,10 @@ static int read_digit(dstr_off_t off){
 static bool is_valid_port(dstr_off_t off){
     if(!off.len) return true;
 
+    // no sign allowed, just digits
+    char first = off.buf->data[off.start];
+    if(first < '0' || first > '9') return false;
+
     derr_t e = E_OK;
     parse_int_within(&e, off, 1, 65535);
     CATCH_ANY(&e){
-- 
2.43.0


From 4201d20a39b574e40443f1cb302ba579e3ec3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:00 +0000
Subject: [PATCH 040/112] fix: the base64 and json writers left the output
 locked after an error

---
 libdstr/b64.c  |  6 +++---
 libdstr/json.c | 23 +++++++++++++++--------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/libdstr/b64.c b/libdstr/b64.c
index 6c935d8..c4719f6 100644
--- a/libdstr/b64.c
+++ b/libdstr/b64.c
@@ -106,10 +106,10 @@ static derr_type_t _writer_b64_unlock(writer_i *iface){
     _writer_b64_t *w = CONTAINER_OF(iface, _writer_b64_t, iface);
     writer_i *out = w->out;
     derr_type_t etype = _b64_encode_finish(out, &w->pos, &w->leftover);
-    if(etype) return etype;
     // passthru
-    if(!out->w->unlock) return E_NONE;
-    return out->w->unlock(out);
+    if(!out->w->unlock) return etype;
+    derr_type_t etype2 = out->w->unlock(out);
+    return etype ? etype : etype2;
 }
 
 static derr_type_t _writer_b64_null_terminate(writer_i *iface){
diff --git a/libdstr/json.c b/libdstr/json.c
index 3bb1263..d704070 100644
--- a/libdstr/json.c
+++ b/libdstr/json.c
@@ -990,20 +990,27 @@ static derr_type_t _writer_json_lock(writer_i *iface){
         if(etype) return etype;
     }
     // opening quote
-    return out->w->putc(out, '"');
+    derr_type_t etype = out->w->putc(out, '"');
+    // the caller does not unlock after a failed lock
+    if(etype && out->w->unlock) out->w->unlock(out);
+    return etype;
 }
 
 static derr_type_t _writer_json_unlock(writer_i *iface){
     _writer_json_t *uw = CONTAINER_OF(iface, _writer_json_t, iface);
     writer_i *out = uw->out;
-    // check for incomplete utf8 sequences
-    if(uw->tail) return E_PARAM;
-    // closing quote
-    derr_type_t etype = out->w->putc(out, '"');
-    if(etype) return etype;
+    derr_type_t etype;
+    if(uw->tail){
+        // incomplete utf8 sequence
+        etype = E_PARAM;
+    }else{
+        // closing quote
+        etype = out->w->putc(out, '"');
+    }
     // passthru
-    if(!out->w->unlock) return E_NONE;
-    return out->w->unlock(out);
+    if(!out->w->unlock) return etype;
+    derr_type_t etype2 = out->w->unlock(out);
+    return etype ? etype : etype2;
 }
 
 static derr_type_t _writer_json_null_terminate(writer_i *iface){
-- 
2.43.0


From 10f06d0e3173943466998d2dc7b878b5d6b855fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 041/112] fix: header searches examined only the first header
 of a name

---
 libimaildir/search.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libimaildir/search.c b/libimaildir/search.c
index 6e6f9c7..b4235df 100644
--- a/libimaildir/search.c
+++ b/libimaildir/search.c
@@ -67,11 +67,23 @@ static derr_t search_headers(
     derr_t e = E_OK;
     *out = false;
 
-    dstr_t hvalue;
-    PROP(&e, find_header(args, name, &hvalue) );
-    if(!hvalue.data) return e;
+    const imf_hdrs_t *hdrs;
+    IF_PROP(&e, args->get_hdrs(args->get_hdrs_data, &hdrs) ){
+        TRACE(&e, "failed to parse message for header SEARCH\n");
+        DUMP(e);
+        DROP_VAR(&e);
+        return e;
+    }
 
-    if(dstr_icount2(hvalue, value) > 0) *out = true;
+    // a header may be repeated, and any one of them may match
+    for(const imf_hdr_t *hdr = hdrs->hdr; hdr; hdr = hdr->next){
+        if(dstr_icmp2(dstr_from_off(hdr->name), name) != 0) continue;
+        // an empty value matches any header which is present
+        if(!value.len || dstr_icontains(dstr_from_off(hdr->value), value)){
+            *out = true;
+            break;
+        }
+    }
 
     return e;
 }
-- 
2.43.0


From 1993e31c5604896fae45d91112c4394540861f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 042/112] fix: SEARCH answered wrongly to more than a thousand
 keys

---
 libimaildir/search.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libimaildir/search.c b/libimaildir/search.c
index b4235df..be4ba6b 100644
--- a/libimaildir/search.c
+++ b/libimaildir/search.c
@@ -138,10 +138,20 @@ static derr_t do_eval(search_args_t *args, size_t lvl,
         const ie_search_key_t *key, bool *out){
     derr_t e = E_OK;
 
-    // recursion limit
-    if(lvl > 1000){
-        *out = false;
-        return e;
+    // recursion limit; imap_cmd_reader_t limits the nesting to far less
+    if(lvl > 1000) ORIG(&e, E_INTERNAL, "search key is nested too deeply");
+
+    /* a series of keys is a chain of ANDs, which is as long as the command and
+       therefore not a matter for recursion */
+    *out = true;
+    while(key->type == IE_SEARCH_AND){
+        bool temp;
+        PROP(&e, do_eval(args, lvl+1, key->param.pair.b, &temp) );
+        if(!temp){
+            *out = false;
+            return e;
+        }
+        key = key->param.pair.a;
     }
 
     const msg_view_t *view = args->view;
@@ -195,12 +205,7 @@ static derr_t do_eval(search_args_t *args, size_t lvl,
             *out = a || b;
             } break;
 
-        case IE_SEARCH_AND: {
-            bool a, b;
-            PROP(&e, do_eval(args, lvl+1, param.pair.a, &a) );
-            PROP(&e, do_eval(args, lvl+1, param.pair.b, &b) );
-            *out = a && b;
-            } break;
+        case IE_SEARCH_AND: break; // handled already
 
         case IE_SEARCH_UID:
             *out = in_seq_set(view->uid_dn, param.seq_set, args->uid_dn_max);
-- 
2.43.0


From 036eb5183d71f121f073e7aeb19f83b497c99dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 043/112] fix: a SEARCH with a few nested keys ended the
 session

---
 libimap/read.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libimap/read.c b/libimap/read.c
index a422eb3..49b264e 100644
--- a/libimap/read.c
+++ b/libimap/read.c
@@ -11,10 +11,10 @@ derr_t imap_cmd_reader_init(imap_cmd_reader_t *r, extensions_t *exts){
     };
     r->args.scanner = &r->scanner;
 
-    // responses have a fixed size
+    // responses have a fixed size, but not commands; search keys are recursive
     r->p = imap_parser_new(
-        IMAP_RESPONSE_LINE_MAX_CALLSTACK,
-        IMAP_RESPONSE_LINE_MAX_SEMSTACK
+        32*IMAP_RESPONSE_LINE_MAX_CALLSTACK,
+        32*IMAP_RESPONSE_LINE_MAX_SEMSTACK
     );
     if(!r->p){
         ORIG(&e, E_NOMEM, "nomem");
@@ -34,7 +34,7 @@ derr_t imap_resp_reader_init(imap_resp_reader_t *r, extensions_t *exts){
     };
     r->args.scanner = &r->scanner;
 
-    // responses have a fixed size, but not commands; search keys are recursive
+    // responses have a fixed size
     r->p = imap_parser_new(
         2*IMAP_RESPONSE_LINE_MAX_CALLSTACK,
         2*IMAP_RESPONSE_LINE_MAX_SEMSTACK
-- 
2.43.0


From 4258e55538b69858a70b80f965331b172e2717ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 044/112] fix: a length of 4294967295 in a message's metadata
 led to a read out of bounds

---
 libcrypto/crypto.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index bc4cabf..acbf3a3 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -977,13 +977,13 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < hash_len + 1){
+                if(leftover.len <= hash_len){
                     // we don't have the whole line
                     return e;
                 }
                 // otherwise read the hash of the key
                 dstr_t hash;
-                hash = dstr_sub(&leftover, 0, hash_len);
+                hash = dstr_sub2(leftover, 0, hash_len);
                 // verify that after the hash we have a colon
                 if(leftover.data[hash_len] != ':'){
                     ORIG(&e, E_PARAM, "failed to parse R line");
@@ -1008,13 +1008,13 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < key_len + 1){
+                if(leftover.len <= key_len){
                     // we don't have the whole line
                     return e;
                 }
                 // otherwise read the encrypted key
                 dstr_t key;
-                key = dstr_sub(&leftover, 0, key_len);
+                key = dstr_sub2(leftover, 0, key_len);
                 // verify that after the key we have a new line
                 if(leftover.data[key_len] != '\n'){
                     ORIG(&e, E_PARAM, "failed to parse R line");
@@ -1053,13 +1053,13 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < iv_len + 1){
+                if(leftover.len <= iv_len){
                     // we don't have the whole line
                     return e;
                 }
                 // otherwise read the iv
                 dstr_t iv;
-                iv = dstr_sub(&leftover, 0, iv_len);
+                iv = dstr_sub2(leftover, 0, iv_len);
                 // verify that after the iv we have a newline
                 if(leftover.data[iv_len] != '\n'){
                     ORIG(&e, E_PARAM, "failed to parse IV line");
-- 
2.43.0


From 8228d22f870c4a768f4384da7a131a060fc3217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 045/112] fix: empty messages, and some whole messages given at
 once, could not be decrypted

---
 libcrypto/crypto.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index acbf3a3..0a0ac23 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -912,14 +912,19 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                               DSTR_LIT("R:"),
                               DSTR_LIT("IV:"),
                               DSTR_LIT("M:"));
+    size_t shortest_tag_len = 2;
     size_t longest_tag_len = 3;
     dstr_t sub;
     char* pos;
     // as long as there might be another tag, keep trying to parse
-    while(dc->buffer.len >= longest_tag_len){
+    while(dc->buffer.len >= shortest_tag_len){
         // now try to parse a line
         size_t which_tag;
         pos = dstr_find(&dc->buffer, &tags, &which_tag, NULL);
+        if(!pos && dc->buffer.len < longest_tag_len){
+            // we might not have all of the tag yet
+            return e;
+        }
         // must be a valid tag right at the beginning of the line
         if(!pos || pos > dc->buffer.data){
             ORIG(&e, E_PARAM, "failed to parse message");
@@ -1199,7 +1204,7 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
         // are we ready to push encrypted message bytes into the decrypter?
         if(dc->message_started == true){
             // dump *buffer into the EVP_CIPHER
-            if(dc->buffer.len == 0) break;
+            if(dc->buffer.len == 0) continue;
             unsigned char* bin = (unsigned char*)dc->buffer.data;
             size_t inl = dc->buffer.len;
             /* the output written will be as much as (inl + block_size - 1),
-- 
2.43.0


From 7f452f60d7688b6f501510ba1a695f8dc337c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 046/112] fix: overlong metadata in a message was reported as
 an internal error

---
 libcrypto/crypto.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 0a0ac23..8bc7a09 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1183,7 +1183,7 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
             // that should never error
             CATCH(&e2, E_FIXEDSIZE){
                 RETHROW_GO(&e, &e2, E_PARAM, fail);
-            }else PROP(&e, e2);
+            }else PROP_VAR_GO(&e, &e2, fail);
             // that's all for the whole encryption message;
             read = in->len;
             break;
@@ -1194,7 +1194,11 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
         read += sub.len;
 
         // now push *base64 through the decoder
-        NOFAIL_GO(&e, E_FIXEDSIZE, b642bin_stream(&dc->base64, &dc->buffer), fail);
+        e2 = b642bin_stream(&dc->base64, &dc->buffer);
+        CATCH(&e2, E_FIXEDSIZE){
+            // only the message's metadata can be that long
+            RETHROW_GO(&e, &e2, E_PARAM, fail);
+        }else PROP_VAR_GO(&e, &e2, fail);
 
         // are we still parsing metadata?
         if(dc->message_started == false){
-- 
2.43.0


From 73801af5be926eae8accdafc2e73e42e7ffe2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:02 +0000
Subject: [PATCH 047/112] fix: messages with a truncated authentication tag
 were accepted

---
 libcrypto/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 8bc7a09..0f42230 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1252,9 +1252,9 @@ derr_t decrypter_finish(decrypter_t* dc, dstr_t* out){
         ORIG(&e, E_PARAM, "tried to finish decryption before the message began");
     }
 
-    // under no circumstances should the GCM tag be longer than this
-    if(dc->tag.len > INT_MAX){
-        ORIG(&e, E_INTERNAL, "gcm tag is way too long");
+    // a shorter tag would be accepted by openssl, but it could be guessed
+    if(dc->tag.len != CIPHER_TAG_LEN){
+        ORIG_GO(&e, E_PARAM, "gcm tag has the wrong length", cleanup);
     }
     int taglen = (int)dc->tag.len;
     // set the GCM authentication tag
-- 
2.43.0


From f673655ce482cb60f640bbd80bdade97944e4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:37 +0000
Subject: [PATCH 048/112] fix: unencrypted messages with a differently written
 Subject were not marked

---
 libcitm/keydir.c | 101 ++++++++++++++++++-----------------------------
 1 file changed, 39 insertions(+), 62 deletions(-)

diff --git a/libcitm/keydir.c b/libcitm/keydir.c
index 0231cfa..b27f504 100644
--- a/libcitm/keydir.c
+++ b/libcitm/keydir.c
@@ -382,73 +382,50 @@ static derr_t mangle_unencrypted(
     // subject line if none was provided:
     DSTR_STATIC(subj_entire, "Subject: NOT ENCRYPTED: (no subject)");
 
-    // patterns for either either the subject line or end-of-headers
-    LIST_PRESET(
-        dstr_t,
-        subj,
-        DSTR_LIT("\nSubject:"),
-        DSTR_LIT("\r\n\r\n"),
-        DSTR_LIT("\n\n")
-    );
-
-    // search for the patterns
-    size_t which;
-    size_t partial;
-    char *pos;
-    bool beginswith = false;
-    if(dstr_beginswith(msg, &DSTR_LIT("Subject:"))){
-        // special case; handle a Subject on the first line
-        pos = msg->data;
-        which = 0;
-        beginswith = true;
-    }else{
-        pos = dstr_find(msg, &subj, &which, &partial);
-        if(!pos){
-            /* if we didn't find the end of headers, the message is fucked;
-               just leave it alone */
-            PROP(&e, dstr_write_path(path, msg) );
-            if(len) *len = msg->len;
-            return e;
-        }
+    // look at each line for either the subject line or the end of the headers
+    bool subj = false;
+    bool hdrs_end = false;
+    size_t pos = 0;
+    dstr_t lb = {0};
+    while(pos < msg->len){
+        dstr_t rest = dstr_sub2(*msg, pos, SIZE_MAX);
+        // header names are case-insensitive
+        if((subj = dstr_ibeginswith2(rest, DSTR_LIT("Subject:")))) break;
+        // an empty line ends the headers
+        lb = DSTR_LIT("\r\n");
+        if((hdrs_end = dstr_beginswith2(rest, lb))) break;
+        lb = DSTR_LIT("\n");
+        if((hdrs_end = dstr_beginswith2(rest, lb))) break;
+        char *nl = memchr(rest.data, '\n', rest.len);
+        if(!nl) break;
+        pos = (uintptr_t)(nl - msg->data) + 1;
+    }
+    if(!subj && !hdrs_end){
+        /* if we didn't find the end of headers, the message is fucked;
+           just leave it alone */
+        PROP(&e, dstr_write_path(path, msg) );
+        if(len) *len = msg->len;
+        return e;
     }
 
     dstr_t copy;
-    PROP(&e, dstr_new(&copy, msg->len + subj_entire.len) );
-
-    // if we found the end-of-headers but not the subject, insert fake subject
-    if(which == 1 || which == 2){
-        // if we didn't find a subject, insert one
-        size_t headers_end = (uintptr_t)(pos - msg->data);
-        // write to the end of headers
-        dstr_t pre = dstr_sub2(*msg, 0, headers_end);
-        PROP_GO(&e, dstr_append(&copy, &pre), cu);
-        // get the native len break
-        dstr_t nlb = dstr_sub2(
-            subj.data[which], 0, subj.data[which].len / 2
-        );
-        PROP_GO(&e, dstr_append(&copy, &nlb), cu);
-        // write the missing subject line
-        PROP_GO(&e, dstr_append(&copy, &subj_entire), cu);
-        // write the rest of the msg
-        dstr_t post = dstr_sub2(*msg, headers_end, msg->len);
-        PROP_GO(&e, dstr_append(&copy, &post), cu);
-    }
-    // if we found the subject line, mangle it
-    else if(which == 0){
-        size_t subj_end = (uintptr_t)(pos - msg->data) + subj.data[which].len;
-        if(beginswith){
-            // special case: account for the '\n' not present in the pattern
-            subj_end -= 1;
-        }
-        // write to the end of "Subject:"
-        dstr_t pre = dstr_sub2(*msg, 0, subj_end);
-        PROP_GO(&e, dstr_append(&copy, &pre), cu);
-        // write the warning
+    PROP(&e, dstr_new(&copy, msg->len + subj_entire.len + lb.len) );
+
+    // write the message up to where we will insert something
+    if(subj) pos += DSTR_LIT("Subject:").len;
+    dstr_t pre = dstr_sub2(*msg, 0, pos);
+    PROP_GO(&e, dstr_append(&copy, &pre), cu);
+    if(subj){
+        // mangle the subject line
         PROP_GO(&e, dstr_append(&copy, &DSTR_LIT(" NOT ENCRYPTED:")), cu);
-        // write the rest of the message
-        dstr_t post = dstr_sub2(*msg, subj_end, msg->len);
-        PROP_GO(&e, dstr_append(&copy, &post), cu);
+    }else{
+        // write the missing subject line, with the native line break
+        PROP_GO(&e, dstr_append(&copy, &subj_entire), cu);
+        PROP_GO(&e, dstr_append(&copy, &lb), cu);
     }
+    // write the rest of the msg
+    dstr_t post = dstr_sub2(*msg, pos, SIZE_MAX);
+    PROP_GO(&e, dstr_append(&copy, &post), cu);
 
     PROP_GO(&e, dstr_write_path(path, &copy), cu);
 
-- 
2.43.0


From 818a69ab7bb613a25bef7c9033b8a8c55f4703c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:37 +0000
Subject: [PATCH 049/112] fix: a key announced twice stayed in use after it was
 deleted

---
 libcitm/keydir.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libcitm/keydir.c b/libcitm/keydir.c
index b27f504..0be630a 100644
--- a/libcitm/keydir.c
+++ b/libcitm/keydir.c
@@ -222,6 +222,14 @@ static derr_t kd_add_key(keydir_i *iface, const dstr_t pem){
     }
     PROP_GO(&e, fpr_watcher_add_fpr(&kd->fpr_watcher, fpr), fail);
 
+    // the server may tell us of a key more than once
+    keypair_t *have;
+    LINK_FOR_EACH(have, &kd->all_keys, keypair_t, link){
+        if(!dstr_eq(*have->fingerprint, fpr)) continue;
+        keypair_free(&kp);
+        return e;
+    }
+
     PROP_GO(&e, _write_key(kd, pem, fpr), fail);
 
     keypair_t *cpy = NULL;
-- 
2.43.0


From 278e9fdda4c3b6da3db63771d736c775039b3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:37 +0000
Subject: [PATCH 050/112] fix: the device's private key was deleted when it
 could not be read for a moment

---
 libcitm/keydir.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libcitm/keydir.c b/libcitm/keydir.c
index 0be630a..ffb314a 100644
--- a/libcitm/keydir.c
+++ b/libcitm/keydir.c
@@ -546,15 +546,18 @@ static derr_t _load_or_gen_mykey(
     PROP(&e, exists_path(&mykey_path, &have_key) );
 
     if(have_key){
-        IF_PROP(&e, keypair_load_private_path(out, &mykey_path) ){
-            // we must have hit an error reading the key
-            TRACE(&e, "failed to load mykey...\n");
-            DUMP(e);
-            DROP_VAR(&e);
+        derr_t e2 = keypair_load_private_path(out, &mykey_path);
+        CATCH_EX(&e2, is_decrypt_err){
+            // the contents of the file are not a key
+            TRACE(&e2, "failed to load mykey...\n");
+            DUMP(e2);
+            DROP_VAR(&e2);
             LOG_ERROR("Failed to load mykey, generating a new one.\n");
             // delete the broken key
             PROP(&e, rm_rf_path(&mykey_path) );
         }else{
+            // if we just failed to read the file, we must not replace it
+            PROP_VAR(&e, &e2);
             // key was loaded successfully
             return e;
         }
-- 
2.43.0


From cf1ec7fdee824eeff365b9651ba5424065d36d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:37 +0000
Subject: [PATCH 051/112] fix: users were warned of their own device's new key

---
 libcitm/keydir.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libcitm/keydir.c b/libcitm/keydir.c
index ffb314a..fd052fa 100644
--- a/libcitm/keydir.c
+++ b/libcitm/keydir.c
@@ -650,6 +650,11 @@ derr_t keydir_new(
     // no need for keypair_cpy; kd->mykey itself can be in in kd->all_keys
     link_list_append(&kd->all_keys, &kd->mykey->link);
 
+    // our own key is never news to the user
+    PROP_GO(&e,
+        fpr_watcher_add_fpr(&kd->fpr_watcher, *kd->mykey->fingerprint),
+    fail);
+
     // populate peers and all_keys
     PROP_GO(&e, for_each_file_in_dir(&kd->key_path, add_peer_key, kd), fail);
 
-- 
2.43.0


From 56ce02c865c3fdd378ac1414516e0150192a3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:37 +0000
Subject: [PATCH 052/112] fix: a failure to remember that a mailbox was synced
 was ignored

---
 libcitm/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index afbe97e..a9f40ad 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -384,7 +384,7 @@ static derr_t advance_select(
         // did we sync a mailbox successfully?
         if(success){
             const dstr_t *mailbox_name = ie_mailbox_name(sc->selected_mailbox);
-            sc->kd->mailbox_synced(sc->kd, *mailbox_name);
+            PROP(&e, sc->kd->mailbox_synced(sc->kd, *mailbox_name) );
         }
     }
 
-- 
2.43.0


From 631edea45c3f443fe438a1c97073884fba325849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:54 +0000
Subject: [PATCH 053/112] fix: SEARCH for an empty string never ended

---
 libdstr/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index 2969619..30a9bdd 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -475,7 +475,7 @@ static size_t do_dstr_count2(
             count++;
             // no need to search anymore until end of current pattern
             // (compensating for the fact that the loop adds 1 to i)
-            i += pattern.len - 1;
+            if(pattern.len) i += pattern.len - 1;
         }
     }
     return count;
-- 
2.43.0


From 59121debc74516834cac0ce0bac36a85b3bb7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:16 +0000
Subject: [PATCH 054/112] fix: a SEARCH with very many keys overflowed the
 stack

---
 libimap/expression.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libimap/expression.c b/libimap/expression.c
index 6d76b6f..6ff94e1 100644
--- a/libimap/expression.c
+++ b/libimap/expression.c
@@ -1088,6 +1088,15 @@ fail:
 
 void ie_search_key_free(ie_search_key_t *s){
     if(!s) return;
+    /* a series of keys is a chain of ANDs, which is as long as the command and
+       therefore not a matter for recursion */
+    while(s->type == IE_SEARCH_AND){
+        ie_search_key_t *a = s->param.pair.a;
+        ie_search_key_free(s->param.pair.b);
+        free(s);
+        s = a;
+        if(!s) return;
+    }
     switch(s->type){
         // no parameter
         case IE_SEARCH_ALL:
@@ -1146,10 +1155,10 @@ void ie_search_key_free(ie_search_key_t *s){
             break;
         // uses param.pair
         case IE_SEARCH_OR:
-        case IE_SEARCH_AND:
             ie_search_key_free(s->param.pair.a);
             ie_search_key_free(s->param.pair.b);
             break;
+        case IE_SEARCH_AND: break; // handled already
         // uses param.modseq
         case IE_SEARCH_MODSEQ:
             ie_search_modseq_ext_free(s->param.modseq.ext);
-- 
2.43.0


From d607c99ce966d9c74c4f1b086c721d58d3dd79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 055/112] fix: limit stream hung or lost reads when its base
 failed mid-read

The final callback of the base did not count as the end of the read in
flight, so the limit stream waited forever; an early end of the base was
answered to the reader as a normal end of stream; reads queued behind the
last one were never answered.
---
 libhttp/limit.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/libhttp/limit.c b/libhttp/limit.c
index bd21be1..d0e0e37 100644
--- a/libhttp/limit.c
+++ b/libhttp/limit.c
@@ -19,21 +19,28 @@ static bool closing(limit_rstream_t *l){
     return failing(l) || l->iface.eof;
 }
 
+// undo the modifications we made before submitting this read
+static void restore_read(limit_rstream_t *l, rstream_read_t *read){
+    read->buf.size = l->original_read_buf_size;
+    read->cb = l->original_read_cb;
+}
+
 static void read_cb(rstream_i *base, rstream_read_t *read, dstr_t buf){
     limit_rstream_t *l = base->wrapper_data;
     l->reading = false;
     l->nread += buf.len;
 
+    read->buf = buf;
+    restore_read(l, read);
+
     if(buf.len == 0){
-        // early EOF is an error
-        TRACE_ORIG(&l->e, E_RESPONSE, "unexpected EOF");
+        // early EOF is an error; leave this read for our await_cb
+        link_list_prepend(&l->reads, &read->link);
+        if(!failing(l)) TRACE_ORIG(&l->e, E_RESPONSE, "unexpected EOF");
+    }else{
+        read->cb(&l->iface, read, read->buf);
     }
 
-    buf.size = l->original_read_buf_size;
-    read->cb = l->original_read_cb;
-    read->buf = buf;
-    read->cb(&l->iface, read, buf);
-
     advance_state(l);
 }
 
@@ -46,7 +53,14 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     // capture any unfinished reads
     link_t ours = {0};
     rstream_reads_filter(reads, &ours, read_cb);
-    link_list_prepend_list(&l->reads, &ours);
+    link_t *link;
+    // there is at most one, since we have one read in flight at a time
+    if((link = link_list_pop_first(&ours))){
+        rstream_read_t *read = CONTAINER_OF(link, rstream_read_t, link);
+        restore_read(l, read);
+        link_list_prepend(&l->reads, &read->link);
+        l->reading = false;
+    }
     if(l->original_await_cb){
         l->original_await_cb(l->base, E_OK, reads);
     }
@@ -66,6 +80,12 @@ static void advance_state(limit_rstream_t *l){
             l->iface.eof = true;
             read->buf.len = 0;
             read->cb(&l->iface, read, read->buf);
+            // respond to any other reads
+            while((link = link_list_pop_first(&l->reads))){
+                read = CONTAINER_OF(link, rstream_read_t, link);
+                read->buf.len = 0;
+                read->cb(&l->iface, read, read->buf);
+            }
             // try to detach from base
             l->detached = l->try_detach(l);
             goto closing;
@@ -125,6 +145,7 @@ static bool limit_read(
 
 static void limit_cancel(rstream_i *iface){
     limit_rstream_t *l = CONTAINER_OF(iface, limit_rstream_t, iface);
+    if(l->iface.awaited) return;
     l->iface.canceled = true;
     if(!l->detached){
         l->base->cancel(l->base);
-- 
2.43.0


From b3a91a84ce37690f7bef1a6dc2b42850e6d476c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 056/112] fix: chunked stream hung when its base failed
 mid-read, and canceled a detached base

---
 libhttp/chunked.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libhttp/chunked.c b/libhttp/chunked.c
index 3f1eb14..bad65ad 100644
--- a/libhttp/chunked.c
+++ b/libhttp/chunked.c
@@ -25,9 +25,11 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     if(c->base_canceled) DROP_CANCELED_VAR(&e);
     UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&c->e, &e);
+    // our own read may be unfinished
+    link_t ours = {0};
+    rstream_reads_filter(reads, &ours, read_cb);
+    if(!link_list_isempty(&ours)) c->reading = false;
     if(c->original_await_cb){
-        link_t ours = {0};
-        rstream_reads_filter(reads, &ours, read_cb);
         c->original_await_cb(c->base, E_OK, reads);
     }
     advance_state(c);
@@ -322,7 +324,7 @@ static void advance_state(chunked_rstream_t *c){
 closing:
     if(c->iface.awaited) return;
 
-    if(!c->base->awaited && !c->base->canceled && failing(c)){
+    if(!c->base->awaited && !c->base->canceled && !c->detached && failing(c)){
         c->base->cancel(c->base);
         c->base_canceled = true;
     }
@@ -365,9 +367,13 @@ static bool chunked_read(
 
 static void chunked_cancel(rstream_i *iface){
     chunked_rstream_t *c = CONTAINER_OF(iface, chunked_rstream_t, iface);
+    if(c->iface.awaited) return;
     c->iface.canceled = true;
-    c->base->cancel(c->base);
-    c->base_canceled = true;
+    // after detaching the base is not ours anymore
+    if(!c->detached){
+        c->base->cancel(c->base);
+        c->base_canceled = true;
+    }
 }
 
 static rstream_await_cb chunked_await(
-- 
2.43.0


From 399bfa02459b2a5303368704fa2b70e912a5840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 057/112] fix: borrow stream hung or lost a read when its base
 failed mid-read

---
 libhttp/borrow.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libhttp/borrow.c b/libhttp/borrow.c
index 159ee38..d20bce4 100644
--- a/libhttp/borrow.c
+++ b/libhttp/borrow.c
@@ -40,6 +40,16 @@ static void read_cb(
     b->rread->buf = buf;
     b->rread->cb(&b->iface, b->rread, buf);
 
+    if(b->iface.eof){
+        // respond to any other reads
+        link_t *link;
+        while((link = link_list_pop_first(&b->reads))){
+            rstream_read_t *rread = CONTAINER_OF(link, rstream_read_t, link);
+            rread->buf.len = 0;
+            rread->cb(&b->iface, rread, rread->buf);
+        }
+    }
+
     advance_state(b);
 }
 
@@ -49,9 +59,14 @@ static void await_cb(stream_i *base, derr_t e, link_t *reads, link_t *writes){
     if(b->base_canceled) DROP_CANCELED_VAR(&e);
     UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&b->e, &e);
+    // our own read may be unfinished
+    link_t ours = {0};
+    stream_reads_filter(reads, &ours, read_cb);
+    if(!link_list_isempty(&ours)){
+        link_list_prepend(&b->reads, &b->rread->link);
+        b->reading = false;
+    }
     if(b->original_await_cb){
-        link_t ours = {0};
-        stream_reads_filter(reads, &ours, read_cb);
         b->original_await_cb(b->base, E_OK, reads, writes);
     }
     advance_state(b);
@@ -111,6 +126,7 @@ static bool borrow_read(
 
 static void borrow_cancel(rstream_i *iface){
     borrow_rstream_t *b = CONTAINER_OF(iface, borrow_rstream_t, iface);
+    if(b->iface.awaited) return;
     b->iface.canceled = true;
     b->base->cancel(b->base);
     b->base_canceled = true;
-- 
2.43.0


From 197d6bd2445ce9329ec939f528d3868c325e3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 058/112] fix: concat stream lost a returned read and never
 noticed a late await

---
 libduv/concat.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libduv/concat.c b/libduv/concat.c
index 4003fa8..17d7d99 100644
--- a/libduv/concat.c
+++ b/libduv/concat.c
@@ -22,8 +22,13 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     rstream_reads_filter(reads, &ours, read_cb);
     /* we only keep one read in flight, so if it was on this stream, we are
        no longer reading */
-    if(!link_list_isempty(&ours)) c->reading = false;
-    link_list_prepend_list(&c->reads, &ours);
+    link_t *link;
+    if((link = link_list_pop_first(&ours))){
+        rstream_read_t *read = CONTAINER_OF(link, rstream_read_t, link);
+        read->cb = c->original_read_cb;
+        link_list_prepend(&c->reads, &read->link);
+        c->reading = false;
+    }
     // call its original await cb with any reamining unfinished reads
     if(c->base_await_cbs[w->idx]){
         c->base_await_cbs[w->idx](base, E_OK, reads);
@@ -131,7 +136,7 @@ closing:
     // await the in-flight read
     if(c->reading) return;
     if(c->returned){
-        link_list_prepend_list(&c->reads, &c->returned->link);
+        link_list_prepend(&c->reads, &c->returned->link);
         c->returned = NULL;
     }
 
@@ -185,8 +190,10 @@ static rstream_await_cb concat_await(
 ){
     rstream_concat_t *c = CONTAINER_OF(iface, rstream_concat_t, iface);
 
+    if(c->iface.awaited) return NULL;
     rstream_await_cb out = c->await_cb;
     c->await_cb = await_cb;
+    schedule(c);
     return out;
 }
 
-- 
2.43.0


From 5954ef7293c2cd05bf5dc2e036473703f788f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 059/112] fix: passthru stream did not notice a failed write
 until its next event

---
 libduv/passthru.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 278350e..c892b37 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -189,12 +189,12 @@ static void write_cb(uv_write_t *uvw, int status){
     if(!failing(p)){
         // successful write, call user callback
         req->cb(&p->iface, req);
-        // that user cb may result in new writes
-        advance_state(p);
     }else{
         // failed write, put it in the failed list
         link_list_append(&p->writes.failed, &req->link);
     }
+    // that user cb may result in new writes, and a failed write closes us
+    advance_state(p);
 }
 
 static void _shutdown_cb(uv_shutdown_t *shutdown_req, int status){
-- 
2.43.0


From 4d79ea5fc70f35119031790230b5d189a07eef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 060/112] fix: passthru stream answered the wrong write after
 queueing writes

---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index c892b37..7c250bd 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -217,6 +217,7 @@ static void advance_state(duv_passthru_t *p){
         link = link_list_pop_first(&p->pool);
         passthru_write_mem_t *mem;
         mem = CONTAINER_OF(link, passthru_write_mem_t, link);
+        mem->req = req;
         dstr_t *dbufs = get_bufs_ptr(req);
         // get uv_buf_t array from provided dstr_t array
         uv_buf_t *bufs;
-- 
2.43.0


From 402bcc99e5e43254c404e2ebcce49490e70e259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 061/112] fix: passthru stream shut down twice, failing every
 orderly shutdown

---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 7c250bd..d66bfbb 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -419,6 +419,7 @@ static void passthru_shutdown(stream_i *iface, stream_shutdown_cb shutdown_cb){
 
     // if possible, do the shutdown now to make the passthru transparent
     if(!p->writes.inflight){
+        p->shutdown.requested = true;
         int ret = uv_shutdown(&p->shutdown.req, p->uvstream, _shutdown_cb);
         if(ret < 0){
             TRACE_ORIG_UV(&p->e, ret);
-- 
2.43.0


From 625eb9d934b42ac1fb96ab9c1f04a8fe98e7b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:17 +0000
Subject: [PATCH 062/112] fix: tls stream handed its own unfinished write to
 the base's owner

---
 libduvtls/tls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index f24f9a6..eb65d60 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -108,7 +108,7 @@ static void await_cb(stream_i *base, derr_t e, link_t *reads, link_t *writes){
         // filter out our own read and write
         link_t ignore = {0};
         stream_reads_filter(reads, &ignore, read_cb);
-        stream_writes_filter(reads, &ignore, write_cb);
+        stream_writes_filter(writes, &ignore, write_cb);
         t->original_base_await_cb(base, E_OK, reads, writes);
     }
     advance_state(t);
-- 
2.43.0


From 92388c5ccc931a01140c690655dceb3ef46189b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:17 +0000
Subject: [PATCH 063/112] fix: tls stream looped forever on a write with an
 empty buffer

---
 libduvtls/tls.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index eb65d60..c66f389 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -344,13 +344,10 @@ static bool _advance_ssl_write(duv_tls_t *t){
             }
             // one successful SSL_write, but maybe not a whole write req
             t->nwritten += nwritten;
-            if(t->nwritten >= buf.len){
-                // done encrypting this buffer
-                t->nwritten = 0;
-                t->nbufswritten++;
-                break;
-            }
         }
+        // done encrypting this buffer, which might have been empty
+        t->nwritten = 0;
+        t->nbufswritten++;
     }
 
     return true;
-- 
2.43.0


From 2c29e78fac20f0a6eccbad52ba99f658ee79886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:37 +0000
Subject: [PATCH 064/112] fix: http reader lost the partial token at the end of
 a read

---
 libweb/http.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libweb/http.c b/libweb/http.c
index f8c060a..c2ec24f 100644
--- a/libweb/http.c
+++ b/libweb/http.c
@@ -72,6 +72,9 @@ derr_t http_read(http_reader_t *r, http_pair_t *pair, int *state_out){
                 r->s = web_scanner(r->buf);
                 // any tokens we've built up are now invalid
                 web_parser_reset(&r->p);
+            }else{
+                // scan the incomplete token again when there is more of it
+                r->s.used = scanned.loc.start;
             }
             return e;
         }
-- 
2.43.0


From 6f1888359a0aac78c81ef16a55cc6bd97b90bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:37 +0000
Subject: [PATCH 065/112] fix: http client kept an idle connection forever
 after a canceled request

---
 libhttp/duv_http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 5d177a5..664ec58 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -50,11 +50,11 @@ static void http_advance_state(duv_http_t *h){
     if(!(link = link_list_pop_first(&h->pending))) return;
     duv_http_req_t *req = CONTAINER_OF(link, duv_http_req_t, link);
 
+    // cancel any idle timer (req_start() may finish the req and restart it)
+    duv_timer_must_stop(&h->timer);
     // start the request
     h->req = req;
     req_start(req, &h->mem);
-    // cancel any idle timer
-    duv_timer_must_stop(&h->timer);
 
     return;
 
-- 
2.43.0


From cb876301ce4cb8b60d40ca509574d08f9042ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:59 +0000
Subject: [PATCH 066/112] fix: http request which was over canceled the
 connection of the next one

---
 libhttp/duv_http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 664ec58..c00cf6f 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -836,8 +836,8 @@ static void req_advance_state(duv_http_req_t *req){
     return;
 
 failing:
-    // were we even started?
-    if(m){
+    // were we even started?  And is the connection still ours?
+    if(m && !req->completed){
         /* cleanup the connection after any failure; we don't know what state
            the connection is in */
         if(m->connector.active) duv_connect_cancel(&m->connector);
-- 
2.43.0


From f244141f3f5b3bdc635732715f49b8fd706ee739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:37 +0000
Subject: [PATCH 067/112] fix: http request canceled while reading its body
 aborted the program

---
 libhttp/duv_http.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index c00cf6f..9eb47cb 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -841,6 +841,8 @@ failing:
         /* cleanup the connection after any failure; we don't know what state
            the connection is in */
         if(m->connector.active) duv_connect_cancel(&m->connector);
+        // the base must not read from a stream which was canceled behind it
+        if(req->base) req->base->cancel(req->base);
         if(m->stream) m->stream->cancel(m->stream);
         // wait for everything to be cleaned up
         if(req->reading) return;
-- 
2.43.0


From e0c29b4ec06ca0dc99bed30070d1fef2bdc6854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:42 +0000
Subject: [PATCH 068/112] fix: http client wrote the rest of a request to a
 connection which was gone

---
 libhttp/duv_http.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 9eb47cb..564c5d2 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -765,6 +765,9 @@ static void req_advance_state(duv_http_req_t *req){
         req->established = true;
     }
 
+    // after an early response, there may be no wire left to write to
+    if(req->base && (!m->stream || m->stream->canceled)) req->written = true;
+
     // write the request
     if(!req->written){
         req_advance_write(req, &req->written);
-- 
2.43.0


From 78ae3609519d78435790ccc634dc6aeb823d7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:03 +0000
Subject: [PATCH 069/112] fix: http request awaited after the next one began
 never finished

---
 libhttp/duv_http.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 564c5d2..3efeaf2 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -718,6 +718,9 @@ static void req_advance_state(duv_http_req_t *req){
 
     if(req_failing(req)) goto failing;
 
+    // the connection and the base may belong to the next req already
+    if(req->completed) goto completed;
+
     // wait to be started
     if(m == NULL) return;
 
@@ -828,6 +831,7 @@ static void req_advance_state(duv_http_req_t *req){
         http_completed_req(req->http, req);
     }
 
+completed:
     // wait to be awaited
     if(!req->await_cb) return;
 
@@ -855,7 +859,7 @@ failing:
     }
 
     // await our base, if we had one
-    if(req->base && !req->base->awaited) return;
+    if(req->base && !req->base->awaited && !req->completed) return;
 
     // the duv_http_t is done with us now
     if(!req->completed){
-- 
2.43.0


From 05fea4cac59c1a94eea6e65813ada1c5c7501838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 070/112] fix: atoms and text with = @ ; or ? were refused

These characters are tokens of their own, without a fallback to the atom
characters that they are.  A password like a=b, a tag or mailbox with one of
them, or a server's text with an = next to a number, was a syntax error.
---
 libimap/imap.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 249d480..0bb2e17 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -528,6 +528,10 @@ CREATED;
     LANGLE
     RANGLE
     DASH
+    ARROBA
+    SEMI
+    QUESTION
+    EQ
 ;
 
 ### TYPES
@@ -593,7 +597,7 @@ atom:dstr =
     1*( atom_char { $$ = ie_dstr_append(E, $$, dtoken, KEEP_RAW); } )
 ;
 
-b64_char = TAGRAW | NUM | EQ;
+b64_char = TAGRAW | NUM;
 b640:dstr0 =
     1*(
         b64_char
-- 
2.43.0


From c64e3e2262af5702a2fdccddf5df1bb3d7622dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 071/112] fix: AUTHENTICATE refused base64 with a +

---
 libimap/imap.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 0bb2e17..6684180 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -597,7 +597,7 @@ atom:dstr =
     1*( atom_char { $$ = ie_dstr_append(E, $$, dtoken, KEEP_RAW); } )
 ;
 
-b64_char = TAGRAW | NUM;
+b64_char = TAGRAW | PLUS | NUM;
 b640:dstr0 =
     1*(
         b64_char
-- 
2.43.0


From 737250821f11df4aa3bfe7c68a972da36b60201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 072/112] fix: ] was refused in unquoted LIST patterns

RFC 3501: list-char = ATOM-CHAR / list-wildcards / resp-specials
---
 libimap/imap.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 6684180..ffa6ea0 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1408,7 +1408,7 @@ list_cmd(tag:dstr, out:imap_cmd) =
     }}
 ;
 
-list_char = atom_char | PERCENT | ASTERISK;
+list_char = astring_char | PERCENT | ASTERISK;
 
 list_atom:dstr =
     1*( list_char { $$ = ie_dstr_append(E, $$, dtoken, KEEP_RAW); } )
-- 
2.43.0


From ecac501137c97435bfa6329676c70550747c89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 073/112] fix: a number beyond 64 bits cut into two reads
 wrapped around

---
 libimap/imap.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimap/imap.in b/libimap/imap.in
index ffa6ea0..543e8ad 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -878,6 +878,7 @@ modseqnum:modseqnum =
                 out *= 10;
             }
             if($$ > limit) THROW_SYNTAX_ERROR("integer overflow");
+            if($n > UINT64_MAX - out) THROW_SYNTAX_ERROR("integer overflow");
             $$ = out + $n;
         }}
     )
-- 
2.43.0


From ce7c7962133245cd279af1978c84051d86f58ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 074/112] fix: control characters 0x0f to 0x1e in a server's
 text ended the session

---
 libimap/scan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/scan.c b/libimap/scan.c
index 832d03e..0c95448 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -254,7 +254,7 @@ static imap_scanned_t do_scan(
         nullbyte        = "\x00";
         num             = [0-9]+;
         raw             = [^(){%*"\x00-\x1F\x7F[\]\\ }+\-.:,<>0-9]+;
-        non_crlf_ctl    = [\x01-\x09\x0B-\x0C\x0E\x1f\x7f];
+        non_crlf_ctl    = [\x01-\x09\x0B-\x0C\x0E-\x1f\x7f];
         qchar           = [^"\x00\r\n\\] | "\\\\" | "\\\"";
         qstring         = ( [^"\x00\r\n\\] | ("\\"[\\"]) )+;
     */
-- 
2.43.0


From 215334ddd19a224690ebc8af78a7a025ad16f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 075/112] fix: the permanent flag \* was written as \Asterisk

---
 libimap/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index 6459da4..095b193 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -496,7 +496,7 @@ static derr_t pflags_skip_fill(skip_fill_t *sf, ie_pflags_t *pflags){
     if(pflags->deleted){  LEAD_SP; STATIC_SKIP_FILL("\\Deleted");  }
     if(pflags->seen){     LEAD_SP; STATIC_SKIP_FILL("\\Seen");     }
     if(pflags->draft){    LEAD_SP; STATIC_SKIP_FILL("\\Draft");    }
-    if(pflags->asterisk){ LEAD_SP; STATIC_SKIP_FILL("\\Asterisk"); }
+    if(pflags->asterisk){ LEAD_SP; STATIC_SKIP_FILL("\\*"); }
     for(ie_dstr_t *d = pflags->keywords; d != NULL; d = d->next){
         LEAD_SP;
         PROP(&e, atom_skip_fill(sf, d->dstr) );
-- 
2.43.0


From 40ca9092f7a4e08ab4b84e2249c8a3f73e31448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 076/112] fix: SEARCH commands with SUBJECT, HEADER, CHARSET or
 a date in December were written wrongly

---
 libimap/write.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libimap/write.c b/libimap/write.c
index 095b193..0652550 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -707,11 +707,11 @@ static derr_t select_params_skip_fill(skip_fill_t *sf,
 static derr_t search_date_skip_fill(skip_fill_t *sf, imap_time_t time){
     derr_t e = E_OK;
     bool pass = true;
-    if(time.year < 999 || time.year > 9999){
+    if(time.year < 1000 || time.year > 9999){
         TRACE(&e, "invalid year: %x\n", FI(time.year));
         pass = false;
     }
-    if(time.month < 0 || time.month > 11){
+    if(time.month < 1 || time.month > 12){
         TRACE(&e, "invalid month: %x\n", FI(time.month));
         pass = false;
     }
@@ -767,9 +767,6 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
         case IE_SEARCH_SEEN:
             STATIC_SKIP_FILL("SEEN");
             break;
-        case IE_SEARCH_SUBJECT:
-            STATIC_SKIP_FILL("SUBJECT");
-            break;
         case IE_SEARCH_UNANSWERED:
             STATIC_SKIP_FILL("UNANSWERED");
             break;
@@ -809,6 +806,10 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
             STATIC_SKIP_FILL("KEYWORD ");
             PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
             break;
+        case IE_SEARCH_SUBJECT:
+            STATIC_SKIP_FILL("SUBJECT ");
+            PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
+            break;
         case IE_SEARCH_TEXT:
             STATIC_SKIP_FILL("TEXT ");
             PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
@@ -825,8 +826,8 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
         case IE_SEARCH_HEADER:
             STATIC_SKIP_FILL("HEADER ");
             PROP(&e, astring_skip_fill(sf, p.header.name->dstr) );
-            PROP(&e, astring_skip_fill(sf, p.header.value->dstr) );
             STATIC_SKIP_FILL(" ");
+            PROP(&e, astring_skip_fill(sf, p.header.value->dstr) );
             break;
         // things using param.date
         case IE_SEARCH_BEFORE:
@@ -1200,6 +1201,7 @@ static derr_t do_imap_cmd_write(const imap_cmd_t *cmd, dstr_t *out,
             }
             STATIC_SKIP_FILL("SEARCH ");
             if(arg.search->charset){
+                STATIC_SKIP_FILL("CHARSET ");
                 PROP(&e, astring_skip_fill(sf, arg.search->charset->dstr) );
                 STATIC_SKIP_FILL(" ");
             }
-- 
2.43.0


From d40358391c40501a82b91134e2b73481709c6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:26 +0000
Subject: [PATCH 077/112] fix: ENVELOPE with a reply-to list or an empty string
 was a syntax error

---
 libimap/imap.in | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 543e8ad..0ea01c4 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -691,8 +691,8 @@ literal0_body(out:dstr0) =
 ;
 
 ign_string = ign_qstr | ign_literal;
-ign_qstr = DQUOTE { MODE(QSTRING); } 1*ATOMRAW { MODE(STD); } DQUOTE;
-ign_literal = literal_start 1*LITRAW;
+ign_qstr = DQUOTE { MODE(QSTRING); } *ATOMRAW { MODE(STD); } DQUOTE;
+ign_literal = literal_start *LITRAW;
 
 mailbox:mailbox =
   | astring:m
@@ -2573,7 +2573,7 @@ f_intdate:time = INTERNALDATE SP date_time:d { $$ = $d; };
 
 ign_envelope =
 #   date           subj           from          sender        reply-to
-    ign_nstring SP ign_nstring SP naddr_list SP naddr_list SP ign_nstring SP
+    ign_nstring SP ign_nstring SP naddr_list SP naddr_list SP naddr_list SP
 #   to            cc            bcc           in-reply-to    message-id
     naddr_list SP naddr_list SP naddr_list SP ign_nstring SP ign_nstring
 ;
-- 
2.43.0


From cca85dd37e9281d4ac069dd80f23e75b309de89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:37 +0000
Subject: [PATCH 078/112] fix: copies of commands and responses lost parts of
 them

SEARCH, XKEYADD and DONE arguments, all but the first SELECT or STORE
modifier, and the numbers of UIDNEXT, UIDVALIDITY, UNSEEN and COPYUID codes.
---
 libimap/expression.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/libimap/expression.c b/libimap/expression.c
index 6ff94e1..f6fe4f7 100644
--- a/libimap/expression.c
+++ b/libimap/expression.c
@@ -534,7 +534,10 @@ ie_select_params_t *ie_select_params_copy(derr_t *e,
                 ie_seq_set_copy(e, old->arg.qresync.uid_vals);
             break;
     }
-    return ie_select_params_new(e, old->type, arg);
+    return ie_select_params_add(e,
+        ie_select_params_new(e, old->type, arg),
+        ie_select_params_copy(e, old->next)
+    );
 }
 
 // normal flags, used by APPEND command, STORE command, and FLAGS response.
@@ -1763,7 +1766,7 @@ ie_store_mods_t *ie_store_mods_copy(derr_t *e, const ie_store_mods_t *old){
     CHECK_GO(e, fail);
 
     // recurse
-    mods->next = ie_store_mods_copy(e, mods->next);
+    mods->next = ie_store_mods_copy(e, old->next);
 
     CHECK_GO(e, fail_new);
 
@@ -1845,9 +1848,15 @@ ie_st_code_t *ie_st_code_copy(derr_t *e, const ie_st_code_t *old){
         case IE_ST_CODE_READ_ONLY:  break;
         case IE_ST_CODE_READ_WRITE: break;
         case IE_ST_CODE_TRYCREATE:  break;
-        case IE_ST_CODE_UIDNEXT:    break;
-        case IE_ST_CODE_UIDVLD:     break;
-        case IE_ST_CODE_UNSEEN:     break;
+        case IE_ST_CODE_UIDNEXT:
+            arg.uidnext = old->arg.uidnext;
+            break;
+        case IE_ST_CODE_UIDVLD:
+            arg.uidvld = old->arg.uidvld;
+            break;
+        case IE_ST_CODE_UNSEEN:
+            arg.unseen = old->arg.unseen;
+            break;
         case IE_ST_CODE_PERMFLAGS:
             arg.pflags = ie_pflags_copy(e, old->arg.pflags);
             break;
@@ -1864,6 +1873,7 @@ ie_st_code_t *ie_st_code_copy(derr_t *e, const ie_st_code_t *old){
             arg.appenduid = old->arg.appenduid;
             break;
         case IE_ST_CODE_COPYUID:
+            arg.copyuid.uidvld = old->arg.copyuid.uidvld;
             arg.copyuid.uids_in = ie_seq_set_copy(e, old->arg.copyuid.uids_in);
             arg.copyuid.uids_out =
                 ie_seq_set_copy(e, old->arg.copyuid.uids_out);
@@ -2981,17 +2991,17 @@ static imap_cmd_arg_t imap_cmd_arg_copy(derr_t *e, imap_cmd_type_t type,
         case IMAP_CMD_CHECK:         break;
         case IMAP_CMD_CLOSE:         break;
         case IMAP_CMD_EXPUNGE:       arg.uid_expunge = ie_seq_set_copy(e, old.uid_expunge); break;
-        case IMAP_CMD_SEARCH:        arg.search = ie_search_cmd_copy(e, arg.search); break;
+        case IMAP_CMD_SEARCH:        arg.search = ie_search_cmd_copy(e, old.search); break;
         case IMAP_CMD_FETCH:         arg.fetch = ie_fetch_cmd_copy(e, old.fetch); break;
         case IMAP_CMD_STORE:         arg.store = ie_store_cmd_copy(e, old.store); break;
         case IMAP_CMD_COPY:          arg.copy = ie_copy_cmd_copy(e, old.copy); break;
         case IMAP_CMD_ENABLE:        arg.enable = ie_dstr_copy(e, old.enable); break;
         case IMAP_CMD_UNSELECT:      break;
         case IMAP_CMD_IDLE:          break;
-        case IMAP_CMD_IDLE_DONE:     arg.idle_done = ie_dstr_copy(e, arg.idle_done); break;
-        case IMAP_CMD_XKEYSYNC:      arg.xkeysync = ie_dstr_copy(e, arg.xkeysync); break;
-        case IMAP_CMD_XKEYSYNC_DONE: arg.xkeysync_done = ie_dstr_copy(e, arg.xkeysync_done); break;
-        case IMAP_CMD_XKEYADD:       arg.xkeyadd = ie_dstr_copy(e, arg.xkeyadd); break;
+        case IMAP_CMD_IDLE_DONE:     arg.idle_done = ie_dstr_copy(e, old.idle_done); break;
+        case IMAP_CMD_XKEYSYNC:      arg.xkeysync = ie_dstr_copy(e, old.xkeysync); break;
+        case IMAP_CMD_XKEYSYNC_DONE: arg.xkeysync_done = ie_dstr_copy(e, old.xkeysync_done); break;
+        case IMAP_CMD_XKEYADD:       arg.xkeyadd = ie_dstr_copy(e, old.xkeyadd); break;
     }
     return arg;
 }
-- 
2.43.0


From 6d602263c8084b5b3a2bcd1230eab6e0b74b2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 079/112] fix: an escape cut in two by a packet boundary hung
 the connection or aborted the program

With 13 characters or more of a quoted string before the backslash, the
scanner withheld a full leftovers buffer and lost all further input; with
something invalid after the backslash it hit a LOG_FATAL.
---
 libimap/scan.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libimap/scan.c b/libimap/scan.c
index 0c95448..80ab721 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -128,9 +128,13 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         /* Special case: if after adding to leftovers, we hit an invalid token,
            we expand the size of the invalid token to include all of leftovers.
            This preserves our "leftovers is always fully consumed by the next
-           token" guarantee which is very nice to have. */
-        if(in_leftovers && out.type == IMAP_INVALID_TOKEN){
-            out.token.len = MAX(out.token.len, s->orig_nleftovers);
+           token" guarantee which is very nice to have.  The same applies to a
+           token which ends before all of leftovers is consumed; what follows
+           it in leftovers (a backslash which escapes nothing, or part of a
+           NIL which is not a NIL) turned out to be an invalid token. */
+        if(in_leftovers && !out.more && out.token.len < s->orig_nleftovers){
+            out.type = IMAP_INVALID_TOKEN;
+            out.token.len = s->orig_nleftovers;
         }
     }
 
@@ -490,7 +494,10 @@ done:
     size_t end = (size_t)(cursor - src);
     size_t toklen = end - skip;
     // see "Requirements", above
-    if(limited && type != IMAP_EOL && toklen < MAXKWLEN){
+    /* note that the scannable text may be longer than the token, if it ends
+       with the first half of an escape; text of MAXKWLEN or more must never be
+       withheld since leftovers can't be extended beyond that */
+    if(limited && type != IMAP_EOL && len - skip < MAXKWLEN){
         return (imap_scanned_t){ .more = true };
     }
 
-- 
2.43.0


From b5e454c927a0019e16c3f7d894cfe175b222c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:42 +0000
Subject: [PATCH 080/112] fix: UID EXPUNGE expunged every deleted message

UIDPLUS is not offered to clients and dn_expunge() ignores the set of UIDs, so
the command is refused like those of all other extensions.
---
 libimap/imap.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 0ea01c4..200e39f 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1543,7 +1543,7 @@ expunge_cmd(tag:dstr, out:imap_cmd) =
 ;
 
 uid_expunge_cmd(tag:dstr, out:imap_cmd) =
-    EXPUNGE SP uid_set:u
+    EXPUNGE { REQUIRE_EXTENSION_ON(EXT_UIDPLUS); } SP uid_set:u
     {{  $out = imap_cmd_new(E,
             STEAL(ie_dstr_t, &$tag),
             IMAP_CMD_EXPUNGE,
-- 
2.43.0


From 2cc2918bea665812fe18e10bc51e60eacae91273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:42 +0000
Subject: [PATCH 081/112] fix: mailboxes like INBOX.x or INBOX-1 were a syntax
 error

INBOX is a token of its own, when it is followed by a character which is one
too, and the grammar did not allow more of the name after it.
---
 libimap/imap.in | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 200e39f..839c180 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -695,10 +695,8 @@ ign_qstr = DQUOTE { MODE(QSTRING); } *ATOMRAW { MODE(STD); } DQUOTE;
 ign_literal = literal_start *LITRAW;
 
 mailbox:mailbox =
-  | astring:m
     # if the astring is InBoX or starts with inBOX/ expression.c will fix it
-    { $$ = ie_mailbox_new_noninbox(E, STEAL(ie_dstr_t, &$m)); }
-  | INBOX:m    { $$ = ie_mailbox_new_inbox(E); }
+    astring:m { $$ = ie_mailbox_new_noninbox(E, STEAL(ie_dstr_t, &$m)); }
 ;
 
 flags_0:flags = [ flags_1:f { $$ = STEAL(ie_flags_t, &$f); } ];
-- 
2.43.0


From 3596d76c8a441506ad07e60f0a6980be02109bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:01 +0000
Subject: [PATCH 082/112] fix: FETCH MODSEQ ended the session

The grammar let it pass without CONDSTORE, unlike all other CONDSTORE syntax,
and fetching it is not implemented.
---
 libimap/imap.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 839c180..50bc01f 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1792,7 +1792,9 @@ fetch_attr(out:fetch_attrs) =
   | BODYSTRUCTURE
     { $out = ie_fetch_attrs_add_simple(E, $out, IE_FETCH_ATTR_BODYSTRUCT); }
   | MODSEQ
-    { $out = ie_fetch_attrs_add_simple(E, $out, IE_FETCH_ATTR_MODSEQ); }
+    {{  MUST_TRIGGER_EXTENSION(EXT_CONDSTORE);
+        $out = ie_fetch_attrs_add_simple(E, $out, IE_FETCH_ATTR_MODSEQ);
+    }}
   | RFC822
     (
       | %empty
-- 
2.43.0


From 41bba8c77423c6af28a5335f8a84ab7d0f8b35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:24 +0000
Subject: [PATCH 083/112] fix: atoms which begin like a keyword were misread
 when cut in two by a packet boundary

"READ-X" cut after the dash aborted the program, and a keyword of 14 bytes
was recognized without looking at the byte after it.
---
 libimap/read.h |  6 +++--
 libimap/scan.c | 69 ++++++++++++++++++++++----------------------------
 2 files changed, 34 insertions(+), 41 deletions(-)

diff --git a/libimap/read.h b/libimap/read.h
index ec6bd81..215fdbd 100644
--- a/libimap/read.h
+++ b/libimap/read.h
@@ -8,7 +8,8 @@ typedef enum {
 } scan_mode_t;
 
 /* the maximum length of any keyword; tokens shorter than this, other than EOL,
-   will not be emitted when they appear at the end of the scanner buffer */
+   and keywords of this length, will not be emitted when they appear at the end
+   of the scanner buffer */
 #define MAXKWLEN 14
 
 // scanner must be initialized with zeros
@@ -17,7 +18,8 @@ typedef struct {
     char *input;
     size_t ninput;
     // our local copy of the leftover of the old input
-    char leftovers[MAXKWLEN];
+    // (the byte after a keyword tells it from a longer atom)
+    char leftovers[MAXKWLEN + 1];
     size_t nleftovers;
     size_t orig_nleftovers;
     // how much of whichever input we've read
diff --git a/libimap/scan.c b/libimap/scan.c
index 80ab721..0482b48 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -71,8 +71,8 @@ void imap_feed(imap_scanner_t *s, const dstr_t input){
     s->skip = 0;
     s->input = input.data;
     s->ninput = input.len;
-    if(s->orig_nleftovers && s->orig_nleftovers < MAXKWLEN){
-        size_t needed = MAXKWLEN - s->orig_nleftovers;
+    if(s->orig_nleftovers){
+        size_t needed = sizeof(s->leftovers) - s->orig_nleftovers;
         size_t copysize = MIN(input.len, needed);
         memcpy(s->leftovers + s->orig_nleftovers, input.data, copysize);
         s->nleftovers += copysize;
@@ -101,6 +101,17 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         return (imap_scanned_t){ .more = true };
     }
 
+    if(s->nleftovers && s->skip){
+        // drop what was already consumed from leftovers, and top it up again
+        size_t nremains = s->orig_nleftovers - s->skip;
+        memmove(s->leftovers, s->leftovers + s->skip, nremains);
+        size_t copysize = MIN(s->ninput, sizeof(s->leftovers) - nremains);
+        memcpy(s->leftovers + nremains, s->input, copysize);
+        s->orig_nleftovers = nremains;
+        s->nleftovers = nremains + copysize;
+        s->skip = 0;
+    }
+
     char *src;
     size_t len;
 
@@ -108,7 +119,7 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
     bool in_leftovers = s->nleftovers;
     if(in_leftovers){
         src = s->leftovers;
-        len = s->nleftovers;
+        len = MIN(s->nleftovers, MAXKWLEN);
     }else{
         src = s->input;
         len = s->ninput;
@@ -124,17 +135,10 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         s->literal_len -= out.token.len;
     }else{
         out = do_scan(src, len, s->skip, mode);
-
-        /* Special case: if after adding to leftovers, we hit an invalid token,
-           we expand the size of the invalid token to include all of leftovers.
-           This preserves our "leftovers is always fully consumed by the next
-           token" guarantee which is very nice to have.  The same applies to a
-           token which ends before all of leftovers is consumed; what follows
-           it in leftovers (a backslash which escapes nothing, or part of a
-           NIL which is not a NIL) turned out to be an invalid token. */
-        if(in_leftovers && !out.more && out.token.len < s->orig_nleftovers){
-            out.type = IMAP_INVALID_TOKEN;
-            out.token.len = s->orig_nleftovers;
+        if(in_leftovers && out.more && s->nleftovers > len){
+            // a keyword of MAXKWLEN, check the byte after it
+            len = s->nleftovers;
+            out = do_scan(src, len, s->skip, mode);
         }
     }
 
@@ -143,18 +147,10 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         s->skip += out.token.len;
 
         if(in_leftovers){
-            /* there will never be more than one token from leftovers, because
-               if it had a token break in it, only the last token would have
-               gone to leftovers */
-            if(s->skip < s->orig_nleftovers){
-                dstr_t temp = dstr_from_cstrn(
-                    s->leftovers, s->orig_nleftovers, false
-                );
-                LOG_FATAL(
-                    "not all of leftovers (%x) was consumed by the%x\n",
-                    FD_DBG(temp), FS(imap_token_name(out.type))
-                );
-            }
+            /* what looked like a single token before may turn out to be several
+               tokens, e.g. the "READ-" of "READ-X", so part of the original
+               leftovers may remain for the next call */
+            if(s->skip < s->orig_nleftovers) return out;
             // transition to src = input
             s->skip -= s->orig_nleftovers;
             s->nleftovers = 0;
@@ -170,16 +166,8 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
     }else{
         // no more valid tokens, copy input if necessary
         size_t nremains = len - s->skip;
-        if(s->skip && nremains && in_leftovers){
-            /* we should never be left-shifting leftovers; there should never
-               be a valid token without consuming all of leftovers */
-            dstr_t temp = dstr_from_cstrn(
-                s->leftovers, s->orig_nleftovers, false
-            );
-            LOG_FATAL("would left-shift leftovers (%x)\n", FD_DBG(temp));
-        }else{
-            memcpy(s->leftovers, src + s->skip, nremains);
-        }
+        // (in leftovers, skip is always zero here)
+        memmove(s->leftovers, src + s->skip, nremains);
         s->nleftovers = nremains;
         s->orig_nleftovers = nremains;
         s->fed = false;
@@ -495,9 +483,12 @@ done:
     size_t toklen = end - skip;
     // see "Requirements", above
     /* note that the scannable text may be longer than the token, if it ends
-       with the first half of an escape; text of MAXKWLEN or more must never be
-       withheld since leftovers can't be extended beyond that */
-    if(limited && type != IMAP_EOL && len - skip < MAXKWLEN){
+       with the first half of an escape; text longer than MAXKWLEN must never
+       be withheld since leftovers can't be extended beyond that */
+    size_t scannable = len - skip;
+    bool withhold = scannable < MAXKWLEN
+                 || (scannable == MAXKWLEN && type != IMAP_RAW);
+    if(limited && type != IMAP_EOL && withhold){
         return (imap_scanned_t){ .more = true };
     }
 
-- 
2.43.0


From bed6e8317c65e4cc8386e80cf21e40350b01acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:32 +0000
Subject: [PATCH 084/112] fix: FETCH of BODY[n.HEADER.FIELDS.NOT (...)] crashed
 for a part which is not a message

---
 libimaildir/dn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index d2a45ed..454074d 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1231,6 +1231,7 @@ static bool build_sect_txt_content_resp(
             break;
 
         case IE_SECT_HDR_FLDS_NOT:
+            if(!imf) return true;
             // just the headers of the message
             *content_resp_out = imf_copy_hdr_fields_not(
                 e, imf, sect_txt->headers
-- 
2.43.0


From da1dd13ab71d88715a5bd2250fd517c077bdd1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:19 +0000
Subject: [PATCH 085/112] fix: FETCH BODY[2] of a message whose body is a
 message/rfc822 returned part 1

---
 libimap/imf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libimap/imf.c b/libimap/imf.c
index 8f0cb16..8e57952 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1035,6 +1035,12 @@ bool imf_get_submessage(
                 }
                 break;
             }
+
+            // a message which is not a multipart only has a part 1
+            if(!ismultipart && sect_part->n != 1){
+                missing = true;
+                break;
+            }
         }
 
         /* note: if the message/rfc822 code ran, we're now operating on the
-- 
2.43.0


From 28adc38851ff1920d8b4a8dda4e9f1e2105fb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:53 +0000
Subject: [PATCH 086/112] fix: a part whose header cannot be parsed ended the
 session when it was fetched

---
 libimap/imf.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 8e57952..5031010 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -434,6 +434,31 @@ derr_t imf_hdrs_parse_sub(const dstr_off_t bytes, imf_hdrs_t **out){
     return e;
 }
 
+// a part with headers we can't parse is one big body, just like a whole message
+static derr_t imf_part_hdrs_parse(const dstr_off_t bytes, imf_hdrs_t **out){
+    derr_t e = E_OK;
+
+    derr_t e2 = imf_hdrs_parse_sub(bytes, out);
+    CATCH(&e2, E_PARAM){
+        DROP_VAR(&e2);
+        dstr_off_t none = { .buf = bytes.buf, .start = bytes.start, .len = 0 };
+        *out = imf_hdrs_new(&e, none, none, NULL);
+        CHECK(&e);
+    }else PROP_VAR(&e, &e2);
+
+    return e;
+}
+
+static derr_t imf_part_parse(const dstr_off_t bytes, imf_t **out){
+    derr_t e = E_OK;
+
+    imf_hdrs_t *hdrs = NULL;
+    PROP(&e, imf_part_hdrs_parse(bytes, &hdrs) );
+    PROP(&e, imf_parse_sub(bytes, &hdrs, out) );
+
+    return e;
+}
+
 // individual field handling
 #define DETECT_HDR(x) \
     if(x##_field.len == 0){ \
@@ -1088,7 +1113,7 @@ bool imf_get_submessage(
 
             // get the mime headers from the subpart
             imf_hdrs_free(mime_hdrs);
-            PROP_GO(e, imf_hdrs_parse_sub(bytes, &mime_hdrs), fail);
+            PROP_GO(e, imf_part_hdrs_parse(bytes, &mime_hdrs), fail);
 
             mime_content_type_free(content_type);
             if(isdigest){
@@ -1113,7 +1138,7 @@ bool imf_get_submessage(
 
         if(ismessage && isrfc822){
             // parse an imf-type message
-            PROP_GO(e, imf_parse_sub(bytes, NULL, &heap_imf), fail);
+            PROP_GO(e, imf_part_parse(bytes, &heap_imf), fail);
             imf = heap_imf;
         }
     }
@@ -1212,7 +1237,7 @@ static derr_t read_bodystructure(
             if(missing) break;
 
             // parse the mime headers of this part
-            PROP_GO(&e, imf_hdrs_parse_sub(part_bytes, &part_hdrs), cu);
+            PROP_GO(&e, imf_part_hdrs_parse(part_bytes, &part_hdrs), cu);
 
             // the part body is the whole part without the headers
             dstr_off_t part_body_bytes = {
@@ -1303,7 +1328,7 @@ static derr_t read_bodystructure(
         && content_type->subtype == MIME_SUBTYPE_RFC822
     ){
         // first parse the imf message
-        PROP_GO(&e, imf_parse_sub(body_bytes, NULL, &imf), cu);
+        PROP_GO(&e, imf_part_parse(body_bytes, &imf), cu);
 
         // recurse into the body of the imf message
         PROP_GO(&e,
-- 
2.43.0


From 8db01b572ee71e69dacfc861f69d81b98335a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:17 +0000
Subject: [PATCH 087/112] fix: BODYSTRUCTURE never reported the
 Content-Description of a part

---
 libimap/imf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 5031010..feb807f 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -712,7 +712,7 @@ derr_t read_bodystruct_info(
     DSTR_STATIC(d_version, "mime-version");
     DSTR_STATIC(d_content_type, "content-type");
     DSTR_STATIC(d_content_id, "content-id");
-    DSTR_STATIC(d_description, "contentmdescription");
+    DSTR_STATIC(d_description, "content-description");
     DSTR_STATIC(d_content_transfer_encoding, "content-transfer-encoding");
     DSTR_STATIC(d_md5, "content-md5");
     DSTR_STATIC(d_disposition, "content-disposition");
-- 
2.43.0


From aac69b21e844c075615ad5fac24db0beb8d0551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:17 +0000
Subject: [PATCH 088/112] fix: reading the structure of a multipart freed an
 uninitialized pointer when a part failed

---
 libimap/imf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index feb807f..9be8e5c 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1217,7 +1217,6 @@ static derr_t read_bodystructure(
 
     if(content_type->type == MIME_TYPE_MULTIPART){
         // read the bodystructure for all parts of this message
-        ie_body_t *parts = NULL;
         size_t skip = 0;
 
         // multipart/digest changes the deault Content-Type
@@ -1247,7 +1246,7 @@ static derr_t read_bodystructure(
             };
 
             // recurse
-            ie_body_t *new_part;
+            ie_body_t *new_part = NULL;
             // delay error handling until ie_body_add
             e = read_bodystructure(
                 part_hdrs,
-- 
2.43.0


From 0afac2c6157e1dea02c3f387271adf0b06cb6d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:17 +0000
Subject: [PATCH 089/112] fix: FETCH (BODY[]<0.5> BODY[]) sent freed memory

---
 libimaildir/dn.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 454074d..01d2381 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -111,6 +111,13 @@ fail:
     return NULL;
 }
 
+// copy the content, leaving the original with its owner
+static ie_dstr_t *loader_copy_content(derr_t *e, loader_t *loader){
+    _loader_read_all(e, loader);
+    if(is_error(*e)) return NULL;
+    return ie_dstr_copy(e, loader->content);
+}
+
 // a closure around _loader_read, for imf_scanner_t
 static derr_t _loader_read_fn(void *data, size_t *amnt_read){
     derr_t e = E_OK;
@@ -1258,7 +1265,12 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
     ie_sect_t *sect = extra->sect;
     if(!sect){
         // BODY[] by itself
-        content_resp = loader_take_content(e, loader);
+        if(extra->partial){
+            // we free what we get, but others may still need the original
+            content_resp = loader_copy_content(e, loader);
+        }else{
+            content_resp = loader_take_content(e, loader);
+        }
 
     /* optimization clause: detect cases where we don't have to read the
        whole message at all.  These cases meet the following criteria:
-- 
2.43.0


From 2cacc62d519eea7dc3e6c2b2d2dc20e68a37e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:54 +0000
Subject: [PATCH 090/112] fix: FETCH was answered OK without an item which did
 not exist, if another item followed

---
 libimaildir/dn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 01d2381..1d3ec52 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1250,6 +1250,7 @@ static bool build_sect_txt_content_resp(
 }
 
 
+// part_missing is only ever set, as there may be many extras in one command
 static ie_fetch_resp_t *build_fetch_resp_extra(
     derr_t *e,
     ie_fetch_resp_t *f,
@@ -1259,7 +1260,6 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
 ){
     ie_dstr_t *content_resp = NULL;
 
-    *part_missing = false;
     if(is_error(*e)) goto fail;
 
     ie_sect_t *sect = extra->sect;
-- 
2.43.0


From ab525965663838517f93444456090475d7875ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:54 +0000
Subject: [PATCH 091/112] fix: the structure of a deeply nested email exhausted
 the stack

---
 libimap/imf.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 9be8e5c..fff0912 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -6,6 +6,8 @@ DSTR_STATIC(D_TEXT, "text");
 DSTR_STATIC(D_PLAIN, "plain");
 DSTR_STATIC(D_MESSAGE, "message");
 DSTR_STATIC(D_RFC822, "rfc822");
+DSTR_STATIC(D_APPLICATION, "application");
+DSTR_STATIC(D_OCTET_STREAM, "octet-stream");
 
 imf_hdr_t *imf_hdr_new(
     derr_t *e,
@@ -1178,11 +1180,15 @@ static size_t count_lines(dstr_t text){
     return nlines;
 }
 
+// parts which are nested more deeply than this are reported as opaque data
+#define MAX_PART_DEPTH 100
+
 static derr_t read_bodystructure(
     const imf_hdrs_t *hdrs,
     const dstr_off_t body_bytes,
     const dstr_t default_type,
     const dstr_t default_subtype,
+    unsigned int depth,
     ie_body_t **body_out
 ){
     mime_content_type_t *content_type = NULL;
@@ -1215,6 +1221,22 @@ static derr_t read_bodystructure(
         ),
     cu);
 
+    if(
+        depth >= MAX_PART_DEPTH && (
+            content_type->type == MIME_TYPE_MULTIPART
+            || content_type->type == MIME_TYPE_MESSAGE
+        )
+    ){
+        // we recurse into every part, don't let an email exhaust the stack
+        mime_content_type_free(content_type);
+        content_type = mime_content_type_new(&e,
+            ie_dstr_new2(&e, D_APPLICATION),
+            ie_dstr_new2(&e, D_OCTET_STREAM),
+            NULL
+        );
+        CHECK_GO(&e, cu);
+    }
+
     if(content_type->type == MIME_TYPE_MULTIPART){
         // read the bodystructure for all parts of this message
         size_t skip = 0;
@@ -1253,6 +1275,7 @@ static derr_t read_bodystructure(
                 part_body_bytes,
                 default_part_type,
                 default_part_subtype,
+                depth + 1,
                 &new_part
             );
             parts = ie_body_add(&e, parts, new_part);
@@ -1332,7 +1355,7 @@ static derr_t read_bodystructure(
         // recurse into the body of the imf message
         PROP_GO(&e,
             read_bodystructure(
-                imf->hdrs, imf->body, D_TEXT, D_PLAIN, &msgbody
+                imf->hdrs, imf->body, D_TEXT, D_PLAIN, depth + 1, &msgbody
             ),
         cu);
 
@@ -1405,7 +1428,7 @@ ie_body_t *imf_bodystructure(derr_t *e, const imf_t *root_imf){
 
     PROP_GO(e,
         read_bodystructure(
-            root_imf->hdrs, root_imf->body, D_TEXT, D_PLAIN, &body
+            root_imf->hdrs, root_imf->body, D_TEXT, D_PLAIN, 0, &body
         ),
     fail);
 
-- 
2.43.0


From 5b7968dd902156cd22c6caed6d22ca7ccf7fb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:59 +0000
Subject: [PATCH 092/112] fix: FETCH RFC822.TEXT crashed when the file of the
 message could not be read

---
 libimaildir/dn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 1d3ec52..e7313b9 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1442,8 +1442,10 @@ static derr_t send_fetch_resp(
 
     if(fetch->attr->rfc822_text){
         const imf_t *imf = loader_parse_imf(&e, &loader);
-        ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
-        f = ie_fetch_resp_rfc822_text(&e, f, body);
+        if(!is_error(e)){
+            ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
+            f = ie_fetch_resp_rfc822_text(&e, f, body);
+        }
     }
 
     if(fetch->attr->rfc822_size){
-- 
2.43.0


From e9b5b153fdbd9c97ef261a3ec6d67a8ab241898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 093/112] fix: ENVELOPE had no sender for a message with
 several authors and no Sender field

---
 libimap/imf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index fff0912..694eea2 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -582,7 +582,12 @@ ie_envelope_t *read_envelope_info(derr_t *e, const imf_hdrs_t *hdrs){
     imf_parse_or_nil(e, date, "Date", imf_parse_unstruct_field);
     imf_parse_or_nil(e, subj, "Subject", imf_parse_subj_field);
     imf_parse_or_nil(e, from, "From", imf_parse_from_field);
-    imf_parse_or_nil(e, sender, "Sender", imf_parse_sender_field);
+    // only a real Sender field is limited to a single mailbox
+    if(sender_field.data == from_field.data){
+        imf_parse_or_nil(e, sender, "Sender", imf_parse_from_field);
+    }else{
+        imf_parse_or_nil(e, sender, "Sender", imf_parse_sender_field);
+    }
     imf_parse_or_nil(e, reply_to, "Reply-To", imf_parse_reply_to_field);
     imf_parse_or_nil(e, to, "To", imf_parse_to_field);
     imf_parse_or_nil(e, cc, "Cc", imf_parse_cc_field);
-- 
2.43.0


From def7f43cab36ca07ef629372885e60bfdf542350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:29 +0000
Subject: [PATCH 094/112] fix: FETCH read freed memory after failing to load
 the content of a message

---
 libimaildir/dn.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index e7313b9..f3e2c20 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1392,6 +1392,9 @@ static derr_t send_fetch_resp(
     // build a fetch response
     ie_fetch_resp_t *f = ie_fetch_resp_new(&e);
 
+    /* note: if loading the content fails then the imaildir fails too, which
+       frees all our views; don't touch view after an error */
+
     // the num is always a sequence number, even in case of a UID FETCH
     f = ie_fetch_resp_seq_num(&e, f, seq_num);
 
@@ -1402,7 +1405,7 @@ static derr_t send_fetch_resp(
     }
 
     // if we gathered an flag update for this uid_dn, we always include FLAGS
-    if(fetch->attr->flags || force_flags){
+    if(!is_error(e) && (fetch->attr->flags || force_flags)){
         ie_fflags_t *ff = ie_fflags_new(&e);
         if(view->flags.answered)
             ff = ie_fflags_add_simple(&e, ff, IE_FFLAG_ANSWERED);
@@ -1417,7 +1420,7 @@ static derr_t send_fetch_resp(
         f = ie_fetch_resp_flags(&e, f, ff);
     }
 
-    if(fetch->attr->intdate){
+    if(!is_error(e) && fetch->attr->intdate){
         f = ie_fetch_resp_intdate(&e, f, view->internaldate);
     }
 
@@ -1448,7 +1451,7 @@ static derr_t send_fetch_resp(
         }
     }
 
-    if(fetch->attr->rfc822_size){
+    if(!is_error(e) && fetch->attr->rfc822_size){
         if(view->length > UINT_MAX){
             TRACE_ORIG(&e, E_INTERNAL, "msg length exceeds UINT_MAX");
         }else{
-- 
2.43.0


From 1430c20475f496840ce47fe58533f53682663d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:45 +0000
Subject: [PATCH 095/112] fix: a signed api request which could not be built
 was never answered

---
 api_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api_client.c b/api_client.c
index ed46725..bad1a38 100644
--- a/api_client.c
+++ b/api_client.c
@@ -752,6 +752,8 @@ fail:
     apic->e = e;
     // schedule ourselves for later (this is the only time we need that)
     schedulable_prep(&apic->schedulable, delayed_error);
+    scheduler_i *sched = &apic->http->scheduler->iface;
+    sched->schedule(sched, &apic->schedulable);
 }
 
 static derr_t mkreq_sync(
-- 
2.43.0


From 623feeaecd5b082155bb4cd3e0378f511325ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:48 +0000
Subject: [PATCH 096/112] fix: the lock of the status socket was released right
 after it was taken

---
 libcitm/status_server.c | 4 ++++
 libduv/util.c           | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/libcitm/status_server.c b/libcitm/status_server.c
index 143f227..8f74fda 100644
--- a/libcitm/status_server.c
+++ b/libcitm/status_server.c
@@ -565,6 +565,10 @@ derr_t status_server_init(
 fail:
     if(sockfd && *sockfd > -1){ compat_close(*sockfd); *sockfd = -1; }
     if(ss->pipe.data) duv_pipe_close(&ss->pipe, on_fail_close_cb);
+    #ifndef _WIN32
+    duv_unlock_fd(ss->lockfd);
+    ss->lockfd = -1;
+    #endif
     dstr_free(&ss->wbuf);
     dstr_free(&ss->json_text);
 
diff --git a/libduv/util.c b/libduv/util.c
index f91bc7a..cde7472 100644
--- a/libduv/util.c
+++ b/libduv/util.c
@@ -389,8 +389,16 @@ derr_t duv_pipe_bind_with_lock(
     // now bind
     PROP_GO(&e, duv_pipe_bind_path(pipe, sock), fail_lock);
 
+    // success; the caller keeps the lock
+    *out = fd;
+
+    return e;
+
 fail_lock:
+    // also closes fd
     duv_unlock_fd(fd);
+    return e;
+
 fail_fd:
     close(fd);
     return e;
-- 
2.43.0


From 85c288f995c062e3b0e01485b85b49450800aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:48 +0000
Subject: [PATCH 097/112] fix: commands after a check command were left waiting
 by the status server

---
 libcitm/status_server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcitm/status_server.c b/libcitm/status_server.c
index 8f74fda..e4e3adc 100644
--- a/libcitm/status_server.c
+++ b/libcitm/status_server.c
@@ -394,6 +394,9 @@ static void advance_state(status_server_t *ss){
                 duv_pipe_read_start(&c->pipe, alloc_cb, read_cb),
             cu);
         }
+        /* if the command needed no response, there's no write_cb to wake us up
+           for whatever else is waiting */
+        if(!ss->writing) schedule(ss);
         return;
     }
 
-- 
2.43.0


From 63ba4b956c07602ab0cbaf1a1094da06e70e09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:23 +0000
Subject: [PATCH 098/112] fix: without an acme account a certificate was
 reported ready before there was one

---
 libcitm/acme_manager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index b9b6cf2..52cf1f2 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -1192,6 +1192,7 @@ derr_t acme_manager_init(
     if(!ok){
         am->maj = STATUS_MAJ_TLS_FIRST;
         am->min = STATUS_MIN_CREATE_ACCOUNT;
+        am->want_cert = true;
         goto done;
     }
 
-- 
2.43.0


From b40fffbf2055752dfb711c9bb430dc86b3f6a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:41 +0000
Subject: [PATCH 099/112] fix: a crash after a renewal left an order whose old
 certificate the next renewal took for its new key

---
 libcitm/acme_manager.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index 52cf1f2..ed07367 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -665,6 +665,13 @@ static derr_t rename_new_key_and_cert(acme_manager_t *am, bool check){
         PROP(&e, drename_atomic_path(&keynew, &key) );
     }
 
+    /* delete the order object we cached, before there is nothing left to tell
+       us it is finished; otherwise we would fetch its old cert for a new key
+       in the next renewal */
+    string_builder_t ordr = am_ordr(am);
+    PROP(&e, exists_path(&ordr, &ok) );
+    if(ok) PROP(&e, dunlink_path(&ordr) );
+
     // rename cert
     PROP(&e, drename_atomic_path(&certnew, &cert) );
 
@@ -839,10 +846,6 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
     // overwrite cert and key
     PROP_GO(&e, rename_new_key_and_cert(am, false), cu);
 
-    // delete the order object we cached
-    string_builder_t ordr = am_ordr(am);
-    PROP_GO(&e, dunlink_path(&ordr), cu);
-
     *new_cert_ready = true;
 
 cu:
-- 
2.43.0


From 4cafbac29fad957e61d935a291972ab738040fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:56 +0000
Subject: [PATCH 100/112] fix: a crash while writing a certificate chain kept
 citm from starting again

---
 libcitm/acme_manager.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index ed07367..330a8b3 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -13,6 +13,9 @@ static string_builder_t am_cert(acme_manager_t *am){
 static string_builder_t am_certnew(acme_manager_t *am){
     return sb_append(&am->acme_dir, SBS("certnew.pem"));
 }
+static string_builder_t am_certtmp(acme_manager_t *am){
+    return sb_append(&am->acme_dir, SBS("certnew.pem.tmp"));
+}
 static string_builder_t am_key(acme_manager_t *am){
     return sb_append(&am->acme_dir, SBS("key.pem"));
 }
@@ -839,9 +842,12 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
         return e;
     }
 
-    // write the cert to file
+    /* write the cert to file; a certnew.pem must never be incomplete, since it
+       is used after a crash, and a cut chain may still begin with a cert */
+    string_builder_t certtmp = am_certtmp(am);
     string_builder_t certnew = am_certnew(am);
-    PROP_GO(&e, dstr_write_path(&certnew, &nc->cert), cu);
+    PROP_GO(&e, dstr_write_path(&certtmp, &nc->cert), cu);
+    PROP_GO(&e, drename_atomic_path(&certtmp, &certnew), cu);
 
     // overwrite cert and key
     PROP_GO(&e, rename_new_key_and_cert(am, false), cu);
-- 
2.43.0


From 62087d7440825f0b1f5d31b9244d5c71489fb594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:04 +0000
Subject: [PATCH 101/112] fix: a key still being made when a renewal failed was
 made a second time, and used for the wrong renewal

---
 libcitm/acme_manager.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index 330a8b3..d1d30fa 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -854,8 +854,12 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
 
     *new_cert_ready = true;
 
+    bool keygen_inflight;
 cu:
+    // a keygen which is still running can't be canceled, but can be reused
+    keygen_inflight = nc->keygen_started && !nc->keygen_done;
     new_cert_free(nc);
+    nc->keygen_started = keygen_inflight;
 
     return e;
 }
-- 
2.43.0


From 1ca8c32659b4688056461d55d0b2d96ceb1edfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:10 +0000
Subject: [PATCH 102/112] fix: kvpsend never sent to a peer again after one
 EDESTADDRREQ or ENOKEY

---
 server/kvpsend/main.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 102f45e..1e96420 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -421,17 +421,19 @@ static void uv_sender_send_cb(uv_udp_send_t *req, int status){
         if(status == UV_ECANCELED) return;
         /* detect wireguard-specific failures, and log them; don't bring down
            the whole service if one endpoint is misconfigured or offline */
+        // (it's just a lost packet; the sender will try again after a while)
         if(status == UV_EDESTADDRREQ){
             LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOP(sender->addr));
-            return;
-        }
-        if(status == -ENOKEY){
+        }else if(status == -ENOKEY){
             LOG_ERROR("ENOKEY: dst=%x\n", FNTOP(sender->addr));
-            return;
+        }else{
+            ORIG_GO(&e,
+                uv_err_type(status),
+                "uv_sender_send_cb: %x",
+                fail,
+                FUV(status)
+            );
         }
-        ORIG_GO(&e,
-            uv_err_type(status), "uv_sender_send_cb: %x", fail, FUV(status)
-        );
     }
 
     PROP_GO(&e, sender_send_cb(&uv_k->k, sender, ktime(uv_k)), fail);
-- 
2.43.0


From f8337f6ed000602f3f296541a4dad9a2430463e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:10 +0000
Subject: [PATCH 103/112] fix: any client could end kvpsend by sending too long
 a line

---
 server/kvpsend/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 1e96420..f732d45 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -186,6 +186,10 @@ static void uv_subscriber_read_cb(
     size_t rcap = sizeof(uv_sub->rbuf);
     if(uv_sub->rlen > rcap) LOG_FATAL("read too much from subscriber\n");
     if(uv_sub->rbuf[uv_sub->rlen-1] != '\n'){
+        // there's no room to read any more, so it can't be a valid request
+        if(uv_sub->rlen == rcap){
+            ORIG_GO(&e, E_PARAM, "request is too long\n", fail);
+        }
         // keep reading
         return;
     }
-- 
2.43.0


From 6ec37e7478a52eee5d0f807873c613e734c0ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:39 +0000
Subject: [PATCH 104/112] fix: kvpsend did not come to its end after a failure
 while a client was connected

---
 server/kvpsend/main.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index f732d45..43eb338 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -18,6 +18,7 @@ typedef struct {
     char sender_wbufs[MAX_PEERS][4096];
     // we only need one recv buf for all udps
     char recvbuf[2048];
+    link_t subs;  // uv_subscriber_t->link, those we still read or owe an answer
     derr_t close_reason;
     bool closing;
     MYSQL *sql;
@@ -44,13 +45,25 @@ typedef struct {
     // expect to write one char, or a healthcheck response
     char wbuf[128];
     uv_write_t req;
+    link_t link;  // uv_kvpsend_t->subs
 } uv_subscriber_t;
 DEF_CONTAINER_OF(uv_subscriber_t, sub, subscriber_t)
+DEF_CONTAINER_OF(uv_subscriber_t, link, link_t)
 
 static void noop_close_cb(uv_handle_t *handle){
     (void)handle;
 }
 
+static void on_subscriber_closed(uv_handle_t *handle){
+    uv_subscriber_t *uv_sub = handle->data;
+    free(uv_sub);
+}
+
+static void uv_subscriber_close(uv_subscriber_t *uv_sub){
+    link_remove(&uv_sub->link);
+    duv_pipe_close(&uv_sub->pipe, on_subscriber_closed);
+}
+
 static void uv_kvpsend_close(uv_kvpsend_t *uv_k, derr_t e){
     if(uv_k->closing){
         if(!is_error(uv_k->close_reason)){
@@ -78,15 +91,11 @@ static void uv_kvpsend_close(uv_kvpsend_t *uv_k, derr_t e){
         delete_entry(k, entry, false);
         entry = next;
     }
-}
-
-static void on_subscriber_closed(uv_handle_t *handle){
-    uv_subscriber_t *uv_sub = handle->data;
-    free(uv_sub);
-}
-
-static void uv_subscriber_close(uv_subscriber_t *uv_sub){
-    duv_pipe_close(&uv_sub->pipe, on_subscriber_closed);
+    // also close clients which aren't waiting for any entry
+    link_t *link;
+    while((link = link_list_pop_first(&uv_k->subs))){
+        uv_subscriber_close(CONTAINER_OF(link, uv_subscriber_t, link));
+    }
 }
 
 static void _subscriber_close(kvpsend_i *I, subscriber_t *sub){
@@ -263,6 +272,8 @@ static void uv_listener_connect_cb(uv_stream_t *listener, int status){
         goto app_fail;
     }
 
+    link_list_append(&uv_k->subs, &uv_sub->link);
+
     // failures here just close the connection, not the application
 
     // start reading from this connection
@@ -317,6 +328,8 @@ static void _subscriber_respond(kvpsend_i *I, subscriber_t *sub, dstr_t msg){
         );
     }
     memcpy(uv_sub->wbuf, msg.data, msg.len);
+    // from here on, the connection is closed when the write is done
+    link_remove(&uv_sub->link);
 
     uv_buf_t buf = { .base = uv_sub->wbuf, .len = msg.len };
     int ret = uv_write(
-- 
2.43.0


From b35fc473e104318d21d6499850453c1720127c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:50 +0000
Subject: [PATCH 105/112] fix: kvpsend aborted during shutdown with several
 subscribers

---
 server/kvpsend/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 43eb338..1446daa 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -416,6 +416,8 @@ fail:
 
 static void _timeout_timer_start(kvpsend_i *I, xtime_t deadline){
     uv_kvpsend_t *uv_k = CONTAINER_OF(I, uv_kvpsend_t, iface);
+    // subscribers are closed one by one after the timer is closed
+    if(uv_k->closing) return;
     xtime_t delay_ms = deadline_to_delay_ms(uv_k, deadline);
     duv_timer_must_start(&uv_k->timeout_timer, uv_timeout_timer_cb, delay_ms);
 }
-- 
2.43.0


From ff95b5c4496dae19abbd3c5480d216e2a2bd3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:48 +0000
Subject: [PATCH 106/112] fix: citm aborted when a client vanished while it was
 told of its broken upstream connection

---
 libcitm/imap_server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcitm/imap_server.c b/libcitm/imap_server.c
index d42712e..5a84439 100644
--- a/libcitm/imap_server.c
+++ b/libcitm/imap_server.c
@@ -376,6 +376,8 @@ static void advance_state(imap_server_t *s){
     bool ok;
 
     if(is_error(s->e) || s->canceled) goto cu;
+    // with an expected connection error, there is nobody left to write to
+    if(s->stream->awaited) goto cu;
 
     // LOGOUT codepath
     if(s->logged_out){
-- 
2.43.0


From c7dde5027c7a6efb6d510268b50b81066f49ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:50 +0000
Subject: [PATCH 107/112] fix: a LOGOUT while responses were coming in from the
 server aborted citm

---
 libcitm/sc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index a9f40ad..707ccda 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -235,6 +235,8 @@ static void cread_cb(
 // returns bool ok
 static bool advance_reads_up(sc_t *sc){
     if(sc->resp) return true;
+    // a LOGOUT may close the connection before we stop waiting for responses
+    if(sc->c->canceled) return false;
     ONCE(sc->reading_up){
         imap_client_must_read(sc->c, &sc->cread, cread_cb);
     }
-- 
2.43.0


From 1e08ddf089dbe7a32e0f2cb76f6fd783f7db200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:32 +0000
Subject: [PATCH 108/112] fix: a login while the last session of the same user
 ended aborted citm

---
 libcitm/citm.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index 4b5b81a..3b45b42 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -261,12 +261,18 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
     dstr_t user = {0};
     dstr_t pass = {0};
     keydir_i *kd = NULL;
+    imap_server_t *s = NULL;
+    imap_client_t *c = NULL;
 
     bool ok = hold_pop(
         &citm->holds, constuser, &servers, &clients, &user, &pass
     );
     if(!ok) return;
 
+    // the preuser_t starts with the first server and client
+    s = CONTAINER_OF(link_list_pop_first(&servers), imap_server_t, link);
+    c = CONTAINER_OF(link_list_pop_first(&clients), imap_client_t, link);
+
     PROP_GO(&e, keydir_new(&citm->root, user, &kd), fail);
 
     PROP_GO(&e,
@@ -276,18 +282,14 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
             user,
             pass,
             kd,
-            CONTAINER_OF(servers.next, imap_server_t, link),
-            CONTAINER_OF(clients.next, imap_client_t, link),
+            s,
+            c,
             citm_preuser_cb,
             citm,
             &citm->preusers
         ),
     fail);
 
-    // consumed first server and client
-    (void)link_list_pop_first(&servers);
-    (void)link_list_pop_first(&clients);
-
     // get the elem if preuser_new succeeded
     hash_elem_t *elem = hashmap_gets(&citm->preusers, &user);
     if(!elem) LOG_FATAL("unable to find newly created preuser\n");
@@ -309,6 +311,8 @@ fail:
     dstr_free(&user);
     dstr_free0(&pass);
     if(kd) kd->free(kd);
+    citm_close_server(citm, s);
+    citm_close_client(citm, c);
     citm_close_server_list(citm, &servers);
     citm_close_client_list(citm, &clients);
     return;
-- 
2.43.0


From a06fbfe0ec02c99139fb9cd397edd3a76876ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:52 +0000
Subject: [PATCH 109/112] fix: citm kept using the memory of a finished hold
 for late logins

---
 libcitm/citm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index 3b45b42..4883781 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -173,6 +173,7 @@ static bool hold_pop(
     if(!elem) return false;
 
     citm_hold_t *hold = CONTAINER_OF(elem, citm_hold_t, elem);
+    hash_elem_remove(&hold->elem);
     link_list_append_list(servers, &hold->servers);
     link_list_append_list(clients, &hold->clients);
     *user = hold->user;
-- 
2.43.0


From f3a7e33eba1ae11a0fe737c0eddc305bc98a7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:17 +0000
Subject: [PATCH 110/112] fix: citm crashed when shut down while a login was on
 hold

---
 libcitm/citm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index 4883781..a79c2d9 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -157,7 +157,7 @@ static void hold_cancel(citm_t *citm, hash_elem_t *elem){
     dstr_free(&hold->user);
     dstr_free0(&hold->pass);
     citm_close_server_list(citm, &hold->servers);
-    citm_close_client_list(citm, &hold->servers);
+    citm_close_client_list(citm, &hold->clients);
     free(hold);
 }
 
-- 
2.43.0


From 0be8888538bbe6996fa4368dd3bb35bcf8789ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:15 +0000
Subject: [PATCH 111/112] fix: citm did not follow changes of the keys while
 only one session was open

---
 libcitm/user.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcitm/user.c b/libcitm/user.c
index 6526c8d..e45d40a 100644
--- a/libcitm/user.c
+++ b/libcitm/user.c
@@ -309,6 +309,8 @@ derr_t user_new(
     hash_elem_t *old = hashmap_sets(out, &u->user, &u->elem);
     if(old) LOG_FATAL("user_new found existing user %x\n", FD_DBG(u->user));
 
+    schedule(u);
+
     return e;
 
 fail:
-- 
2.43.0


From a840a14c87879d36d81b73a99656a63f78618d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:29 +0000
Subject: [PATCH 112/112] fix: a LOGOUT right after the login never completed
 when a mailbox was selected meanwhile

---
 libcitm/sc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 707ccda..db976b6 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -1344,6 +1344,8 @@ logout:
     PROP_GO(&sc->e, advance_logout(sc, &ok), fail);
     up_ok = advance_writes_up(sc);
     dn_ok = advance_writes_dn(sc);
+    // keep reading, or we would not see the end of the disconnect
+    if(!ok) (void)advance_reads_up(sc);
     // wait for logout logic and all writes to complete
     if(!ok || !up_ok || !dn_ok) return;
     goto graceful_shutdown;
-- 
2.43.0

