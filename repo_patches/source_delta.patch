From 9828988bb2786f3a8fa239fb68f8a9d3ad3f9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:43 +0000
Subject: [PATCH 01/32] fix: only treat the database lock as held once it has
 been acquired

A run whose link() failed went on without the lock when the lock file could
not be read, and a fatal error or signal during locking removed the lock of
another run.
---
 dotlock.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..7f932a7 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -36,7 +36,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   struct passwd *pw;
   int pid;
   int len;
-  char *tname;
+  char *lname, *tname;
   struct stat sb;
   FILE *out;
 
@@ -51,11 +51,13 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   }
   pid = getpid();
   len = 1 + strlen(path) + 5;
-  lock_file_name = new_array(char, len);
-  sprintf(lock_file_name, "%s.lock", path);
+  /* Not stored in lock_file_name until the lock is ours : until then, a fatal
+   * error or signal must leave somebody else's lock alone. */
+  lname = new_array(char, len);
+  sprintf(lname, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(lname);
     forced_unlock = 0;
   }
 
@@ -63,7 +65,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   /* add on max width of pid field (allow up to 32 bit pid_t) + 2 '.' chars */
   len += (10 + 2);
   tname = new_array(char, len);
-  sprintf(tname, "%s.%d.%s", lock_file_name, pid, uu.nodename);
+  sprintf(tname, "%s.%d.%s", lname, pid, uu.nodename);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -72,7 +74,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   fprintf(out, "%d,%s,%s\n", pid, uu.nodename, pw->pw_name);
   fclose(out);
 
-  if (link(tname, lock_file_name) < 0) {
+  if (link(tname, lname) < 0) {
     /* check if link count==2 */
     if (stat(tname, &sb) < 0) {
       fprintf(stderr, "Could not stat the lock file\n");
@@ -81,15 +83,18 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
     } else {
       if (sb.st_nlink != 2) {
         FILE *in;
-        in = fopen(lock_file_name, "r");
+        in = fopen(lname, "r");
         if (in) {
           char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
+          if (!fgets(line, sizeof(line), in)) line[0] = 0;
+          line[strcspn(line, "\n")] = 0; /* strip trailing newline */
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
-          unlink(tname);
-          exit(1);
+          fclose(in);
+        } else {
+          fprintf(stderr, "Could not create the lock file %s\n", lname);
         }
+        unlink(tname);
+        exit(1);
       } else {
         /* lock succeeded apparently */
       }
@@ -97,6 +102,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   } else {
     /* lock succeeded apparently */
   }
+  lock_file_name = lname;
   unlink(tname);
   free(tname);
   return;
-- 
2.43.0


From cc457943db1043755b9fd36b2c467d9587ca1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:46 +0000
Subject: [PATCH 02/32] fix: release the database lock on every fatal-error
 exit

Running out of memory, a failing munmap and failed allocations in the IMAP
parser ended the run with the lock file left behind (the latter with a
success status).
---
 imap.c   | 7 ++++---
 mairix.c | 2 +-
 rfc822.c | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/imap.c b/imap.c
index 6e3105e..7167024 100644
--- a/imap.c
+++ b/imap.c
@@ -18,6 +18,7 @@
 #if defined(__FreeBSD__)
 #define __BSD_VISIBLE 1
 #endif
+#include "mairix.h"
 #include "imap.h"
 
 struct imap_ll {
@@ -178,7 +179,7 @@ struct imap_ll_tokenlist *tl;
 	if (!tl) {
 		fprintf(stderr, "imap_ll mktoken: malloc failed (fatal)\n");
 		sleep(1);
-		_exit(0);
+		unlock_and_exit(2);
 	}
 	tl->type = type;
 	tl->first = tl->last = NULL;
@@ -225,7 +226,7 @@ struct imap_ll_tokenlist *t2, *next;
 	if (!curtoken) { \
 		fprintf(stderr, "imap_ll_waitline(%d): malloc failed (fatal)\n", (alloc_size)); \
 		sleep(1); \
-		_exit(0); \
+		unlock_and_exit(2); \
 	} \
 	curtoken_now = 0; \
 	curtoken_max = (alloc_size); \
@@ -357,7 +358,7 @@ token_extend:
 							if (!curtoken) {
 								fprintf(stderr, "imap_ll_waitline(size=%d): malloc failed (fatal)\n", (int)curtoken_max);
 								sleep(1);
-								_exit(0);
+								unlock_and_exit(2);
 							}
 						}
 						curtoken[curtoken_now++] = cur;
diff --git a/mairix.c b/mairix.c
index dfef26b..724c9e4 100644
--- a/mairix.c
+++ b/mairix.c
@@ -410,7 +410,7 @@ void out_of_mem(char *file, int line, size_t size)/*{{{*/
   write(2, ", ", 2);
   emit_int(size);
   write(2, msg2, sizeof(msg2)-1);
-  exit(2);
+  unlock_and_exit(2);
 }
 /*}}}*/
 void report_error(const char *str, const char *filename)/*{{{*/
diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..967434b 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1445,7 +1445,7 @@ void free_ro_mapping(unsigned char *data, int len)/*{{{*/
     r = munmap(data, len);
     if(r < 0) {
       fprintf(stderr, "munmap() errord\n");
-      exit(1);
+      unlock_and_exit(1);
     }
   }
 }
-- 
2.43.0


From 648ecfe92c34d47d3c1e8af3e8729e98b4af9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 03/32] fix: honour the MAIRIX_MAILDIR_FOLDERS environment
 variable

The override was read back under a misspelt name, so setting it removed the
configured maildir folders instead.
---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 724c9e4..025b212 100644
--- a/mairix.c
+++ b/mairix.c
@@ -647,7 +647,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From 37e65d55ec0bbd5ccc91410009b5e9ed7ff37068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 04/32] fix: do not pull in threads on account of dead messages

With -t, a deleted message that satisfies the search (e.g. a negated term)
made every live message of its thread a match.
---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 27b02b8..1d02f52 100644
--- a/search.c
+++ b/search.c
@@ -1057,7 +1057,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     tids = new_array(char, db->n_msgs);
     memset(tids, 0, db->n_msgs);
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From b3feb5b420933c57f4a6233fe3d0f71b8d35f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 05/32] fix: skip mbox messages with a failed checksum when
 output goes to IMAP

The validated message pointer is NULL in that case; the other output types
already test for it.
---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 1d02f52..44bef0f 100644
--- a/search.c
+++ b/search.c
@@ -1314,7 +1314,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start) {
+                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              }
               if (data) {
                 free_ro_mapping(data, mbox_len);
               }
-- 
2.43.0


From 3e3c98d05255409030d2b1084ac1e73effa0b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 06/32] fix: do not overwrite source messages through links in
 the match folder

When augmenting the match folder, copying a message onto a name taken by a
link from an earlier search truncated and rewrote the linked message.
---
 search.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/search.c b/search.c
index 44bef0f..903cbf1 100644
--- a/search.c
+++ b/search.c
@@ -662,6 +662,8 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
 static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
   FILE *fp;
+  /* Never write through a link to the user's mail left by an earlier search. */
+  unlink((char *)arg);
   if (!(fp = fopen((char *)arg, "w"))) {
     fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
     return;
@@ -745,6 +747,8 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
+    /* Never write through a link to the user's mail left by an earlier search. */
+    unlink(target_path);
     out = fopen(target_path, "wb");
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
-- 
2.43.0


From 592c52dc337d7e2023a45f7da602d5dfb287924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:33 +0000
Subject: [PATCH 07/32] fix: give an empty message list a defined highest entry
 when a database is re-read

int_list_reader_copy() stored an uninitialised variable as the highest entry of
an empty list (an identifier that is only ever referenced), which then decided
an assertion in import_toktable2().
---
 reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index d04a75e..9e089cb 100644
--- a/reader.c
+++ b/reader.c
@@ -89,7 +89,7 @@ int int_list_reader_read(struct int_list_reader *ilr, int *result) {
 
 void int_list_reader_copy(struct int_list_reader *ilr, struct matches *out) {
   const unsigned char *base = ilr->pos;
-  int size, index;
+  int size, index = 0; /* an empty list has no highest entry */
   while (int_list_reader_read(ilr, &index));
   size = ilr->pos - base;
 
-- 
2.43.0


From 1479ae5b58a3481458e45a48ed785382f0c1af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:02 +0000
Subject: [PATCH 08/32] fix: re-index a message file whose size has changed
 even if its mtime has not

The manual says a message is rescanned when its mtime or size differs from
what the database records; only the mtime was compared.
---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 3b37ace..1519683 100644
--- a/db.c
+++ b/db.c
@@ -942,7 +942,8 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime &&
+                    sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From 37cae5c3dc15ad0bbb9415ff105db00a45371150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:27 +0000
Subject: [PATCH 09/32] fix: size the thread marker array of a -t search by the
 thread ids

After a purge run without new messages the surviving messages keep their
thread ids, which may be larger than the number of messages left; marking
such a thread wrote beyond the array.
---
 search.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/search.c b/search.c
index 903cbf1..88728a0 100644
--- a/search.c
+++ b/search.c
@@ -1058,8 +1058,13 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
 
   if (show_threads) {/*{{{*/
     char *tids;
-    tids = new_array(char, db->n_msgs);
-    memset(tids, 0, db->n_msgs);
+    unsigned int max_tid = 0;
+    /* After a purge, thread ids may exceed the number of messages left. */
+    for (i=0; i<db->n_msgs; i++) {
+      if (db->tid_table[i] > max_tid) max_tid = db->tid_table[i];
+    }
+    tids = new_array(char, max_tid + 1);
+    memset(tids, 0, max_tid + 1);
     for (i=0; i<db->n_msgs; i++) {
       if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
-- 
2.43.0


From 7de190915fba74caf883ea969d878260fe1159ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:14 +0000
Subject: [PATCH 10/32] fix: write the size and mtime cells of IMAP messages

They were left as whatever bytes an earlier database had at that place, so
that size searches selected IMAP messages at random.
---
 writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.c b/writer.c
index 4b37274..7bf37fe 100644
--- a/writer.c
+++ b/writer.c
@@ -358,7 +358,9 @@ static char *write_messages(struct database *db, struct write_map *map, unsigned
       case MTY_IMAP:
         slen = strlen(db->msgs[i].src.mpf.path);
         uidata[map->path_offset + i] = cdata - data;
+        uidata[map->mtime_offset + i] = 0; /* Not recorded for IMAP */
         uidata[map->date_offset + i] = db->msgs[i].date;
+        uidata[map->size_offset + i] = 0; /* Not recorded for IMAP */
         uidata[map->tid_offset + i]  = db->msgs[i].tid;
         memcpy(cdata, db->msgs[i].src.mpf.path, 1 + slen); /* include trailing null */
         cdata += (1 + slen);
-- 
2.43.0


From a8bdd3abf3d69578253f15c7f845610a8e5696a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:25 +0000
Subject: [PATCH 11/32] fix: an IMAP message that cannot be fetched is skipped

The result was left uninitialised when the server did not return the message,
and then used as a pointer.
---
 imapinterface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imapinterface.c b/imapinterface.c
index 2dcb4a9..d730f67 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -269,6 +269,7 @@ make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
+	s.r = NULL;
 	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	return s.r;
 }
-- 
2.43.0


From 65371517a678c32a3e2952b4cef8b49ff907e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:36 +0000
Subject: [PATCH 12/32] fix: path searches handle IMAP messages

p: aborted the search (leaving the lock behind) when the database contained
an IMAP message.
---
 search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search.c b/search.c
index 88728a0..8803c9a 100644
--- a/search.c
+++ b/search.c
@@ -308,6 +308,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
-- 
2.43.0


From 82485a0e08b659c0b28fbd4c3eaafd3f47c4ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:45 +0000
Subject: [PATCH 13/32] fix: a path search combined with other keys keeps their
 matches

With p among several keys (e.g. sp:word) the result of the path match replaced
the matches already found in the other parts of the message.
---
 search.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/search.c b/search.c
index 8803c9a..96029de 100644
--- a/search.c
+++ b/search.c
@@ -292,7 +292,7 @@ static void match_substring_in_table(struct read_db *db, struct toktable_db *tt,
 static void match_substring_in_paths(struct read_db *db, char *substring, int max_errors, int left_anchor, char *hits)/*{{{*/
 {
 
-  int i;
+  int i, got_hit;
   unsigned long a[256];
   unsigned long *r=NULL, *nr=NULL;
   unsigned long hit;
@@ -316,7 +316,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
         token = db->data + db->mbox_paths_table[mbix];
         break;
       case DB_MSG_DEAD:
-        hits[i] = 0; /* never match on dead paths */
+        /* never match on dead paths */
         goto next_message;
     }
 
@@ -326,21 +326,22 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        got_hit = substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        got_hit = substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        got_hit = substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        got_hit = substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        got_hit = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
+    if (got_hit) hits[i] = 1;
 next_message:
     (void) 0;
   }
-- 
2.43.0


From 7c53030e12420deb0f1ed219cd4c764e8ac22c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:36 +0000
Subject: [PATCH 14/32] fix: forget mbox entries that are no longer valid

When messages disappeared from the end of an mbox and none were added, the
number of messages kept for the mbox was not reduced, so a later run decided
whether the mbox was intact from start and length values that had never been
set.
---
 mbox.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbox.c b/mbox.c
index 49e973a..c3acad3 100644
--- a/mbox.c
+++ b/mbox.c
@@ -416,6 +416,9 @@ static void rescan_mbox(struct mbox *mb, char *va, size_t len)/*{{{*/
 
   /* Find the last message in the box that appears to be intact. */
   mb->n_old_msgs_valid = find_number_intact(mb, va, len);
+  /* Nothing is known about the others any more (only the live messages have
+   * their extents restored from the database). */
+  mb->n_msgs = mb->n_old_msgs_valid;
   mb->new_msgs = build_new_message_list(mb, va, len, &mb->n_new_msgs);
 }
 /*}}}*/
-- 
2.43.0


From 4d513e22880af62947ea41343fab6d78f18e09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 15/32] fix: notice changes to an mbox reached through a
 symbolic link

With follow_mbox_symlinks, the mtime and size of the link were compared, so
messages added to or removed from the mailbox behind it were never seen.
---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index c3acad3..ec67c8b 100644
--- a/mbox.c
+++ b/mbox.c
@@ -838,6 +838,8 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (verbose) {
           printf("%s is a link - skipping\n", path);
         }
+      } else if (S_ISLNK(sb.st_mode) && (stat(path, &sb) < 0)) {
+        /* dangling link */
       } else {
         extant_mboxen[n_extant].full_path = new_string(path);
         extant_mboxen[n_extant].mtime = sb.st_mtime;
-- 
2.43.0


From 91b9fad94a68aabd15348b02b625d27190342e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 16/32] fix: clear the entry of an mbox message that cannot be
 parsed

Its date and its seen/replied/flagged marks were left uninitialised and
written to the database.
---
 mbox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbox.c b/mbox.c
index ec67c8b..3f1b8b1 100644
--- a/mbox.c
+++ b/mbox.c
@@ -1009,6 +1009,7 @@ int add_mbox_messages(struct database *db)/*{{{*/
         maybe_grow_message_arrays(db);
         n = db->n_msgs;
         db->type[n] = MTY_MBOX;
+        memset(&db->msgs[n], 0, sizeof(struct msgpath));
         db->msgs[n].src.mbox.file_index = i;
         db->msgs[n].src.mbox.msg_index = j;
 
-- 
2.43.0


From c131338fa1268d49962c1d915f114bdff4a225f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 17/32] fix: release the lock on SIGTERM and SIGPIPE

'mairix -r ... | head' left the database locked.
---
 mairix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mairix.c b/mairix.c
index 025b212..22f5b63 100644
--- a/mairix.c
+++ b/mairix.c
@@ -708,6 +708,8 @@ int main (int argc, char **argv)/*{{{*/
   signal(SIGHUP, handlesig);
   signal(SIGINT, handlesig);
   signal(SIGQUIT, handlesig);
+  signal(SIGPIPE, handlesig);
+  signal(SIGTERM, handlesig);
 
   lock_database(database_path, do_forced_unlock);
 
-- 
2.43.0


From 9911adf617f32e02ef8fbc329cdabf761a5bd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 18/32] fix: forget the selected IMAP folder when another is
 selected

A SELECT or EXAMINE that fails leaves no folder selected on the server, but
the old one was still taken to be selected, so with one missing folder in the
imap list no message of the folder before it could be fetched.
---
 imap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 7167024..f8820e5 100644
--- a/imap.c
+++ b/imap.c
@@ -1263,6 +1263,9 @@ long exists = 0;
 		TLTYPE_STRING, foldername, foldername_len,
 		TLTYPE_END
 	);
+	/* Whether or not this succeeds, the server deselects the current folder. */
+	if (ll->selected_folder) free(ll->selected_folder);
+	ll->selected_folder = NULL;
 	result = imap_ll_command(ll, cmd, 40);
 	imap_ll_freeline(cmd);
 
@@ -1308,7 +1311,6 @@ long exists = 0;
 		return NULL;
 	}
 
-	if (ll->selected_folder) free(ll->selected_folder);
 	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = malloc(foldername_len);
 	if (ll->selected_folder) {
-- 
2.43.0


From 9b031887a7cc62ef0056fe28f8c822be2feb6243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 19/32] fix: deliver to an IMAP results folder that does not
 exist yet

APPEND needs no folder to be selected; selecting the results folder first
failed before the folder could be created, and the match was lost.
---
 imapinterface.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index d730f67..63d708a 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -381,7 +381,6 @@ imap_append_new_message(
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
 		imap_ll_append(flags, imap_ll_build(
-- 
2.43.0


From 048b1c7dcf8103c4143a0440f3567d519160c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 20/32] fix: do not crash when the IMAP server gives no
 response

---
 imap.c          | 9 ++++++++-
 imapinterface.c | 4 ++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/imap.c b/imap.c
index f8820e5..43a5747 100644
--- a/imap.c
+++ b/imap.c
@@ -838,6 +838,7 @@ imap_ll_append(struct imap_ll_tokenlist *list, struct imap_ll_tokenlist *item)
 const char *
 imap_ll_status(struct imap_ll_tokenlist *t)
 {
+	if (!t) return "BAD";	/* no response */
 	t = t->last->first;
 	if (!t) return "BAD";
 	if ((t->type) != TLTYPE_ATOM) return "BAD";
@@ -885,6 +886,11 @@ char buf2[256];
 	}
 	l = imap_ll_command(ll, cmd, 5);
         imap_ll_freeline(cmd);
+	if (!l) {
+		fprintf(stderr, "STARTTLS: no response from IMAP server\n");
+		SSL_free(ssl);
+		return IMAP_LL_STARTTLS_FAILED;
+	}
         status = imap_ll_status(l);
         if (0 == strcmp(status, "NO")) {
 		fprintf(stderr, "STARTTLS not accepted by server\n");
@@ -1046,9 +1052,10 @@ const char *close = NULL;
 static struct imap_ll_tokenlist *
 find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 {
-	for (l = l->first; l; l = l->next) {
+	for (l = l ? l->first : NULL; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
+			(l->first) &&
 			((l->first->type) == TLTYPE_ATOM) &&
 			(0 == strcmp(l->first->leaf, "CAPABILITY"))
 		) return l->first->next;
diff --git a/imapinterface.c b/imapinterface.c
index 63d708a..42d76c2 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -367,7 +367,7 @@ const char *actual_uidvalidity;
 
 	if (0 != strcmp(imap_ll_status(result), "OK")) {
 		fprintf(stderr, "unable to COPY message to folder \"%s\":\n", to_folder);
-		imap_ll_pprint(result, 0, stderr);
+		if (result) imap_ll_pprint(result, 0, stderr);
 	}
 	imap_ll_freeline(result);
 }
@@ -416,7 +416,7 @@ struct imap_ll_tokenlist *flags, *cmd, *result;
 
 	if (0 != strcmp(imap_ll_status(result), "OK")) {
 		fprintf(stderr, "unable to APPEND message to folder \"%s\":\n", folder);
-		imap_ll_pprint(result, 0, stderr);
+		if (result) imap_ll_pprint(result, 0, stderr);
 	}
 	imap_ll_freeline(result);
 }
-- 
2.43.0


From 016ae55f03636d5735093d0c66ac396f0e7b0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 21/32] fix: send IMAP strings with a backslash as literals

In a quoted string the server takes the backslash as an escape, so a password
or folder name with one did not reach it unchanged.
---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index 43a5747..72b5c85 100644
--- a/imap.c
+++ b/imap.c
@@ -549,6 +549,7 @@ char close = 0;
 				if (
 					(t->leaf[i] < 32) ||
 					(t->leaf[i] == 34) ||
+					(t->leaf[i] == 92) ||
 					(t->leaf[i] > 126)
 				) break;
 			}
-- 
2.43.0


From 7247fa48ff20ebe7eaf75748df57ae0b580685f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 22/32] fix: do not crash on an IMAP response of a single word

---
 imapinterface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/imapinterface.c b/imapinterface.c
index 42d76c2..bd86fee 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -105,10 +105,10 @@ long exists;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if ((!l2) || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;
 		uid = NULL;
 		deleted = 0;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
@@ -216,10 +216,10 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if ((!l2) || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;
 		got_uid = got_raw = NULL;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
 			if (l2->type != TLTYPE_ATOM) continue;
-- 
2.43.0


From 655b71b19edfb6dce2940637f9899c7a3b9c9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:11 +0000
Subject: [PATCH 23/32] fix: forget the lock once it is released

The final write to a slow reader happens after the lock is released; a
SIGPIPE or interrupt then removed the lock another run had taken since.
---
 dotlock.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dotlock.c b/dotlock.c
index 7f932a7..8b0e358 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -25,11 +25,22 @@
 #include <sys/types.h>
 #include <pwd.h>
 #include <unistd.h>
+#include <signal.h>
 
 static char *lock_file_name = NULL;
 
 /* This locking code was originally written for tdl */
 
+/* Hold back the signals that end the run, so that the handler never sees
+ * lock_file_name out of step with the lock file. */
+static void hold_signals(sigset_t *old)/*{{{*/
+{
+  sigset_t all;
+  sigfillset(&all);
+  sigprocmask(SIG_BLOCK, &all, old);
+}
+/*}}}*/
+
 void lock_database(char *path, int forced_unlock)/*{{{*/
 {
   struct utsname uu;
@@ -110,7 +121,14 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  if (lock_file_name) unlink(lock_file_name);
+  if (lock_file_name) {
+    sigset_t old;
+    hold_signals(&old);
+    unlink(lock_file_name);
+    /* From here on the file is somebody else's, if it exists. */
+    lock_file_name = NULL;
+    sigprocmask(SIG_SETMASK, &old, NULL);
+  }
   return;
 }
 /*}}}*/
-- 
2.43.0


From 20d04b78a6ddc64c8ee6cfa82225fe119c2d2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:25 +0000
Subject: [PATCH 24/32] fix: no signal between creating the lock and recording
 its name

A signal in that window left the lock file, or the temporary it is linked
from, behind.
---
 dotlock.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dotlock.c b/dotlock.c
index 8b0e358..b596679 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -50,6 +50,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   char *lname, *tname;
   struct stat sb;
   FILE *out;
+  sigset_t old;
 
   if (uname(&uu) < 0) {
     perror("uname");
@@ -77,6 +78,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   len += (10 + 2);
   tname = new_array(char, len);
   sprintf(tname, "%s.%d.%s", lname, pid, uu.nodename);
+  hold_signals(&old);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -115,6 +117,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   }
   lock_file_name = lname;
   unlink(tname);
+  sigprocmask(SIG_SETMASK, &old, NULL);
   free(tname);
   return;
 }
-- 
2.43.0


From cf5a4bb92501592ab4ef2f3dbbbef9f7df9c73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:40 +0000
Subject: [PATCH 25/32] fix: release the lock when an assertion fails

A database that fails the consistency checks left its lock file behind, so
every later run was refused.
---
 mairix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mairix.c b/mairix.c
index 22f5b63..2e8e938 100644
--- a/mairix.c
+++ b/mairix.c
@@ -449,6 +449,12 @@ static void handlesig(int signo)/*{{{*/
   unlock_and_exit(7);
 }
 /*}}}*/
+/* A failed assertion : give up the lock, then let abort() carry on. */
+static void handleabort(int signo)/*{{{*/
+{
+  unlock_database();
+}
+/*}}}*/
 static void usage(void)/*{{{*/
 {
   print_copyright();
@@ -710,6 +716,7 @@ int main (int argc, char **argv)/*{{{*/
   signal(SIGQUIT, handlesig);
   signal(SIGPIPE, handlesig);
   signal(SIGTERM, handlesig);
+  signal(SIGABRT, handleabort);
 
   lock_database(database_path, do_forced_unlock);
 
-- 
2.43.0


From d0874832aaaa3c5f1bc2fffda2b3b19fcd5f29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 26/32] fix: inode numbers only identify a file within one file
 system

A results folder on another file system whose inode number happened to be that
of an indexed folder was refused.
---
 mairix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 2e8e938..ee3e367 100644
--- a/mairix.c
+++ b/mairix.c
@@ -125,7 +125,8 @@ int member_of (const char *complete_mfolder,
     if (stat (complete_mfolder, &mfolder_sb) != 0 ||
         stat (paths[i], &src_folder_sb) != 0)
       continue;
-    if (mfolder_sb.st_ino == src_folder_sb.st_ino)
+    if (mfolder_sb.st_ino == src_folder_sb.st_ino &&
+        mfolder_sb.st_dev == src_folder_sb.st_dev)
       return 1;
   }
 
-- 
2.43.0


From a62be26d9987333c7c9bfdacdd7ca781086b2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:07 +0000
Subject: [PATCH 27/32] fix: refuse a file whose leading mark is only partly a
 database's

---
 reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.c b/reader.c
index 9e089cb..46cb8d3 100644
--- a/reader.c
+++ b/reader.c
@@ -205,8 +205,8 @@ struct read_db *open_db(char *filename)/*{{{*/
   result->data = data;
 
   /*{{{ Magic number check */
-  if (ucdata[0] == HEADER_MAGIC0 ||
-      ucdata[1] == HEADER_MAGIC1 ||
+  if (ucdata[0] == HEADER_MAGIC0 &&
+      ucdata[1] == HEADER_MAGIC1 &&
       ucdata[2] == HEADER_MAGIC2) {
     if (ucdata[3] != HEADER_MAGIC3) {
       fprintf(stderr, "Another version of this program produced the existing database!  Please rebuild.\n");
-- 
2.43.0


From faddb47ae2bf0af2323cb33a23428e1e64cd63e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:07 +0000
Subject: [PATCH 28/32] fix: refuse a database whose message type table lies
 outside the file

---
 reader.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/reader.c b/reader.c
index 46cb8d3..f25f893 100644
--- a/reader.c
+++ b/reader.c
@@ -238,10 +238,7 @@ struct read_db *open_db(char *filename)/*{{{*/
   /* Now build tables of where things are in the file */
   result->n_msgs = uidata[UI_N_MSGS];
   result->msg_type_and_flags = ucdata + uidata[UI_MSG_TYPE_AND_FLAGS];
-  if (0 && (
-    (result->msg_type_and_flags + result->n_msgs) >
-    (ucdata + len)
-  )) {
+  if ((size_t)uidata[UI_MSG_TYPE_AND_FLAGS] + (unsigned int)result->n_msgs > (size_t)len) {
 corrupt:
     fprintf(stderr, "Database is corrupt. Please rebuild.\n");
     unlock_and_exit(2);
-- 
2.43.0


From 6efa09c816da355f963d7c4bb1e4b1aa6897bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:07 +0000
Subject: [PATCH 29/32] fix: do not let a table bound of the database wrap
 around

---
 reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index f25f893..74534f5 100644
--- a/reader.c
+++ b/reader.c
@@ -229,7 +229,7 @@ struct read_db *open_db(char *filename)/*{{{*/
 
 #define GET_TABLE(dest, start_index, table_size) {\
   unsigned int table_offset = uidata[(start_index)];\
-  if ((table_offset + (table_size)) > uioffset_max) goto corrupt;\
+  if (((size_t)table_offset + (unsigned int)(table_size)) > uioffset_max) goto corrupt;\
   (dest) = uidata + table_offset;\
 }
 #define GET_MSG_TABLE(dest, start_index) GET_TABLE((dest), (start_index), result->n_msgs)
-- 
2.43.0


From 52d113c1f9684e9aaec4d0043c787ef199339640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:30 +0000
Subject: [PATCH 30/32] fix: do not unmap a decompressed mailbox that belongs
 to the cache

---
 rfc822.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc822.c b/rfc822.c
index 967434b..b31e5e3 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1333,6 +1333,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     if (ro) {
       *data = ro->map;
       *len = ro->len;
+      data_alloc_type = ALLOC_NONE; /* it belongs to the cache */
       return;
     }
 
-- 
2.43.0


From 87cc98a07111254ab4df95d795a6a41c98fc1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:47 +0000
Subject: [PATCH 31/32] fix: close the compressed mailbox when decompressing it
 fails

---
 rfc822.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index b31e5e3..5f6a238 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1324,8 +1324,8 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
 #if USE_GZIP_MBOX || USE_BZIP_MBOX || USE_XZ_MBOX
   if(cb == MAP_DECOMPRESS_IF_APPLICABLE && is_compressed(filename)) {
-    unsigned char *p;
-    size_t cur_read;
+    unsigned char *p = NULL;
+    int cur_read;
     struct ro_mapping *ro;
     FILE *tmpf;
 
@@ -1341,6 +1341,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
       fprintf(stderr, "Decompressing %s...\n", filename);
     }
 
+    zf = NULL;
     tmpf = tmpfile();
     if (!tmpf) {
       perror("tmpfile");
@@ -1353,7 +1354,11 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     }
     p = new_array(unsigned char, SIZE_STEP);
     cur_read = xx_zread(zf, p, SIZE_STEP);
-    if (fwrite(p, cur_read, 1, tmpf) != 1) {
+    if (cur_read < 0) {
+      fprintf(stderr, "Could not decompress %s\n", filename);
+      goto comp_error;
+    }
+    if (cur_read > 0 && fwrite(p, cur_read, 1, tmpf) != 1) {
       fprintf(stderr, "failed writing to temp file for %s\n", filename);
       goto comp_error;
     }
@@ -1362,7 +1367,11 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
       while(1) {
         int ret;
         cur_read = xx_zread(zf, p, SIZE_STEP);
-        if (cur_read <= 0)
+        if (cur_read < 0) {
+          fprintf(stderr, "Could not decompress %s\n", filename);
+          goto comp_error;
+        }
+        if (cur_read == 0)
           break;
         *len += cur_read;
         ret = fwrite(p, cur_read, 1, tmpf);
@@ -1373,7 +1382,9 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
       }
     }
     free(p);
+    p = NULL;
     xx_zclose(zf);
+    zf = NULL;
     /* Urgh.  So.  The existence/use of (global) data_alloc_type kind of
      * prevents this function from being re-entrant.  However, by
      * setting data_alloc_type here, *after* xx_zopen/zread/zclose, the
@@ -1398,6 +1409,9 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 comp_error:
     *data = NULL;
     *len = 0;
+    free(p);
+    if (zf)
+      xx_zclose(zf);
     if (tmpf)
       fclose(tmpf);
     return;
-- 
2.43.0


From 95bc1a7693cc8379b9f4e4896d69e02e710a6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:42 +0000
Subject: [PATCH 32/32] fix: a name that is no message does not make an
 unchanged database be rewritten

---
 db.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 1519683..da50a19 100644
--- a/db.c
+++ b/db.c
@@ -1016,13 +1016,13 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
   any_new = 0;
   for (i=0; i<n_msgs; i++) {
     if (!file_in_db[i]) {
-      any_new = 1;
       /* The 'sorted_paths' array is only used for file-per-message folders. */
       switch(do_stat(sorted_paths + i)) {
         case STAT_RESULT_FILE:
           /* We only add files that could be successfully stat()'d as regular
            * files. */
           add_msg_path(db, sorted_paths[i].src.mpf.path, sorted_paths[i].src.mpf.mtime, sorted_paths[i].src.mpf.size, sorted_paths[i].type);
+          any_new = 1;
           break;
         case STAT_RESULT_DIR:
           if (sorted_paths[i].source_ft == FT_MH) {
-- 
2.43.0

