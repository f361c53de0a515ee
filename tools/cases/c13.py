SW="      case MTY_FILE:\n      case MTY_MBOX:\n      case MTY_IMAP:\n        new_idx[i] = j++;\n        break;\n      case MTY_DEAD:\n        new_idx[i] = -1;\n        any_culled = 1;\n        break;\n"
CR="      case MTY_DEAD:\n        break;\n      case MTY_FILE:\n      case MTY_MBOX:\n      case MTY_IMAP:\n        if (i > j) {\n          db->msgs[j] = db->msgs[i];\n          db->type[j]  = db->type[i];\n        }\n        j++;\n        break;\n"
T1="      recode_encoding(&tok->match0, new_idx);\n      if (tok->match0.n == 0) {"
T2="      recode_encoding(&tok->match0, new_idx);\n      recode_encoding(&tok->match1, new_idx);\n      if ((tok->match0.n == 0) && (tok->match1.n == 0)) {"
RE="  m->n = 0;\n  m->highest = 0;\n  m->msginfo = new_enc;\n\n  while (int_list_reader_read(&ilr, &idx)) {\n    n_idx = new_idx[idx];\n    if (n_idx >= 0) {"
CL="static void recode_toktable(struct toktable *tbl, int *new_idx)/*{{{*/\n{"
J="              } else {\n                j++;\n                j &= tbl->mask;\n              }\n            }\n            if (tbl->tokens[i]) {\n#if 0\n              fprintf(stderr, \"NOT moved <%s> from bucket %d (natural bucket %d)\\n\", tbl->tokens[i]->text, i, nat_bucket_i);\n#endif\n            }\n          }\n        }\n      }\n\n      if (!any_moved) break;\n      pass++;\n    }\n  }\n}\n/*}}}*/\nstatic void recode_toktable2"
W="            int j = nat_bucket_i;\n            while (j != i) {\n              if (!tbl->tokens[j]) {\n                /* put it here */\n#if 0\n                fprintf(stderr, \"Moved <%s> from bucket %d to %d (natural bucket %d)\\n\", tbl->tokens[i]->text, i, j, nat_bucket_i);\n#endif\n                tbl->tokens[j] = tbl->tokens[i];\n                tbl->tokens[i] = NULL;\n                any_moved = 1;\n                break;\n"+J
DEL="        free_token2(tok);\n        tbl->tokens[i] = NULL;\n        --tbl->n; /* Maintain number in use counter */\n        any_dead = 1;\n"
DEL1=DEL.replace("free_token2","free_token")
PB="      printf(\"Copying mbox[%d] to [%d], path=%s\\n\", i, j, db->mboxen[i].path);\n      j++;\n"
RN="    if (db->type[i] == MTY_MBOX) {\n      int old_idx = db->msgs[i].src.mbox.file_index;\n      assert(old_to_new[old_idx] != -1);\n      db->msgs[i].src.mbox.file_index = old_to_new[old_idx];\n    }\n"
M="    if (do_purge) {\n      any_purges = cull_dead_messages(db, do_integrity_checks);\n    }\n"
def V(*a): return ("C13","V")+a
def Q(*a): return ("C13","Q")+a
CASES = [
 V("db.c",SW,SW.replace("      case MTY_IMAP:\n","").replace("      case MTY_DEAD:","      case MTY_IMAP: new_idx[i] = j; break;\n      case MTY_DEAD:")),
 V("db.c",SW,SW.replace("new_idx[i] = -1;","new_idx[i] = 0;")),
 V("db.c",SW,SW.replace("        any_culled = 1;\n","")),
 V("db.c","  for (i=0, j=0; i<n_old; i++) {\n    switch (db->type[i]) {\n"+SW,"  for (i=0, j=1; i<n_old; i++) {\n    switch (db->type[i]) {\n"+SW),
 V("db.c",CR,CR.replace("          db->type[j]  = db->type[i];\n","")),
 V("db.c",CR,CR.replace("i > j","i > j + 1")),
 V("db.c",CR,CR.replace("      case MTY_IMAP:\n","").replace("        break;\n      case MTY_FILE","      case MTY_IMAP:\n        break;\n      case MTY_FILE",1)),
 V("db.c","  db->n_msgs = j;\n\n  free(new_idx);","  free(new_idx);"),
 V("db.c","  recode_toktable(db->attachment_name, new_idx);\n  recode_toktable2",  "  recode_toktable2"),
 V("db.c","  recode_toktable(db->body, new_idx);\n  recode_toktable(db->attach","  recode_toktable(db->to, new_idx);\n  recode_toktable(db->attach"),
 V("db.c",T2,T2.replace(" && (tok->match1.n == 0)","")),
 V("db.c",T2,T2.replace("&&","||")),
 V("db.c",T2,T2.replace("      recode_encoding(&tok->match1, new_idx);\n","")),
 V("db.c",T2,T2.replace("      recode_encoding(&tok->match1, new_idx);\n","      if (tok->match0.n) recode_encoding(&tok->match1, new_idx);\n")),
 V("db.c",RE,RE.replace("n_idx >= 0","n_idx > 0")),
 V("db.c",RE,RE.replace("  m->highest = 0;\n","")),
 V("db.c",RE,RE.replace("new_idx[idx]","new_idx[m->n]")),
 V("db.c","      insert_index_on_encoding(m, n_idx);\n    }\n  }\n  free(old_enc)","      insert_index_on_encoding(m, idx);\n    }\n  }\n  free(old_enc)"),
 V("db.c","  matches_int_list_reader_init(&ilr, m);\n\n  new_enc","  new_enc","db.c","  m->msginfo = new_enc;\n\n  while","  m->msginfo = new_enc;\n  matches_int_list_reader_init(&ilr, m);\n\n  while"),
 V("db.c",DEL,DEL.replace("        --tbl->n; /* Maintain number in use counter */\n","")),
 V("db.c",DEL,DEL.replace("        any_dead = 1;\n","")),
 V("db.c",W,W.replace("      if (!any_moved) break;\n      pass++;\n","      break;\n")),
 V("db.c",W,W.replace("      if (!any_moved) break;\n      pass++;\n","      if (!any_moved || (pass >= 2)) break;\n      pass++;\n")),
 V("db.c",W,W.replace("                j &= tbl->mask;\n","                if (j >= tbl->size) break;\n")),
 V("db.c",W,W.replace("                any_moved = 1;\n","")),
 V("db.c",W,W.replace("                tbl->tokens[i] = NULL;\n","")),
 V("db.c",W,W.replace("int j = nat_bucket_i;","int j = nat_bucket_i + 1;")),
 V("db.c",W,W.replace("while (j != i)","while (j < i)")),
 V("mbox.c",PB,PB.replace("      j++;\n","")),
 V("mbox.c",RN,RN.replace("= old_to_new[old_idx];\n    }","= old_to_new[i];\n    }")),
 V("mbox.c",RN,""),
 V("mbox.c",RN,RN.replace("db->type[i] == MTY_MBOX","db->type[i] == MTY_FILE")),
 V("mbox.c","  db->n_mboxen = db->max_mboxen = n_alive;","  db->max_mboxen = n_alive;"),
 V("mbox.c","      old_to_new[i] = j;\n","      old_to_new[j] = i;\n"),
 V("mbox.c","  if (n_alive == n) return;","  if (n_alive + 1 >= n) return;"),
 V("mairix.c",M,M.replace("any_purges = ","(void) ")),
 V("mairix.c",M,"", "mairix.c","    any_updates = update_database(",M+"    any_updates = update_database("),
 V("mairix.c","    if (any_updates || any_purges) {","    if (any_updates) {"),
 V("mairix.c",M,M.replace("(do_purge)","(do_purge && any_updates)")),
 V("mairix.c",M,M.replace("(do_purge)","(do_purge || any_updates)")),
 # ---- unchanged behaviour
 Q("db.c","    switch (db->type[i]) {\n"+SW+"    }\n","    if (db->type[i] == MTY_DEAD) {\n      any_culled = 1;\n      new_idx[i] = -1;\n      continue;\n    }\n    new_idx[i] = j;\n    ++j;\n"),
 Q("db.c","    switch (db->type[i]) {\n"+CR+"    }\n","    if (db->type[i] == MTY_DEAD) continue;\n    if (j != i) {\n      db->type[j] = db->type[i];\n      memcpy(&db->msgs[j], &db->msgs[i], sizeof(db->msgs[j]));\n    }\n    ++j;\n"),
 Q("db.c",T2,T2.replace("(tok->match0.n == 0) && (tok->match1.n == 0)","!tok->match0.n && !tok->match1.n")),
 Q("db.c",T2,T2.replace("(tok->match0.n == 0) && (tok->match1.n == 0)","tok->match0.n + tok->match1.n == 0")),
 Q("db.c",CL,"static int drop(struct toktable *tbl, int i)\n{\n  free_token(tbl->tokens[i]);\n  tbl->tokens[i] = NULL;\n  tbl->n--;\n  return 1;\n}\n"+CL,"db.c",DEL1,"        any_dead = drop(tbl, i);\n"),
 Q("db.c",W,W.replace("            while (j != i) {\n              if (!tbl->tokens[j]) {","            for (; j != i; j = (j + 1) & tbl->mask) {\n              if (tbl->tokens[j] == NULL) {").replace("                break;\n              } else {\n                j++;\n                j &= tbl->mask;\n              }","                break;\n              }")),
 Q("db.c",RE,RE.replace("    n_idx = new_idx[idx];\n    if (n_idx >= 0) {","    n_idx = new_idx[idx];\n    if (n_idx < 0) continue;\n    {")),
 Q("db.c","  recode_toktable(db->to, new_idx);\n  recode_toktable(db->cc, new_idx);\n  recode_toktable(db->from, new_idx);\n","  { struct toktable *tabs[3]; int k;\n  tabs[0] = db->to; tabs[1] = db->cc; tabs[2] = db->from;\n  for (k=0; k<3; k++) recode_toktable(tabs[k], new_idx); }\n"),
 Q("mairix.c",M,"    any_purges = do_purge ? cull_dead_messages(db, do_integrity_checks) : 0;\n"),
 Q("mbox.c",RN,"    struct msgpath *mp = db->msgs + i;\n    if (db->type[i] != MTY_MBOX) continue;\n    assert(old_to_new[mp->src.mbox.file_index] >= 0);\n    mp->src.mbox.file_index = old_to_new[mp->src.mbox.file_index];\n"),
 Q("mbox.c","  if (n_alive == n) return;","  if (!(n_alive < n)) return;"),
]
