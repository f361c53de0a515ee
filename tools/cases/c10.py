S="search.c"; D="db.c"; M="mbox.c"
CASES=[
("C10","V",D,"matches_int_list_reader_init(&ilr, &(tok->match0));\n      int cur, first=1;","matches_int_list_reader_init(&ilr, &(tok->match1));\n      int cur, first=1;"),
("C10","V",D,"  for (m=0; m<sm; m++) {","  for (m=1; m<sm; m++) {"),
("C10","V",D,"            ix[new_base] = old_base;\n            new_base = old_base;","            ix[new_base] = old_base;"),
("C10","V",D,"            ix[old_base] = new_base;","            ix[new_base] = old_base;"),
("C10","V",D,"          if (old_base < new_base) {\n            ix[new_base] = old_base;","          if (old_base < new_base) {"),
("C10","V",D,"          } else if (old_base > new_base) {","          } else if (old_base > new_base + 1) {"),
("C10","V",D,"db->msgs[i].tid = db->msgs[ix[i]].tid;","db->msgs[i].tid = next_tid++;"),
("C10","V",D,"db->msgs[i].tid = next_tid++;","db->msgs[i].tid = next_tid;"),
("C10","V",D,"    if (tok) {\n      struct int_list_reader ilr;","    if (tok && tok->match0.n > 2) {\n      struct int_list_reader ilr;"),
("C10","V",D,"  any_new |= add_mbox_messages(db);","  add_mbox_messages(db);"),
("C10","V",D,"  if (any_new) {\n    find_threading(db);","  if (any_new && n_msgs > 0) {\n    find_threading(db);"),
("C10","V",D,"    if (!file_in_db[i]) {\n      any_new = 1;","    if (!file_in_db[i]) {\n      any_new = (n_newly_pruned == 0);"),
("C10","V",M,"        any_new = 1;\n","        any_new = r8 ? 1 : 0;\n"),
("C10","V",S,"      if (tids[db->tid_table[i]]) {\n        hit3[i] = 1;","      if (tids[db->tid_table[i]]) {\n        hit3[i] = hit3[i];"),
("C10","V",S,"      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {\n        tids","      if (hit3[i] && rd_msg_type(db, i) == DB_MSG_FILE) {\n        tids"),
("C10","V",S,"    tids = new_array(char, max_tid + 1);","    tids = new_array(char, db->n_msgs);"),
("C10","V",S,"    memset(tids, 0, max_tid + 1);","    memset(tids, 0, max_tid);"),
("C10","V",S,"    memset(tids, 0, max_tid + 1);\n","    \n"),
("C10","V",S,"        tids[db->tid_table[i]] = 1;","        tids[db->tid_table[i ? i-1 : 0]] = 1;"),
("C10","V",S,"  if (show_threads) {/*{{{*/","  if (show_threads && !sort_by_date) {/*{{{*/"),
("C10","V",S,"    for (i=0; i<db->n_msgs; i++) {\n      if (tids[db->tid_table[i]]) {","    for (i=1; i<db->n_msgs; i++) {\n      if (tids[db->tid_table[i]]) {"),
("C10","V",D,"  while (table[a] != a) {\n    a = table[a];\n  }\n","  a = table[a];\n"),
("C10","Q",D,"""          if (old_base < new_base) {
            ix[new_base] = old_base;
            new_base = old_base;
          } else if (old_base > new_base) {
            assert(new_base != -1);
            ix[old_base] = new_base;
          }""","""          int lo = (old_base < new_base) ? old_base : new_base;
          int hi = (old_base < new_base) ? new_base : old_base;
          if (lo != hi) ix[hi] = lo;
          new_base = lo;"""),
("C10","Q",D,"""    if (ix[i] == i) {
      db->msgs[i].tid = next_tid++;
    } else {
      db->msgs[i].tid = db->msgs[ix[i]].tid;
    }""","""    db->msgs[i].tid = (ix[i] != i) ? db->msgs[ix[i]].tid : next_tid++;"""),
("C10","Q",D,"    if (tok) {\n      struct int_list_reader ilr;","    if (!tok) continue;\n    {\n      struct int_list_reader ilr;"),
("C10","Q",S,"      if (tids[db->tid_table[i]]) {\n        hit3[i] = 1;\n      }","      hit3[i] |= tids[db->tid_table[i]];"),
("C10","Q",S,"      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {\n        tids[db->tid_table[i]] = 1;\n      }","      if (rd_msg_type(db, i) == DB_MSG_DEAD) continue;\n      if (hit3[i]) tids[db->tid_table[i]] |= 1;"),
("C10","Q",D,"  if (any_new) {\n    find_threading(db);\n  } else {\n    if (verbose)","  if (any_new) {\n    find_threading(db);\n  }\n  else if (verbose) {\n    if (verbose)"),
("C10","Q",D,"""  /* Now make each entry point directly to its base */
  for (i=0; i<np; i++) {
    if (ix[i] != i) {
      /* Sure to work as we're going up from the bottom */
      ix[i] = ix[ix[i]];
    }
  }
""","""  for (i=0; i<np; i++) ix[i] = find_base(ix, i);
"""),
]
