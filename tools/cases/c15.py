MT="                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime &&\n                    sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size) {"
WEED="        if (!file_in_new_list[i]) {\n          free(db->msgs[i].src.mpf.path);\n          db->msgs[i].src.mpf.path = NULL;\n          db->type[i] = MTY_DEAD;\n          ++n_newly_pruned;\n        }\n"
CASES = [
 ("C15","V","db.c",MT,"                if (sorted_paths[matched_index].src.mpf.mtime <= db->msgs[i].src.mpf.mtime &&\n                    sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size) {"),
 ("C15","V","db.c","          if (!mbox_valid || (msg_index >= number_valid)) {","          if (!mbox_valid || (msg_index > number_valid)) {"),
 ("C15","V","db.c","          if (!mbox_valid || (msg_index >= number_valid)) {","          if (mbox_valid && (msg_index >= number_valid)) {"),
 ("C15","V","db.c","  return any_new || (n_newly_pruned > 0);","  return any_new;"),
 ("C15","V","db.c","  return any_new || (n_newly_pruned > 0);","  return any_new || (n_newly_pruned > 1);"),
 ("C15","V","db.c","        if (matched_index >= 0) {\n          file_in_db[matched_index] = 1;\n          file_in_new_list[i] = 1;","        if (matched_index > 0) {\n          file_in_db[matched_index] = 1;\n          file_in_new_list[i] = 1;"),
 ("C15","V","db.c","  any_new |= add_mbox_messages(db);","  if (!any_new) any_new = add_mbox_messages(db);"),
 ("C15","V","db.c","  if (any_new) {\n    scan_new_messages(db, new_entries_start_at, imapc);","  if (any_new) {\n    scan_new_messages(db, new_entries_start_at + 1, imapc);"),
 ("C15","V","db.c","db->msgs[db->n_msgs].src.mpf.size = message_size;","db->msgs[db->n_msgs].src.mpf.size = mtime;"),
 ("C15","V","db.c","    if (len > 10 && !strcmp(","    if (len > 10 || !strcmp("),
 ("C15","V","db.c","    mp->src.mpf.mtime = sb.st_mtime;","    mp->src.mpf.mtime = sb.st_ctime;"),
 ("C15","V","db.c","  status = stat(mp->src.mpf.path, &sb);","  status = lstat(mp->src.mpf.path, &sb);"),
 ("C15","V","mairix.c","    if (any_updates || any_purges) {","    if (any_updates && any_purges) {"),
 ("C15","V","mbox.c","      if ((mb->current_mtime == mb->file_mtime) &&\n          (mb->current_size  == mb->file_size)) {","      if ((mb->current_mtime == mb->file_mtime)) {"),
 ("C15","V","mbox.c","      if ((mb->current_mtime == mb->file_mtime) &&\n          (mb->current_size  == mb->file_size)) {","      if ((mb->current_mtime == mb->file_mtime) ||\n          (mb->current_size  == mb->file_size)) {"),
 ("C15","V","mbox.c","  if (mb->start[idx] + mb->len[idx] > len) {","  if (mb->start[idx] > len) {"),
 ("C15","V","mbox.c","  if (mb->start[idx] + mb->len[idx] > len) {","  if (mb->start[idx] + mb->len[idx] >= len) {"),
 ("C15","V","mbox.c","    start_from = mb->start[N - 1] + mb->len[N - 1] + mmdf;","    start_from = mb->start[N - 1] + mmdf;"),
 ("C15","V","mbox.c","      next->len = len - start_pos;","      next->len = len - start_pos - 1;"),
 ("C15","V","mbox.c","          mb->n_old_msgs_valid = mb->n_msgs = 0;","          mb->n_old_msgs_valid = mb->n_msgs;"),
 ("C15","V","mbox.c","  mb->n_old_msgs_valid = find_number_intact(mb, va, len);","  mb->n_old_msgs_valid = find_number_intact(mb, va, len) + (mb->n_msgs > 50);"),
 ("C15","V","mbox.c","      mb->n_msgs = j;","      mb->n_msgs = mb->n_old_msgs_valid + mb->n_new_msgs;") if 0 else
 ("C15","V","mbox.c","      mb->n_msgs = j;","      mb->n_msgs = j - 1;"),
 ("C15","V","mbox.c","        db->msgs[n].src.mbox.msg_index = j;","        db->msgs[n].src.mbox.msg_index = j - mb->n_old_msgs_valid;"),
 ("C15","V","mbox.c","          mb->current_size  = extant_mboxen[idx].size;",""),
 ("C15","V","mbox.c","      for (j=mb->n_old_msgs_valid, here=mb->new_msgs; here; j++, here=next) {","      for (j=0, here=mb->new_msgs; here; j++, here=next) {"),
 ("C15","V","mbox.c","  mb->n_old_msgs_valid = 0;\n  mb->n_msgs = 0;\n\n  free(mb->path);\n  mb->path = NULL;","  mb->n_old_msgs_valid = 0;\n  mb->n_msgs = 0;\n"),
 # quiet
 ("C15","Q","db.c",MT,"                if (!(sorted_paths[matched_index].src.mpf.mtime != db->msgs[i].src.mpf.mtime ||\n                    db->msgs[i].src.mpf.size != sorted_paths[matched_index].src.mpf.size)) {"),
 ("C15","Q","db.c",WEED,"        if (file_in_new_list[i] == 0) kill_entry(db, i, &n_newly_pruned);\n","db.c","int update_database(struct database *db,","static void kill_entry(struct database *db, int i, int *n)\n{\n  db->type[i] = MTY_DEAD;\n  free(db->msgs[i].src.mpf.path);\n  db->msgs[i].src.mpf.path = NULL;\n  *n += 1;\n}\nint update_database(struct database *db,"),
 ("C15","Q","db.c","  return any_new || (n_newly_pruned > 0);","  if (n_newly_pruned) any_new = 1;\n  return any_new;"),
 ("C15","Q","db.c","  for (i=start_at; i<db->n_msgs; i++) {\n    struct rfc822 *msg = NULL;","  i = start_at;\n  for (; i != db->n_msgs; ++i) {\n    struct rfc822 *msg = NULL;"),
 ("C15","Q","db.c","          if (!mbox_valid || (msg_index >= number_valid)) {","          if (!(mbox_valid && (msg_index < number_valid))) {"),
 ("C15","Q","mbox.c","      if ((mb->current_mtime == mb->file_mtime) &&\n          (mb->current_size  == mb->file_size)) {\n        mb->n_old_msgs_valid = mb->n_msgs;\n      } else {","      if (mb->current_mtime != mb->file_mtime || mb->current_size != mb->file_size) {","mbox.c","          deaden_mbox(mb);\n        }\n      }\n    }\n  }\n\n  /* At","          deaden_mbox(mb);\n        }\n      } else {\n        mb->n_old_msgs_valid = mb->n_msgs;\n      }\n    }\n  }\n\n  /* At"),
 ("C15","Q","mbox.c","  if (mb->start[idx] + mb->len[idx] > len) {\n    /* Message overruns the end of the file - can't possibly be intact. */\n    return 0;\n  } else {","  if (mb->start[idx] + mb->len[idx] <= len) {"),
 ("C15","Q","mbox.c","      m = (h + l) >> 1;\n      if (m==l) break;\n      if (message_is_intact(mb, m, va, len)) {","      m = l + (h - l) / 2;\n      if (m==l) break;\n      if (message_is_intact(mb, m, va, len)) {"),
 ("C15","Q","mbox.c","    if (end_from == -1) {\n      /* message runs through to end of file. */\n      next->len = len - start_pos;\n    } else {\n      next->len = end_from - start_pos;\n    }","    next->len = ((end_from == -1) ? len : end_from) - start_pos;"),
 ("C15","Q","mbox.c","  N = mb->n_old_msgs_valid;\n  if (N == 0) {\n    start_from = 0;\n  } else {\n    start_from = mb->start[N - 1] + mb->len[N - 1] + mmdf;\n  }","  N = mb->n_old_msgs_valid;\n  start_from = 0;\n  if (N > 0) start_from = mb->start[N - 1] + mb->len[N - 1] + mmdf;"),
 ("C15","Q","db.c","            file_in_db[matched_index] = 1;\n            file_in_new_list[i] = 1;\n          } else {","            file_in_new_list[i] = file_in_db[matched_index] = 1;\n          } else {"),
 ("C15","Q","mairix.c","    if (any_updates || any_purges) {","    if (any_purges | any_updates) {"),
]
