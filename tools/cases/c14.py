G="  compute_checksum((char *)start, *msg_len, &csum);\n  if (!memcmp((db->data + db->mbox_checksum_table[mbi] + (msgi * sizeof(checksum_t))), &csum, sizeof(checksum_t))) {\n    *msg_data = start;\n  } else {\n    had_failed_checksum = 1;\n  }\n"
REC="          start = mb->start[j] = here->start;\n          mb->len[j] = len;\n          compute_checksum((char *) va + here->start, len, &mb->check_all[j]);\n"
CASES = [
 ("C14","V","search.c","  *msg_data = NULL;\n  *msg_len = 0;\n","  *msg_data = NULL;\n  *msg_len = 0;\n  had_failed_checksum = 0;\n","search.c","  had_failed_checksum = 0;\n\n","  \n") if 0 else
 ("C14","V","search.c","    had_failed_checksum = 1;\n","    had_failed_checksum = 0;\n"),
 ("C14","V","search.c","  } else {\n    had_failed_checksum = 1;\n  }","  } else {\n    *msg_data = start;\n    had_failed_checksum = 1;\n  }"),
 ("C14","V","search.c",G,G.replace("&csum, sizeof(checksum_t))","&csum, sizeof(char *))")),
 ("C14","V","search.c",G,G.replace("mbox_checksum_table[mbi]","mbox_checksum_table[msgi]")),
 ("C14","V","search.c",G,G.replace("(msgi * ","(mbi * ")),
 ("C14","V","search.c",G,G.replace("  if (!memcmp","  *msg_len += 1;\n  if (!memcmp")),
 ("C14","V","search.c","  if (had_failed_checksum) {","  if (had_failed_checksum && verbose) {"),
 ("C14","V","search.c","  else if (db->mtime_table[msg_index] + db->size_table[msg_index] >= *mbox_len)\n    *msg_len = *mbox_len - db->mtime_table[msg_index];\n",""),
 ("C14","V","search.c",G,G.replace("    *msg_data = start;","    *msg_data = start;\n    *msg_len = db->size_table[msg_index] + 1;")),
 ("C14","V","mbox.c",REC,REC.replace("&mb->check_all[j]","&mb->check_all[j+1]")),
 ("C14","V","mbox.c",REC,REC.replace("mb->len[j] = len;","mb->len[j] = here->len;")),
 ("C14","V","mbox.c",REC,REC.replace("va + here->start, len,","va + here->start, here->len,")),
 ("C14","V","mbox.c",REC,REC.replace("va + here->start, len,","va + start, len > 4096 ? 4096 : len,")),
 ("C14","V","search.c","  get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);\n\n  if (start) {","  get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);\n\n  if (!start && data && msg_len) start = data + db->mtime_table[msg_index];\n  if (start) {"),
 ("C14","Q","search.c",G,"  compute_checksum((char *)start, *msg_len, &csum);\n  if (memcmp(&csum, (db->data + db->mbox_checksum_table[mbi] + (msgi * sizeof(checksum_t))), sizeof(checksum_t)) != 0) {\n    had_failed_checksum = 1;\n    return;\n  }\n  *msg_data = start;\n"),
 ("C14","Q","search.c","  if (db->mtime_table[msg_index] >= *mbox_len)\n    *msg_len = 0;\n  else if (db->mtime_table[msg_index] + db->size_table[msg_index] >= *mbox_len)\n    *msg_len = *mbox_len - db->mtime_table[msg_index];\n  else\n    *msg_len = db->size_table[msg_index];\n",
   "  {\n    int room = (db->mtime_table[msg_index] < *mbox_len) ? *mbox_len - (int) db->mtime_table[msg_index] : 0;\n    int want = db->size_table[msg_index];\n    *msg_len = (want < room) ? want : room;\n  }\n"),
 ("C14","Q","mbox.c",REC,"          start = here->start;\n          mb->start[j] = start;\n          compute_checksum((char *) (va + start), len, mb->check_all + j);\n          mb->len[j] = len;\n"),
 ("C14","Q","mbox.c","static struct msg_src *setup_msg_src(","static void record(struct mbox *mb, int j, unsigned char *va, off_t s, size_t n)\n{\n  mb->start[j] = s;\n  mb->len[j] = n;\n  compute_checksum((char *) va + s, n, &mb->check_all[j]);\n}\nstatic struct msg_src *setup_msg_src(",
   "mbox.c",REC,"          start = here->start;\n          record(mb, j, va, start, len);\n"),
 ("C14","Q","search.c","static int had_failed_checksum;\n","static int had_failed_checksum;\nstatic int sum_ok(struct read_db *db, unsigned int mbi, unsigned int msgi, checksum_t *c)\n{\n  const char *rec = db->data + db->mbox_checksum_table[mbi];\n  rec += msgi * sizeof(checksum_t);\n  return memcmp(rec, c, sizeof(checksum_t)) == 0;\n}\n",
   "search.c","  if (!memcmp((db->data + db->mbox_checksum_table[mbi] + (msgi * sizeof(checksum_t))), &csum, sizeof(checksum_t))) {","  if (sum_ok(db, mbi, msgi, &csum)) {"),
]
