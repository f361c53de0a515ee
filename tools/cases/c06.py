W="writer.c"; D="db.c"; R="reader.c"; M="mbox.c"
CASES=[
("C06","V",W,"uidata[map->size_offset + i] = db->msgs[i].src.mpf.size;","uidata[map->size_offset + i] = db->msgs[i].src.mpf.mtime;"),
("C06","V",R,"GET_MSG_TABLE(result->date_table, UI_MSG_DATE);","GET_MSG_TABLE(result->date_table, UI_MSG_TID);"),
("C06","V",D,"import_toktable(input, result->n_msgs, &input->cc, result->cc);","import_toktable(input, result->n_msgs, &input->from, result->cc);"),
("C06","V",D,"    result->msgs[i].tid   = input->tid_table[i];\n",""),
("C06","V",D,"result->mboxen[i].file_size  = input->mbox_size_table[i];","result->mboxen[i].file_size  = input->mbox_mtime_table[i];"),
("C06","V",M,"  *mb = encoded.mb;\n  *msg = encoded.msg;","  *msg = encoded.mb;\n  *mb = encoded.msg;"),
("C06","V",W,"        cdata[i] = DB_MSG_IMAP;","        cdata[i] = DB_MSG_FILE;"),
("C06","V",W,"memcpy(cdata, stok[i]->match1.msginfo, dlen);","memcpy(cdata, stok[i]->match0.msginfo, dlen);"),
("C06","V",W,"uidata[UI_CC_ENC] = map->cc.enc_offset;","uidata[UI_CC_ENC] = map->cc.tok_offset;"),
("C06","V",D,"    read_db_int_list_reader_init(&ilr, indb, in->enc1_offsets[i]);","    read_db_int_list_reader_init(&ilr, indb, in->enc0_offsets[i]);"),
("C06","V",W,"uidata[map->mbox_mtime_offset + i] = mb->current_mtime;","uidata[map->mbox_mtime_offset + i] = mb->file_mtime;"),
("C06","V",W,'        uidata[map->date_offset + i] = db->msgs[i].date;\n        uidata[map->size_offset + i] = 0; /* Not recorded for IMAP */\n        uidata[map->tid_offset + i]  = db->msgs[i].tid;\n        memcpy(cdata, db->msgs[i].src.mpf.path, 1 + slen); /* include trailing null */\n        cdata += (1 + slen);\n        break;\n      case MTY_MBOX','        uidata[map->size_offset + i] = 0; /* Not recorded for IMAP */\n        uidata[map->tid_offset + i]  = db->msgs[i].tid;\n        memcpy(cdata, db->msgs[i].src.mpf.path, 1 + slen); /* include trailing null */\n        cdata += (1 + slen);\n        break;\n      case MTY_MBOX'),
("C06","V",D,"  for (i=0; i<n; i++) {\n    switch (rd_msg_type(input, i)) {","  for (i=1; i<n; i++) {\n    switch (rd_msg_type(input, i)) {"),
("C06","V",D,"result->hash_key = input->hash_key;",";"),
# refactorings
("C06","Q",W,"  map->to.tok_offset = total, total += db->to->n;\n  map->to.enc_offset = total, total += db->to->n;\n","  map->to.tok_offset = total;\n  map->to.enc_offset = map->to.tok_offset + db->to->n;\n  total += 2 * db->to->n;\n"),
("C06","Q",W,"static void compute_mapping(","static int take(int *t, int k) { int r = *t; *t += k; return r; }\nstatic void compute_mapping(",W,"map->path_offset  = total, total += db->n_msgs;","map->path_offset = take(&total, db->n_msgs);"),
("C06","Q",W,"  map->date_offset  = total, total += db->n_msgs;\n  map->size_offset  = total, total += db->n_msgs;","  map->size_offset  = total, total += db->n_msgs;\n  map->date_offset  = total, total += db->n_msgs;"),
("C06","Q",D,"    result->msgs[i].date  = input->date_table[i];\n    result->msgs[i].tid   = input->tid_table[i];","    { struct msgpath *mp = &result->msgs[i]; mp->tid = input->tid_table[i]; mp->date = input->date_table[i]; }"),
("C06","Q",W,"    uidata[map->mbox_entries_offset + i] = mb->n_msgs;","    unsigned int *ent = uidata + map->mbox_entries_offset;\n    ent[i] = mb->n_msgs;"),
("C06","Q",W,"  for (i=0; i<n; i++) {\n    int slen;\n    uidata[map->tok_offset + i] = cdata - data;","  i = 0;\n  while (i < n) {\n    int slen;\n    uidata[map->tok_offset + i] = cdata - data;",W,"    cdata += (1 + slen);\n  }\n\n  mid_cdata","    cdata += (1 + slen);\n    i++;\n  }\n\n  mid_cdata"),
("C06","Q",D,"    switch (rd_msg_type(input, i)) {\n      case DB_MSG_DEAD:\n        result->type[i] = MTY_DEAD;\n        break;","    if (rd_msg_type(input, i) == DB_MSG_DEAD) {\n      result->type[i] = MTY_DEAD;\n    } else switch (rd_msg_type(input, i)) {"),
("C06","Q",W,"uidata[UI_N_MSGS] = db->n_msgs;",";",W,"  uidata[UI_HASH_KEY] = db->hash_key;","  uidata[UI_HASH_KEY] = db->hash_key;\n  uidata[UI_N_MSGS] = db->n_msgs;"),
]
