CASES = [
 ("C12","V","search.c","if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD)\n      results","if (hit3[i])\n      results"),
 ("C12","V","search.c","if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD)\n      results","if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD && !(db->msg_type_and_flags[i] & 0x20))\n      results"),
 ("C12","V","search.c","          case DB_MSG_FILE:\n          case DB_MSG_IMAP:\n            {\n              printf","          case DB_MSG_FILE:\n            {\n              printf"),
 ("C12","V","search.c","char *target_path = mk_mh_path(ii, output_path);\n              try_copy_to_path(db, i, target_path);","char *target_path = mk_mh_path(ii, output_path);\n              try_copy_to_path(db, ii, target_path);"),
 ("C12","V","search.c","char *target_path = mk_mh_path(ii, output_path);\n              create_symlink(db->data + db->path_offsets[i]","char *target_path = mk_mh_path(ii, output_path);\n              create_symlink(db->data + db->path_offsets[ii]"),
 ("C12","V","search.c","append_file_to_mbox(db->data + db->path_offsets[i], out);","if (db->size_table[i] > 0) append_file_to_mbox(db->data + db->path_offsets[i], out);"),
 ("C12","V","search.c","      case DB_MSG_FILE:\n      case DB_MSG_IMAP:\n        token =","      case DB_MSG_FILE:\n        token ="),
 ("C12","V","search.c","token = db->data + db->mbox_paths_table[mbix];","token = db->data + db->mbox_paths_table[msgix];"),
 ("C12","V","search.c","  return (n_hits == 0) ? 1 : 0;","  return (n_hits == 1) ? 0 : 1;"),
 ("C12","V","search.c","  fwrite(data, 1, len, fp);\n","  fwrite(data, 1, len - 1, fp);\n"),
 ("C12","V","search.c","sprintf(uniq_buf, \"123456789.%d.mairix\", token);","sprintf(uniq_buf, \"123456789.%d.mairix\", token / 2);"),
 ("C12","V","search.c","        for (ii=0; ii<n_hits; ii++) {\n          i = results[ii];\n          switch","        for (ii=0; ii<n_hits-1; ii++) {\n          i = results[ii];\n          switch"),
 ("C12","V","imapinterface.c","	s.r = NULL;",""),
 ("C12","V","search.c","fwrite (data, sizeof(unsigned char), len, out);\n    mbox_terminate","fwrite (data, sizeof(unsigned char), len-1, out);\n    mbox_terminate"),
 ("C12","V","search.c","imap_copy_message(imapc, db->data + db->path_offsets[i], output_path);","if (is_seen) imap_copy_message(imapc, db->data + db->path_offsets[i], output_path);"),
 ("C12","V","search.c","len   = db->size_table[i];\n              after_end = start + len;\n              decode","len   = db->size_table[i];\n              after_end = len;\n              decode"),
 ("C12","V","search.c","  start = *mbox_data + db->mtime_table[msg_index];","  start = *mbox_data + db->mtime_table[msg_index ? msg_index - 1 : 0];"),
 ("C12","V","search.c","if (parsed->hdrs.from)    printf(\"  From:       %s\\n\", parsed->hdrs.from);","if (parsed->hdrs.from)    printf(\"  From:       %s\\n\", parsed->hdrs.to);"),
 ("C12","Q","search.c","  for (i=0; i<db->n_msgs; i++)\n    if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD)\n      results[n_hits++] = i;","  for (i=0; i<db->n_msgs; i++) {\n    if (!hit3[i]) continue;\n    if (rd_msg_type(db, i) == DB_MSG_DEAD) continue;\n    results[n_hits] = i;\n    n_hits++;\n  }"),
 ("C12","Q","search.c","  return (n_hits == 0) ? 1 : 0;","  return !n_hits;"),
 ("C12","Q","search.c","      for (ii=0; ii<n_hits; ii++) {\n        i = results[ii];\n        switch (rd_msg_type(db, i)) {\n          case DB_MSG_FILE:\n          case DB_MSG_IMAP:","      for (ii=0; ii<n_hits; ii++) {\n        int kind;\n        i = results[ii];\n        kind = rd_msg_type(db, i);\n        if (kind == DB_MSG_DEAD) continue;\n        switch (kind) {\n          case DB_MSG_FILE:\n          case DB_MSG_IMAP:"),
 ("C12","Q","search.c","    case FT_RAW:/*{{{*/\n      for (ii=0; ii<n_hits; ii++) {","    case FT_RAW:/*{{{*/\n      for (ii=-1; ++ii<n_hits; ) {"),
]
