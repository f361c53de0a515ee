D="db.c"; S="search.c"; R="rfc822.c"; M="mbox.c"; T="tok.c"
CASES=[
("C08","V",D,"tokenise_string(file_index, db->hash_key, db->cc, msg->hdrs.cc, 2);","tokenise_string(file_index, db->hash_key, db->to, msg->hdrs.cc, 2);"),
("C08","V",D,"db->from, msg->hdrs.from, 2);","db->from, msg->hdrs.from, 1);"),
("C08","V",D,"add_angled_terms(file_index, db->hash_key, db->msg_ids, 0, msg->hdrs.references);","add_angled_terms(file_index, db->hash_key, db->msg_ids, 1, msg->hdrs.references);"),
("C08","V",D,"          tokenise_message(file_index, db, a->data.rfc822);","          if (!a->filename) tokenise_message(file_index, db, a->data.rfc822); else tokenise_message(file_index + 1, db, a->data.rfc822);"),
("C08","V",D,"      case CT_TEXT_HTML:\n        tokenise_html_string(file_index, db->hash_key, db->body, a->data.normal.bytes);\n        break;\n",""),
("C08","V",D,"0, 2, 0, 2, 2, 0, /* 20-2f */","0, 2, 0, 2, 0, 0, /* 20-2f */"),
("C08","V",R,'match_string("cc:", x->text)','match_string("cc", x->text)'),
("C08","V",R,'!result->hdrs.in_reply_to && match_string("in-reply-to:", x->text)','!result->hdrs.in_reply_to && match_string("references:", x->text)'),
("C08","V",S,"if (do_subject) match_substring_in_table(db, &db->subject,","if (do_subject) match_substring_in_table(db, &db->body,"),
("C08","V",S,"if (do_att_name) match_string_in_table(db, &db->attachment_name, lower_word, hit0);",""),
("C08","V",S,"case 'a': do_to = do_cc = do_from = 1; break;","case 'a': do_to = do_cc = 1; break;"),
("C08","V",S,"do_body = do_subject = do_to = do_cc = do_from = 1;","do_body = do_subject = do_to = do_from = 1;"),
("C08","V",S,"read_db_int_list_reader_init(&ilr, db, tt->enc1_offsets[hit_tok]);","read_db_int_list_reader_init(&ilr, db, tt->enc0_offsets[hit_tok]);"),
("C08","V",S,"      mark_hits_in_table(db, tt, i, hits);\n    }\n  }\n}","      mark_hits_in_table(db, tt, i ? i-1 : 0, hits);\n    }\n  }\n}"),
("C08","V",M,"tokenise_message(n, db, r8);","tokenise_message(j, db, r8);"),
("C08","V",D,"tokenise_message(i, db, msg);","tokenise_message(start_at, db, msg);"),
("C08","V",S,"  for (i=0; i<tt->n; i++) {\n    token = get_db_token(db, tt->tok_offsets[i]);\n    if (token &&","  for (i=0; i<tt->n - 1; i++) {\n    token = get_db_token(db, tt->tok_offsets[i]);\n    if (token &&"),
# quiet
("C08","Q",D,"""  if (msg->hdrs.to) {
    tokenise_string(file_index, db->hash_key, db->to, msg->hdrs.to, 1);
    tokenise_string(file_index, db->hash_key, db->to, msg->hdrs.to, 2);
  }
  if (msg->hdrs.cc) {
    tokenise_string(file_index, db->hash_key, db->cc, msg->hdrs.cc, 1);
    tokenise_string(file_index, db->hash_key, db->cc, msg->hdrs.cc, 2);
  }
""","""  tokenise_addr(file_index, db, db->to, msg->hdrs.to);
  tokenise_addr(file_index, db, db->cc, msg->hdrs.cc);
""",D,"void tokenise_message(int file_index, struct database *db, struct rfc822 *msg)/*{{{*/\n{","""static void tokenise_addr(int fi, struct database *db, struct toktable *t, char *h)
{
  int m;
  if (!h) return;
  for (m=1; m<=2; m++)
    tokenise_string(fi, db->hash_key, t, h, m);
}
void tokenise_message(int file_index, struct database *db, struct rfc822 *msg)/*{{{*/
{"""),
("C08","Q",D,"    switch (a->ct) {\n      case CT_TEXT_PLAIN:\n        tokenise_string(file_index, db->hash_key, db->body, a->data.normal.bytes, 1);\n        break;\n      case CT_TEXT_HTML:","    if (a->ct == CT_TEXT_PLAIN) {\n        tokenise_string(file_index, db->hash_key, db->body, a->data.normal.bytes, 1);\n    } else switch (a->ct) {\n      case CT_TEXT_HTML:"),
("C08","Q",S,"""        switch(*p) {
          case 'b': do_body = 1; break;""","""        char kc = *p;
        if (kc == 'c') { do_cc = 1; continue; }
        if (kc == 'F') { do_flags = 1; continue; }
        switch(kc) {
          case 'b': do_body = 1; break;""",S,"          case 'c': do_cc = 1; break;\n","",S,"          case 'F': do_flags = 1; break;\n",""),
("C08","Q",S,"""  for (i=0; i<tt->n; i++) {
    token = get_db_token(db, tt->tok_offsets[i]);
    if (token && !strcmp(key, token)) {
      /* get all matching files */
      mark_hits_in_table(db, tt, i, hits);
    }
  }""","""  i = 0;
  while (i < tt->n) {
    token = get_db_token(db, tt->tok_offsets[i]);
    if (token) {
      int same = (strcmp(token, key) == 0);
      if (same) mark_hits_in_table(db, tt, i, hits);
    }
    i++;
  }"""),
("C08","Q",R,"""    if      (match_string("to:", x->text))
      copy_or_concat_header_value(&result->hdrs.to, x->text);
    else if (match_string("cc:", x->text))
      copy_or_concat_header_value(&result->hdrs.cc, x->text);
""","""    struct headers *h = &result->hdrs;
    int is_cc = match_string("cc:", x->text);
    if (is_cc)
      copy_or_concat_header_value(&h->cc, x->text);
    else if (match_string("to:", x->text))
      copy_or_concat_header_value(&h->to, x->text);
"""),
("C08","Q",S,"""        if (do_to) match_string_in_table(db, &db->to, lower_word, hit0);
        if (do_cc) match_string_in_table(db, &db->cc, lower_word, hit0);
        if (do_from) match_string_in_table(db, &db->from, lower_word, hit0);
""","""        struct { int on; struct toktable_db *t; } which[3] = { { do_to, &db->to }, { do_cc, &db->cc }, { do_from, &db->from } };
        int wi;
        for (wi=0; wi<3; wi++) if (which[wi].on) match_string_in_table(db, which[wi].t, lower_word, hit0);
"""),
]
