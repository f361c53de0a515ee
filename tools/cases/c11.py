D="db.c"; S="search.c"; R="rfc822.c"; M="mbox.c"; W="writer.c"; I="imapinterface.c"
CASES=[
("C11","V",D,"case 'F': m->flagged = 1; break;","case 'F': m->replied = 1; break;"),
("C11","V",D,"          case 'S': m->seen = 1; break;\n",""),
("C11","V",D,"  m->replied = 0;\n",""),
("C11","V",D,'if (!strncmp(p, ":2,", 3)) {','if (!strncmp(p, ":2,", 1)) {'),
("C11","V",R,"case 'A': hdrs->flags.replied = 1; break;","case 'A': hdrs->flags.flagged = 1; break;"),
("C11","V",R,"      case 'F': hdrs->flags.flagged = 1; break;\n",""),
("C11","V",M,"db->msgs[n].replied = r8->hdrs.flags.replied;","db->msgs[n].replied = r8->hdrs.flags.seen;"),
("C11","V",M,"          db->msgs[n].flagged = r8->hdrs.flags.flagged;\n",""),
("C11","V",W,"    if (msgdata->flagged) cdata[i] |= FLAG_FLAGGED;","    if (msgdata->flagged) cdata[i] |= FLAG_REPLIED;"),
("C06","V",D,"result->msgs[i].flagged = (input->msg_type_and_flags[i] & FLAG_FLAGGED) ? 1:0;","result->msgs[i].flagged = (input->msg_type_and_flags[i] & FLAG_REPLIED) ? 1:0;"),
("C11","V",S,"(!neg_replied || !(db->msg_type_and_flags[i] & FLAG_REPLIED)) &&","(!neg_replied || (db->msg_type_and_flags[i] & FLAG_REPLIED)) &&"),
("C11","V",S,"        if (negate) neg_seen = 1;\n        else pos_seen = 1;\n        negate = 0;\n","        if (negate) neg_seen = 1;\n        else pos_seen = 1;\n"),
("C11","V",S,"      case 'r':\n      case 'R':\n        if (negate) neg_replied","      case 'R':\n        if (negate) neg_replied"),
("C11","V",S,'  if (is_replied) strcat(result, "R");','  if (is_replied && !is_flagged) strcat(result, "R");'),
("C11","V",S,'  if (is_flagged) strcat(result, "F");\n  if (is_replied) strcat(result, "R");','  if (is_replied) strcat(result, "R");\n  if (is_flagged) strcat(result, "F");'),
("C11","V",S,'  if (is_seen || is_replied || is_flagged) {','  if (is_seen || is_replied) {'),
("C11","V",S,"imap_append_new_message(imapc, output_path, data, len, is_seen, is_replied, is_flagged);","imap_append_new_message(imapc, output_path, data, len, is_seen, is_flagged, is_replied);"),
("C11","V",S,"*is_replied = (db->msg_type_and_flags[idx] & FLAG_REPLIED) ? 1 : 0;","*is_replied = (db->msg_type_and_flags[idx] & (FLAG_REPLIED|FLAG_SEEN)) ? 1 : 0;"),
("C11","V",I,"	if (answered) {","	if (flagged) {"),
# quiet
("C11","Q",D,"""        switch (*p) {
          case 'F': m->flagged = 1; break;
          case 'R': m->replied = 1; break;
          case 'S': m->seen = 1; break;
          default: break;
        }
        p++;""","""        const char c = *p++;
        if (c == 'S') m->seen = 1;
        else if (c == 'R') m->replied = 1;
        else if (c == 'F') m->flagged = 1;"""),
("C11","Q",D,"  m->seen = 0;\n  m->replied = 0;\n  m->flagged = 0;\n","  m->seen = m->replied = m->flagged = 0;\n"),
("C11","Q",R,"""    switch (*p) {
      case 'R': hdrs->flags.seen = 1; break;
      case 'A': hdrs->flags.replied = 1; break;
      case 'F': hdrs->flags.flagged = 1; break;
      default: break;
    }""","""    if (*p == 'R') hdrs->flags.seen = 1;
    if (*p == 'A') hdrs->flags.replied = 1;
    if (*p == 'F') hdrs->flags.flagged = 1;"""),
("C11","Q",W,"    if (msgdata->flagged) cdata[i] |= FLAG_FLAGGED;","    cdata[i] |= msgdata->flagged ? FLAG_FLAGGED : 0;"),
("C11","Q",S,"""    if ((!pos_seen || (db->msg_type_and_flags[i] & FLAG_SEEN)) &&
        (!neg_seen || !(db->msg_type_and_flags[i] & FLAG_SEEN)) &&
        (!pos_replied || (db->msg_type_and_flags[i] & FLAG_REPLIED)) &&
        (!neg_replied || !(db->msg_type_and_flags[i] & FLAG_REPLIED)) &&
        (!pos_flagged || (db->msg_type_and_flags[i] & FLAG_FLAGGED)) &&
        (!neg_flagged || !(db->msg_type_and_flags[i] & FLAG_FLAGGED))) {
      hits[i] = 1;
    }""","""    unsigned char fl = db->msg_type_and_flags[i];
    int seen = (fl & FLAG_SEEN) != 0, repl = (fl & FLAG_REPLIED) != 0, flg = (fl & FLAG_FLAGGED) != 0;
    if (pos_seen && !seen) continue;
    if (neg_seen && seen) continue;
    if (pos_replied && !repl) continue;
    if (neg_replied && repl) continue;
    if (pos_flagged && !flg) continue;
    if (neg_flagged && flg) continue;
    hits[i] = 1;"""),
("C11","Q",S,"""  if (is_seen || is_replied || is_flagged) {
    strcat(result, ":2,");
  }
  if (is_flagged) strcat(result, "F");""","""  if (is_flagged || is_seen || is_replied)
    strcat(result, ":2,");
  if (is_flagged) {
    strcat(result, "F");
  }"""),
("C11","Q",S,"""        if (negate) neg_seen = 1;
        else pos_seen = 1;
        negate = 0;
        break;
      case 'r':
      case 'R':
        if (negate) neg_replied = 1;
        else pos_replied = 1;
        negate = 0;
        break;""","""        *(negate ? &neg_seen : &pos_seen) = 1;
        negate = 0;
        break;
      case 'r':
      case 'R':
        if (!negate) pos_replied = 1;
        else neg_replied = 1;
        negate = 0;
        break;"""),
]
