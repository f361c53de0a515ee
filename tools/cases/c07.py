W="writer.c"; D="db.c"; R="reader.c"; M="mbox.c"
CASES=[
("C07","V",W,"      result += (1 + tab->tokens[i]->match0.n);\n    }\n  }\n  return result;\n}\n/*}}}*/\nstatic int toktable2","      result += tab->tokens[i]->match0.n;\n    }\n  }\n  return result;\n}\n/*}}}*/\nstatic int toktable2"),
("C07","V",W,"  map->mtime_offset = total, total += db->n_msgs;","  map->mtime_offset = total; total += db->n_mboxen;"),
("C07","V",W,"  int total = UI_HEADER_LEN;","  int total = UI_MSGID_BASE;"),
("C07","V",W,"  result += toktable_char_length(db->body);\n",""),
("C07","V",W,"    if (mb->path) {\n      result += (1 + strlen(mb->path));","    if (mb->path) {\n      result += strlen(mb->path);"),
("C07","V",W,"        result += sizeof(struct encoded_mbox_indices);","        result += sizeof(unsigned int);"),
("C07","V",W,"  map->msg_ids.enc1_offset = total, total += db->msg_ids->n;","  map->msg_ids.enc1_offset = total;"),
("C07","V",W,"    memcpy(cdata, stok[i]->text, 1 + slen);\n    cdata += (1 + slen);","    memcpy(cdata, stok[i]->text, 1 + slen);\n    cdata += slen;"),
("C07","V",W,"      result += (1 + tab->tokens[i]->match1.n);\n",""),
("C07","Q",W,"      result += (1 + strlen(tab->tokens[i]->text));\n      result += (1 + tab->tokens[i]->match0.n);\n    }\n  }\n  return result;\n}\n/*}}}*/\nstatic int toktable2","      result += 2 + strlen(tab->tokens[i]->text) + tab->tokens[i]->match0.n;\n    }\n  }\n  return result;\n}\n/*}}}*/\nstatic int toktable2"),
("C07","Q",W,"static int char_length(","static int slen1(const char *x) { return 1 + strlen(x); }\nstatic int char_length(",W,"        result += (1 + strlen(db->msgs[i].src.mpf.path));","        result += slen1(db->msgs[i].src.mpf.path);"),
("C07","Q",W,"  result += toktable_char_length(db->to);\n  result += toktable_char_length(db->cc);\n","  result += toktable_char_length(db->cc) + toktable_char_length(db->to);\n"),
("C07","Q",W,"    for (j=0; j<mb->n_msgs; j++) {\n      memcpy(cdata, mb->check_all[j], sizeof(checksum_t));\n      cdata += sizeof(checksum_t);\n    }","    memcpy(cdata, mb->check_all, mb->n_msgs * sizeof(checksum_t));\n    cdata += mb->n_msgs * sizeof(checksum_t);"),
("C07","Q",W,"  for (i=0; i<tab->size; i++) {\n    if (tab->tokens[i]) {\n      result += (1 + strlen(tab->tokens[i]->text));\n      result += (1 + tab->tokens[i]->match0.n);\n    }","  struct token **pp = tab->tokens, **pe = tab->tokens + tab->size;\n  for (; pp < pe; pp++) {\n    if (*pp) {\n      result += (1 + strlen((*pp)->text));\n      result += (1 + (*pp)->match0.n);\n    }"),
("C07","Q",W,"  map->path_offset  = total, total += db->n_msgs;\n","  total += 3; map->path_offset  = total, total += db->n_msgs;\n"),
]
