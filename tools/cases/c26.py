def V(*a): return ("C26","V")+a
def Q(*a): return ("C26","Q")+a
D="db.c"
TS="""  ss = data;
  for (;;) {
    while (*ss && !char_valid_p(*ss,match_mask)) ss++;
    if (!*ss) break;
    es = ss + 1;
    while (*es && char_valid_p(*es,match_mask)) es++;

    /* deal with token [ss,es) */
    old_es = *es;
    *es = '\\0';
    /* FIXME: Ought to do this by passing start and length - clean up later */
    add_token_in_file(file_index, hash_key, ss, table);
    *es = old_es;

    if (!*es) break;
    ss = es;
  }
"""
def ts(a,b):
    assert TS.count(a)==1,a
    return TS.replace(a,b)
HT="""    while (*ss && !char_valid_p(*ss, 1)) {
      if (*ss++ == '<') {
        /* Skip over HTML tag */
        while (*ss && (*ss != '>')) ss++;
      }
    }
    if (!*ss) break;

    es = ss + 1;
    while (*es && char_valid_p(*es, 1)) es++;

    /* deal with token [ss,es) */
    old_es = *es;
    *es = '\\0';
    /* FIXME: Ought to do this by passing start and length - clean up later */
    add_token_in_file(file_index, hash_key, ss, table);
    *es = old_es;

    if (!*es) break;
    ss = es;
"""
def ht(a,b):
    assert HT.count(a)==1,a
    return HT.replace(a,b)
AN="""    left = strchr(s, '<');
    while (left) {
      right = strchr(left, '>');
      if (right) {
        *right = '\\0';
        add_token2_in_file(file_index, hash_key, left+1, table, add_to_chain1);
        *right = '>'; /* restore */
      } else {
        break;
      }
      left = strchr(right, '<');
    }
"""
def an(a,b):
    assert AN.count(a)==1,a
    return AN.replace(a,b)
CASES=[
 V(D,TS,ts("    *es = old_es;\n","")),
 V(D,TS,ts("    ss = es;\n","    ss = es + 2;\n")),
 V(D,TS,ts("    es = ss + 1;","    es = ss + 2;")),
 V(D,TS,ts("    if (!*es) break;\n    ss = es;","    ss = es + 1;")),
 V(D,TS,ts("    es = ss + 1;\n    while","    es = ss + 1;\n    if (!*es) break;\n    while")),
 V(D,TS,ts("    add_token_in_file(","    if (es - ss > 1) add_token_in_file(")),
 V(D,TS,ts("    while (*es && char","    while (*es && es - ss < 3 && char")),
 V(D,TS,ts("while (*es && char_valid_p(*es,match_mask)","while (*es && char_valid_p(*es,1)")),
 V(D,TS,ts("while (*ss && !char_valid_p(*ss,match_mask)","while (*ss && !char_valid_p(*ss,1)")),
 V(D,TS,ts("while (*ss && !char_valid_p(*ss,match_mask)) ss++;","while (!char_valid_p(*ss,match_mask)) ss++;")),
 V(D,TS,ts("    *es = '\\0';\n","")),
 V(D,"0, 2, 0, 2, 2, 0, /* 20-2f */","0, 2, 0, 3, 2, 0, /* 20-2f */"),
 V(D,"0, 2, 0, 2, 2, 0, /* 20-2f */","0, 2, 0, 2, 0, 0, /* 20-2f */"),
 V(D,"0, 0, 0, 3, /* 50-5f */","0, 0, 0, 2, /* 50-5f */"),
 V(D,"  if (isalnum(xx)) return 1;","  if (isalnum(xx) && !(mask & 2)) return 1;"),
 V(D,"  if (isalnum(xx)) return 1;","  if (isalpha(xx)) return 1;"),
 V(D,HT,ht("      if (*ss++ == '<') {\n        /* Skip over HTML tag */\n        while (*ss && (*ss != '>')) ss++;\n      }","      ss++;")),
 V(D,HT,ht("(*ss != '>')","(*ss != '>') && (*ss != '\\n')")),
 V(D,HT,ht("*ss && (*ss != '>')","*ss != '>'")),
 V(D,HT,ht("    ss = es;\n","    ss = es + 1;\n")),
 V(D,HT,ht("    *es = old_es;\n","    *es = ' ';\n")),
 V(D,AN,an("left+1","left")),
 V(D,AN,an("      left = strchr(right, '<');","      left = strchr(right + 1, '<');\n      if (left) left = strchr(left + 1, '<');")),
 V(D,AN,an("        *right = '>'; /* restore */\n","")),
 V(D,AN,an("      left = strchr(right, '<');","      left = NULL;")),
 V(D,AN,an("'>');\n      if","' ');\n      if")),
 V(D,AN,an("left = strchr(right, '<')","left = strchr(left+1, '<')")),
 # same behaviour
 Q(D,AN,an("left = strchr(right, '<')","left = strchr(right + 1, '<')")),
 Q(D,AN,an("strchr(left, '>')","strchr(left + 1, '>')")),
 Q(D,AN,"""    char *q = s;
    while ((left = strchr(q, '<')) && (right = strchr(left, '>'))) {
      *right = 0;
      add_token2_in_file(file_index, hash_key, left+1, table, add_to_chain1);
      *right = '>';
      q = right;
    }
"""),
 Q(D,AN,"""    for (;;) {
      while (*s && *s != '<') s++;
      if (!*s) return;
      left = ++s;
      while (*s && *s != '>') s++;
      if (!*s) return;
      right = s;
      *right = 0;
      add_token2_in_file(file_index, hash_key, left, table, add_to_chain1);
      *right = '>';
    }
"""),
 Q(D,TS,"""  for (ss = data; *ss; ss = es) {
    if (!char_valid_p(*ss, match_mask)) { es = ss + 1; continue; }
    for (es = ss; *es && char_valid_p(*es, match_mask); es++);
    old_es = *es;
    *es = 0;
    add_token_in_file(file_index, hash_key, ss, table);
    *es = old_es;
  }
"""),
 Q(D,TS,ts("    if (!*es) break;\n    ss = es;","    if (!*es) break;\n    ss = es + 1;")),
 Q(D,TS,ts("while (*es && char","while (char")),
 Q(D,TS,ts("    *es = old_es;\n\n    if (!*es) break;","    *es = old_es;\n    if (old_es == 0) break;")),
 Q(D,TS,"""  int in = 0;
  char *p;
  es = NULL; (void) es;
  ss = data;
  for (p = data; ; p++) {
    int v = *p ? char_valid_p(*p, match_mask) : 0;
    if (v && !in) { ss = p; in = 1; }
    else if (!v && in) {
      old_es = *p;
      *p = 0;
      add_token_in_file(file_index, hash_key, ss, table);
      *p = old_es;
      in = 0;
    }
    if (!*p) break;
  }
"""),
 Q(D,"  if (isalnum(xx)) return 1;\n  else if (special_table[(unsigned int) xx] & mask) return 1;\n  else return 0;","  if (xx == '_') return 1;\n  if ((mask & 2) && (xx == '+' || xx == '-' || xx == '.' || xx == '@')) return 1;\n  return isalnum(xx) != 0;"),
 Q(D,"  if (isalnum(xx)) return 1;\n  else if (special_table[(unsigned int) xx] & mask) return 1;\n  else return 0;","  return isalnum(xx) || (special_table[xx] & mask);"),
 Q(D,HT,ht("      if (*ss++ == '<') {\n        /* Skip over HTML tag */\n        while (*ss && (*ss != '>')) ss++;\n      }","      if (*ss == '<') {\n        do { ss++; } while (*ss && *ss != '>');\n        if (*ss) ss++;\n      } else ss++;")),
 Q(D,TS,"""  int i = 0, j;
  while (data[i]) {
    if (!char_valid_p(data[i], match_mask)) { i++; continue; }
    j = i + 1;
    while (data[j] && char_valid_p(data[j], match_mask)) j++;
    old_es = data[j];
    data[j] = 0;
    add_token_in_file(file_index, hash_key, data + i, table);
    data[j] = old_es;
    i = j;
  }
  (void) ss; (void) es;
"""),
]
