S="search.c"
AND="""      /* AND-combine match vectors */
      for (i=0; i<db->n_msgs; i++) {
        if (negate) {
          hit1[i] &= !hit0[i];
        } else {
          hit1[i] &= hit0[i];
        }
      }
"""
OR="""        for (i=0; i<db->n_msgs; i++) {
          hit2[i] |= hit1[i];
        }
        memset(hit1, 1, db->n_msgs);
"""
CASES=[
("C16","V",S,"hit1[i] &= !hit0[i];","hit1[i] &= hit0[i];"),
("C16","V",S,"        memset(hit1, 1, db->n_msgs);\n      }","      }"),
("C16","V",S,"    memset(hit2, 0, db->n_msgs);\n",""),
("C16","V",S,"    memset(hit1, 1, db->n_msgs);\n\n    do_to",   "    do_to"),
("C16","V",S,"      string_tolower(lower_word);\n\n      memset(hit0, 0, db->n_msgs);\n","      string_tolower(lower_word);\n\n"),
("C16","V",S,"    if (do_date || do_size || do_flags) {\n      memset(hit0, 0, db->n_msgs);\n","    if (do_date || do_size || do_flags) {\n"),
("C16","V",S,"      string_tolower(lower_word);\n      memset(hit0, 0, db->n_msgs);\n","      string_tolower(lower_word);\n"),
("C16","V",S,"      hit3[i] &= hit2[i];","      hit3[i] = hit2[i];"),
("C16","V",S,"      hit3[i] &= hit2[i];","      hit3[i] |= hit2[i];"),
("C16","V",S,"      if (had_orsep) {","      if (had_orsep && !negate) {"),
("C16","V",S,"    for (i=0; i<db->n_msgs; i++) {\n      hit3[i] &= hit2[i];","    for (i=1; i<db->n_msgs; i++) {\n      hit3[i] &= hit2[i];"),
("C16","V",S,"        for (i=0; i<db->n_msgs; i++) {\n          hit2[i] |= hit1[i];","        for (i=0; i+1<db->n_msgs; i++) {\n          hit2[i] |= hit1[i];"),
("C16","V",S,"    /* OR-combine match vectors */\n    for (i=0; i<db->n_msgs; i++) {\n      hit2[i] |= hit1[i];","    /* OR-combine match vectors */\n    for (i=0; i<db->n_msgs; i++) {\n      hit2[i] = hit1[i];"),
("C16","V",S,"memset(hit3, 1, db->n_msgs);","memset(hit3, 0, db->n_msgs);"),
("C16","V",S,"        start_words = orsep + 1;\n        had_orsep = 1;","        start_words = orsep + 1;\n        had_orsep = 0;"),
("C16","V",S,"        start_words = andsep + 1;\n","        start_words = andsep + 1;\n        had_orsep = orsep != NULL;\n"),
# the end of the expression
("C16","Q",S,"      had_orsep = 0;\n","      had_orsep = 0;\n      had_more = 0;\n",S,"        had_orsep = 1;\n","        had_orsep = 1;\n        had_more = !*start_words;\n",S,"    do {\n      /* / =","    int had_more;\n    do {\n      /* / =",S,"    } while (*start_words);\n/*}}}*/","    } while (*start_words && !had_more);\n/*}}}*/"),
# quiet
("C16","Q",S,AND,"""      for (i=0; i<db->n_msgs; i++) {
        int hit = hit0[i];
        if (negate) hit = !hit;
        if (!hit) hit1[i] = 0;
      }
"""),
("C16","Q",S,OR,"""        for (i=0; i<db->n_msgs; i++) {
          if (hit1[i]) hit2[i] = 1;
          hit1[i] = 1;
        }
"""),
("C16","Q",S,"""    for (i=0; i<db->n_msgs; i++) {
      hit2[i] |= hit1[i];
    }

    /* AND-combine match vectors */
    for (i=0; i<db->n_msgs; i++) {
      hit3[i] &= hit2[i];
    }
  }""","""    for (i=db->n_msgs-1; i>=0; i--) {
      hit3[i] = hit3[i] && (hit1[i] || hit2[i]);
    }
  }"""),
("C16","Q",S,AND,"""      and_in(hit1, hit0, negate, db->n_msgs);
""",S,"static int do_search(struct read_db *db","""static void and_in(char *a, const char *b, int neg, int n)
{
  int k;
  for (k = 0; k < n; ++k) {
    a[k] &= neg ? !b[k] : b[k];
  }
}
static int do_search(struct read_db *db"""),
("C16","Q",S,"      if (word[0] == '~') {\n        negate = 1;\n        word++;\n      } else {\n        negate = 0;\n      }","      negate = (*word == '~');\n      word += negate;\n"),
("C16","Q",S,"  memset(hit3, 1, db->n_msgs);","  for (i = 0; i < db->n_msgs; i++) hit3[i] = 1;"),
("C16","Q",S,"      if (andsep && (!orsep || (andsep < orsep))) {","      if (andsep && !(orsep && orsep < andsep)) {"),
("C16","V",S,"      free(orig_word);\n\n","      free(orig_word);\n      if (negate && had_orsep) break;\n\n"),
("C16","V",S,"(andsep < orsep)","(andsep > orsep)"),
]
