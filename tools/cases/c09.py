T="tok.c"; R="reader.c"; W="writer.c"; D="db.c"
CASES=[
("C09","V",T,"  } else if (val <= 16383) {","  } else if (val <= 32767) {"),
("C09","V",T,"  if (val <= 127) {","  if (val <= 128) {"),
("C09","V",R,"incr = ((x0 & 0x3f) << 24) +","incr = ((x0 & 0x1f) << 24) +"),
("C09","V",R,"    incr = ((x0 & 0x7f) << 8) + x1;","    incr = ((x0 & 0x1f) << 8) + x1;"),
("C09","V",T,"    *x++ = ((val >> 16) & 0xff);\n    *x++ = ((val >>  8) & 0xff);","    *x++ = ((val >>  8) & 0xff);\n    *x++ = ((val >> 16) & 0xff);"),
("C09","V",T,"    *x   = (val         & 0xff);\n    return 4;","    *x   = (val         & 0xff);\n    return 3;"),
("C09","V",T,"  if (m->n + 4 >= m->max) {","  if (m->n + 2 >= m->max) {"),
("C09","V",T,"  check_and_enlarge_encoding(&tok->match0);\n  insert_index_on_encoding(&tok->match0, file_index);\n  if (add_to_chain1) {\n    check_and_enlarge_encoding(&tok->match1);","  check_and_enlarge_encoding(&tok->match0);\n  insert_index_on_encoding(&tok->match0, file_index);\n  if (add_to_chain1) {\n    check_and_enlarge_encoding(&tok->match0);"),
("C09","V",D,"    if (n_idx >= 0) {\n      check_and_enlarge_encoding(m);","    if (n_idx >= 0) {"),
("C09","V",R,"    if ((ilr->pos + 4) > ilr->end) return 0;","    if ((ilr->pos + 8) > ilr->end) return 0;"),
("C09","V",R,"    if ((ilr->pos + 2) > ilr->end) return 0;\n",""),
("C09","V",R,"  out->msginfo = new_array(unsigned char, size);","  out->msginfo = new_array(unsigned char, out->n);"),
("C09","V",R,"  int size, index = 0; /* an empty list has no highest entry */","  int size, index;"),
("C09","V",T,"      int increment = idx - m->highest;\n","      int increment = idx - m->highest;\n      if (increment > 1) m->highest = idx - 1;\n      increment = idx - m->highest;\n"),
("C09","V",T,"    if (idx > m->highest) {","    if (idx > m->highest + 1) {"),
("C09","V",W,"    memcpy(cdata, stok[i]->match0.msginfo, dlen);\n    cdata += dlen;\n    *cdata++ = 0xff;","    memcpy(cdata, stok[i]->match0.msginfo, dlen);\n    cdata += dlen;\n    *cdata++ = 0;"),
("C09","V",T,"      m->max += (m->max >> 1);","      m->max += (m->max >> 3);"),
# quiet
("C09","Q",T,"""  if (m->n == 0) {
    /* Always encode value */
    m->n += insert_value(m->msginfo + m->n, idx);
  } else {
    assert(idx >= m->highest);
    if (idx > m->highest) {
      int increment = idx - m->highest;
      m->n += insert_value(m->msginfo + m->n, increment);
    } else {
      /* token has already been seen in this file */
    }
  }
  m->highest = idx;""","""  int len = 0;
  unsigned char *dst = m->msginfo + m->n;
  if (m->n != 0) {
    assert(idx >= m->highest);
    if (idx == m->highest) return;
    len = insert_value(dst, idx - m->highest);
  } else {
    len = insert_value(dst, idx);
  }
  m->highest = idx;
  m->n += len;"""),
("C09","Q",T,"""  if (val <= 127) {
    *x = val;
    return 1;
  } else if (val <= 16383) {
    *x++ = (val >> 8) | 0x80;
    *x   = (val & 0xff);
    return 2;
  } else {
""","""  if (val < 0x80) {
    x[0] = (unsigned char) val;
    return 1;
  }
  if (val < 0x4000) {
    x[0] = 0x80 + (val >> 8);
    x[1] = val;
    return 2;
  }
  {
"""),
("C09","Q",R,"""  } else if ((x0 & 0xc0) == 0xc0) {
    /* 4 byte encoding */
    if ((ilr->pos + 4) > ilr->end) return 0;
    x1 = ilr->pos[1];
    x2 = ilr->pos[2];
    x3 = ilr->pos[3];
    incr = ((x0 & 0x3f) << 24) + (x1 << 16) + (x2 << 8) + x3;
    ilr->pos += 4;
  } else if (x0 & 0x80) {""","""  } else if (x0 >= 0xc0) {
    if (ilr->end - ilr->pos < 4) return 0;
    incr = (unsigned) (x0 & 0x3f) << 24;
    incr |= ilr->pos[1] << 16;
    incr |= ilr->pos[2] << 8;
    incr |= ilr->pos[3];
    ilr->pos += 4;
  } else if (x0 & 0x80) {"""),
("C09","Q",T,"""  if (m->n + 4 >= m->max) {
    if (m->max == 0) {
      m->max = 16;
    } else {
      m->max += (m->max >> 1);
    }
    m->msginfo = grow_array(unsigned char, m->max, m->msginfo);
  }""","""  int cap = m->max;
  if (m->n + 4 < cap) return;
  cap = cap ? cap + cap / 2 : 16;
  m->msginfo = grow_array(unsigned char, cap, m->msginfo);
  m->max = cap;"""),
("C09","Q",D,"""    if (n_idx >= 0) {
      check_and_enlarge_encoding(m);
      insert_index_on_encoding(m, n_idx);
    }""","""    if (n_idx < 0) continue;
    add_index(m, n_idx);""",D,"static void recode_encoding(","static void add_index(struct matches *mm, int k) { check_and_enlarge_encoding(mm); insert_index_on_encoding(mm, k); }\nstatic void recode_encoding("),
]
