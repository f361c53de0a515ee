def V(*a): return ("C25","V")+a
def Q(*a): return ("C25","Q")+a
M="mbox.c"; N="fromcheck.nfa"
LOOP="""  reg = fromtab[(int) '\\n'];
  hit = ~(1<<5);
  while (n < len) {
    c = va[n];
"""
LK="""    if (current_state < 0) {
      /* not matched */
      break;
    }
    if (fromcheck_attr"""
CASES=[
 V(M,"  fromtab[(int)(unsigned char)'m']  = ~(1<<4);","  fromtab[(int)(unsigned char)'m']  = ~(1<<3);"),
 V(M,"  fromtab[(int)(unsigned char)'r']  = ~(1<<2);","  fromtab[(int)(unsigned char)'r']  = fromtab[(int)(unsigned char)'R']  = ~(1<<2);"),
 V(M,"  reg = fromtab[(int) '\\n'];","  reg = ~0UL;"),
 V(M,"  fromtab[(int)(unsigned char)'\\n'] = ~(1<<0);","  fromtab[(int)(unsigned char)'\\n'] = fromtab[(int)(unsigned char)'\\r'] = ~(1<<0);"),
 V(M,"        return (n-4);\n      } else {","        return (n-5);\n      } else {"),
 V(M,"        goto scan_again;","        n += 5; goto scan_again;"),
 V(M,"        goto scan_again;","        return -1;"),
 V(M,"  hit = ~(1<<5);","  hit = ~(1<<4);"),
 V(M,"  while (n < len) {\n    c = va[n];\n    mask","  while (n < len - 1) {\n    c = va[n];\n    mask"),
 V(M,"  while (n < len) {\n    c = va[n];\n    mask","  while (n <= len) {\n    c = va[n];\n    mask"),
 V(M,"  n++; /* look beyond the space. */","  n += 2; /* look beyond the space. */"),
 V(M,"fromcheck_char2tok[(int)(unsigned char)p]","fromcheck_char2tok[(int)p]"),
 V(M,"  int current_state = 0;\n  int result = 0;","  static int current_state = 0;\n  int result = 0;"),
 V(M,"if (fromcheck_attr[current_state] == FROMCHECK_PASS) {","if (fromcheck_attr[current_state] != FROMCHECK_FAIL || p == '\\n') {"),
 V(M,"      result = 1; /* matched good separator */\n      break;","      result = 1; /* matched good separator */"),
 V(M,"  mmdftab[(int)(unsigned char)'\\n'] = 0xf11111;","  mmdftab[(int)(unsigned char)'\\n'] = 0xff1111;"),
 V(M,"  mmdftab[(int)(unsigned char)'\\1'] = 0x054320;","  mmdftab[(int)(unsigned char)'\\1'] = 0x554320;"),
 V(M,"  mmdftab[(int)(unsigned char)'\\1'] = 0x054320;","  mmdftab[(int)(unsigned char)'\\1'] = 0x054321;"),
 V(M,"  unsigned long state = mmdftab[(int) '\\n'] & 15;","  unsigned long state = 0;"),
 V(M,"    if(state == 15) {\n      return (n-4);","    if(state == 15) {\n      return (n-3);"),
 V(M,"? n + 5 : -1;","? n + 4 : -1;"),
 V(M,"n + 5 <= len && ! strncmp","! strncmp") if 0 else V(M,"? n + 5 : -1;","? n + 5 : n;"),
 V(M,"  while ((n < len) && (c != '\\n'));","  while ((n < len) && (c != '\\n') && (c != '\\r'));"),
 V(M,"      next->len = len - start_pos;","      next->len = len - start_from;"),
 V(M,"      next->len = end_from - start_pos;","      next->len = end_from - start_pos - 1;"),
 V(M,"      next->len = end_from - start_pos;","      next->len = end_from - start_from;"),
 V(M,"    if (end_from == -1) {\n      /* message runs","    if (end_from <= 0 || verbose) {\n      /* message runs"),
 V(M,"    next->start = start_pos;","    next->start = start_from;"),
 V(M,"    end_from = find_next_separator(start_pos, va, len);","    end_from = find_next_separator(start_pos + 1, va, len);"),
 V(M,"    start_from = end_from + mmdf;","    start_from = end_from;") if 0 else V(M,"    mmdf = 5;\n","    mmdf = 0;\n"),
 V(M,"mb->start[N - 1] + mb->len[N - 1] + mmdf;","mb->start[N - 1] + mmdf;"),
 V(M,"mb->start[N - 1] + mb->len[N - 1] + mmdf;","mb->start[N - 1] + mb->len[N - 1] + 5;"),
 V(M,"mb->start[N - 1] + mb->len[N - 1] + mmdf;","mb->start[N - 1] + mb->len[N] + mmdf;"),
 V(M,"          len = last->start + last->len - here->start;","          len = last->len;"),
 V(M,"          len = last->start + last->len - here->start;","          len = here->len + (last == here ? 0 : last->len);"),
 V(M,"            last = last->next; /* Try","            last = next; /* Try"),
 V(N,"        DIGIT ; DIGIT ; COLON ; DIGIT ; DIGIT ; WHITE -> after_time\n\n    # Allow either 1 or 2 words of timezone\n    STATE after_time\n        WHITE -> after_time\n        -> after_timezone\n        <zone:in->out> ; WHITE -> after_timezone\n","        DIGIT ; DIGIT ; COLON ; DIGIT ; DIGIT ; WHITE -> after_time\n\n    # Allow either 1 or 2 words of timezone\n    STATE after_time\n        WHITE -> after_time\n        <zone:in->out> ; WHITE -> after_timezone\n"),
 V(N,"        UPPER | LOWER -> zone2, out","        UPPER -> zone2, out"),
 Q(N,"        PLUSMINUS       -> before_date","        PERIOD       -> before_date"),
 V(N,"        DIGIT ; WHITE -> after_day\n        DIGIT ; DIGIT ; WHITE -> after_day\n\n    STATE after_day\n        WHITE -> after_day\n        # Accept","        DIGIT ; DIGIT ; WHITE -> after_day\n\n    STATE after_day\n        WHITE -> after_day\n        # Accept"),
 V(N,"                        -> before_date\n","") ,
 V(N,"Abbrev OTHER_EMAIL = [.!#$%&'*/=?^_`{|}~]","Abbrev OTHER_EMAIL = [.!#$%&'*/?^_`{|}~]"),
 V(N,"    STATE after_timezone_1\n        WHITE -> after_timezone_1\n        <zone:in->out> ; WHITE -> after_timezone\n","    STATE after_timezone_1\n        WHITE -> after_timezone_1\n"),
 V(N,"        UPPER ; LOWER ; LOWER ; WHITE -> after_weekday","        UPPER ; LOWER ; LOWER ; WHITE -> after_weekday, after_month"),
 # quiet
 Q(M,"  while (n < len) {\n    c = va[n];\n    mask = (unsigned long)(signed long) fromtab[(int)c];\n    reg = (reg << 1) | mask;","  for (;;) {\n    if (n >= len) break;\n    c = (unsigned char)va[n];\n    reg <<= 1;\n    mask = (signed long) fromtab[c];\n    reg |= mask;"),
 Q(M,"      if (looks_like_from_separator(n, va, len, 0)) {\n        return (n-4);\n      } else {","      int ok = looks_like_from_separator(n, va, len, 0);\n      if (ok) {\n        off_t where = n;\n        where -= 4;\n        return where;\n      } else {"),
 Q(M,"  while (n < len) {\n    p = va[n++];","  for (; n < len; ) {\n    p = va[n];\n    ++n;"),
 Q(M,"    if(state == 15) {\n      return (n-4);\n    }\n    n++;","    n++;\n    if(state == 15) {\n      return (n-5);\n    }"),
 Q(M,"  do {\n    c = va[n];\n    n++;\n  }\n  while ((n < len) && (c != '\\n'));","  while (1) {\n    c = va[n++];\n    if (n >= len) break;\n    if (c == '\\n') break;\n  }"),
 Q(M,"    if (end_from == -1) {\n      /* message runs through to end of file. */\n      next->len = len - start_pos;\n    } else {\n      next->len = end_from - start_pos;\n    }","    next->len = ((end_from == -1) ? (off_t) len : end_from) - start_pos;"),
 Q(M,"    if (end_from == -1) {\n      /* message runs through to end of file. */\n      next->len = len - start_pos;\n    } else {\n      next->len = end_from - start_pos;\n    }","    if (end_from >= 0) {\n      next->len = end_from - start_pos;\n    } else {\n      next->len = len - start_pos;\n    }"),
 Q(M,"  if(len > 10 && ! strncmp(va, \"\\1\\1\\1\\1\\n\", 5)) {","  if(len > 10 && ! memcmp(va, \"\\1\\1\\1\\1\\n\", 5)) {"),
 Q(M,"      if (looks_like_from_separator(n, va, len, 0)) {\n        return (n-4);\n      } else {","      if (!looks_like_from_separator(n, va, len, 0)) {\n        goto scan_again;\n      }\n      return n - 4;\n      {"),
 Q(M,"  if (N == 0) {\n    start_from = 0;\n  } else {\n    start_from = mb->start[N - 1] + mb->len[N - 1] + mmdf;\n  }","  start_from = 0;\n  if (N > 0) {\n    int k = N - 1;\n    start_from = mb->start[k] + mb->len[k];\n    start_from += mmdf;\n  }"),
 Q(M,"          len = last->start + last->len - here->start;","          len = (last->start - here->start) + last->len;"),
 Q(M,"  return n + 5 <= len && ! strncmp(va + n, \"\\1\\1\\1\\1\\n\", 5) ? n + 5 : -1;","  if (n + 5 > len) return -1;\n  if (strncmp(va + n, \"\\1\\1\\1\\1\\n\", 5) != 0) return -1;\n  return n + 5;"),
 Q(M,"  memset(fromtab, 0xff, 256);","  { int k; for (k = 0; k < 256; k++) fromtab[k] = ~0; }"),
 Q(M,"    result = 1; /* matched good separator */\n      break;","    result = 1; /* matched good separator */\n      return result;"),
]
