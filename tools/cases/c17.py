CASES = [
 ("C17","V","search.c","start_cond = has_start ? (db->size_table[i] > start) : 1;","start_cond = has_end ? (db->size_table[i] > start) : 1;"),
 ("C17","V","search.c","  if (has_start && has_end) {\n    /* Allow user to put the endpoints in backwards */\n    if (start > end) {\n      int temp","  if (has_start && has_end && end > 0 && start < 1000000) {\n    if (start > end + 5000000) {\n      int temp"),
 ("C17","V","search.c","      time_t temp = start;\n      start = end;\n      end = temp;","      time_t temp = start;\n      start = end;\n"),
 ("C17","V","search.c","(db->date_table[i] < end  )","(db->date_table[i] <= start)"),
 ("C17","V","search.c","      case 'M':\n        result <<= 20;","      case 'M':\n        result *= 1000000;"),
 ("C17","V","search.c","      case 'K':\n","\n"),
 ("C17","V","search.c","    if (dash[1]) { /* dash","    if (dash[1] && !*has_start) { /* dash"),
 ("C17","V","search.c","  if (status) {\n    unlock_and_exit (2);\n  }\n\n  if (has_start && has_end) {","  if (status > 0) {\n    unlock_and_exit (2);\n  }\n\n  if (has_start && has_end) {"),
 ("C17","V","dates.c","case 'w': v *= 7*86400","case 'w': v *= 5*86400"),
 ("C17","V","dates.c","    if ((y % 4) == 0) {","    if ((y % 4) == 1) {"),
 ("C17","V","dates.c","  } else if (y < 70) {","  } else if (y < 60) {"),
 ("C17","V","dates.c","return ((x->tm_mon < m1) || ((x->tm_mon == m1) && (x->tm_mday < d)));","return ((x->tm_mon < m1) || ((x->tm_mon == m1) && (x->tm_mday > d)));"),
 ("C17","V","dates.c","      start_tm = end_tm;\n    }\n","    }\n"),
 ("C17","V","dates.c","          end->tm_mday = last_day(end->tm_mon, end->tm_year);\n        }\n        break;/*}}}*/","          end->tm_mday = last_day(m2, end->tm_year);\n        }\n        break;/*}}}*/"),
 ("C17","V","dates.c","{31,28,31,30,31,30,31,31,30,31,30,31}","{31,28,31,30,31,30,31,30,31,30,31,31}"),
 ("C17","V","dates.c",'"jul", 3)) return 7','"jul", 3)) return 6'),
 ("C17","V","dates.c","    if (hyphen > in) {\n      *has_start = 1;","    if (hyphen > in) {\n      *has_start = *has_end;"),
 ("C17","Q","dates.c","    if (hyphen > in) {","    if (in != hyphen) {"),
 ("C17","Q","dates.c","    if (hyphen+1 < nullchar) {","    if (hyphen[1] != 0) {"),
 ("C17","Q","search.c","    start_cond = has_start ? (db->size_table[i] > start) : 1;\n    end_cond   = has_end   ? (db->size_table[i] < end  ) : 1;\n    if (start_cond && end_cond) {\n      hits[i] = 1;\n    }","    if (has_start && db->size_table[i] <= start) continue;\n    if (has_end && db->size_table[i] >= end) continue;\n    hits[i] = 1;"),
 ("C17","Q","search.c","        result <<= 10;","        result *= 1024;"),
 ("C17","Q","dates.c","  if (mon != 1) {\n    return days[mon];\n  } else {","  if (mon == 0) return 31;\n  if (mon != 1) {\n    return days[mon];\n  } else {"),
 ("C17","V","datescan.nfa","        [04-9] ; [0-9]  -> out\n","        [4-9] ; [0-9]  -> out\n"),
 ("C17","V","datescan.nfa","        [3] ; [2-9] -> out","        [3] ; [3-9] -> out"),
 ("C17","V","datescan.nfa","        [1-9] ; <month:in->out> = DS_DM\n",""),
 ("C17","V","datescan.nfa","        <month:in->out> ; <ccyy:in->out> = DS_MY\n",""),
 ("C17","V","datescan.nfa","Abbrev A = [a-zA-Z]","Abbrev A = [a-z]"),
 ("C17","V","datescan.nfa","        [0-9] -> in, after_value","        [0-9] -> after_value"),
 ("C17","V","datescan.nfa","        [1-9] ; [0-9] ; [0-9] ; [0-9] -> out","        [12] ; [0-9] ; [0-9] ; [0-9] -> out"),
 ("C17","V","dates.c","datescan_char2tok[(int)*(unsigned char*)p]","datescan_char2tok[(int)*p]"),
 ("C17","Q","datescan.nfa","        [1-9] = DS_D\n        <day:in->out> = DS_D\n","        <day:in->out> = DS_D\n        [1-9] = DS_D\n"),
 ("C17","Q","dates.c","    token = datescan_char2tok[(int)*(unsigned char*)p];\n","    unsigned char b = *p;\n    token = datescan_char2tok[b];\n"),
]
