def V(*a): return ("C24","V")+a
def Q(*a): return ("C24","Q")+a
R="reader.c"
GT="  if (((size_t)table_offset + (unsigned int)(table_size)) > uioffset_max) goto corrupt;\\\n"
MG="  if (ucdata[0] == HEADER_MAGIC0 &&\n      ucdata[1] == HEADER_MAGIC1 &&\n      ucdata[2] == HEADER_MAGIC2) {\n"
TT="  if ((size_t)uidata[UI_MSG_TYPE_AND_FLAGS] + (unsigned int)result->n_msgs > (size_t)len) {\n"
T1="  if (((char *)(&(toktable->tok_offsets[toktable->n]))) > file_end) {\n    return 0;\n  }\n"
T2="  if (((char *)(&(toktable->enc1_offsets[toktable->n]))) > file_end) {\n    return 0;\n  }\n"
T3="  if (((char *)(&(toktable->enc_offsets[toktable->n]))) > file_end) {\n    return 0;\n  }\n"
CASES=[
 V(R,MG,MG.replace("&&","||")),
 V(R,GT,GT.replace("(size_t)table_offset","table_offset")),
 V(R,GT,GT.replace("> uioffset_max","> uioffset_max + 1")),
 V(R,GT,GT.replace("> uioffset_max",">= uioffset_max")),
 V(R,GT,GT.replace("(unsigned int)(table_size)","0")),
 V(R,GT,""),
 V(R,TT,"  if (0) {\n"),
 V(R,TT,TT.replace("(size_t)len","4 * (size_t)len")),
 V(R,T1,""),
 V(R,T3,""),
 V(R,T2,""),
 V(R,T3,T3.replace("> file_end","> file_end + 4")),
 V(R,T3,T3.replace("enc_offsets[","tok_offsets[")),
 V(R,"    if (ucdata[3] != HEADER_MAGIC3) {","    if (ucdata[3] < HEADER_MAGIC3) {"),
 V(R,"    if (ucdata[3] != HEADER_MAGIC3) {\n      fprintf(stderr, \"Another version of this program produced the existing database!  Please rebuild.\\n\");\n      unlock_and_exit(2);","    if (ucdata[3] != HEADER_MAGIC3) {\n      fprintf(stderr, \"Another version of this program produced the existing database!  Please rebuild.\\n\");"),
 V(R,"  } else if (uidata[UI_ENDIAN] != 0x44332211) {","  } else if (uidata[UI_ENDIAN] == 0) {"),
 V(R,"  if (uidata[UI_ENDIAN] == 0x11223344) {","  if (0) {",R,"  } else if (uidata[UI_ENDIAN] != 0x44332211) {","  } else if (uidata[UI_ENDIAN] != 0x44332211 && uidata[UI_ENDIAN] != 0x11223344) {"),
 V(R,"  if (len < UC_HEADER_LEN) {","  if (len < UI_HEADER_LEN) {"),
 V(R,"  if (len < UC_HEADER_LEN) {","  if (len == 0) {"),
 V(R,"    read_toktable_db(data, len, &result->body, UI_BODY_BASE, uidata) &&\n","    (read_toktable_db(data, len, &result->body, UI_BODY_BASE, uidata), 1) &&\n"),
 V(R,"    report_error(\"reader:mmap\", filename);\n    unlock_and_exit(2);","    report_error(\"reader:mmap\", filename);\n    unlock_and_exit(0);"),
 V(R,"    fprintf(stderr, \"Database is corrupt. Please rebuild.\\n\");\n    unlock_and_exit(2);","    fprintf(stderr, \"Database is corrupt. Please rebuild.\\n\");"),
 V(R,"  GET_MSG_TABLE(result->tid_table, UI_MSG_TID);","  result->tid_table = uidata + uidata[UI_MSG_TID];"),
 V(R,"#define GET_MBOX_TABLE(dest, start_index) GET_TABLE((dest), (start_index), result->n_mboxen)","#define GET_MBOX_TABLE(dest, start_index) GET_TABLE((dest), (start_index), 0)"),
 V(R,"  uioffset_max = len / sizeof(unsigned int);","  uioffset_max = len;"),
 V(R,"  char *file_end = data + len;\n  toktable->n = uidata[start];\n  toktable->tok_offsets = uidata + uidata[start+1];\n  if (((char *)(&(toktable->tok_offsets[toktable->n]))) > file_end) {\n    return 0;\n  }\n  toktable->enc_offsets","  char *file_end = data + 4 * len;\n  toktable->n = uidata[start];\n  toktable->tok_offsets = uidata + uidata[start+1];\n  if (((char *)(&(toktable->tok_offsets[toktable->n]))) > file_end) {\n    return 0;\n  }\n  toktable->enc_offsets"),
 # quiet
 Q(R,T1,"  if (file_end < (char *)(toktable->tok_offsets + toktable->n)) return 0;\n"),
 Q(R,MG,"  if (memcmp(data, \"MX\\xa5\", 3) == 0) {\n"),
 Q(R,MG,"  if (!(ucdata[0] != HEADER_MAGIC0 || ucdata[1] != HEADER_MAGIC1 || ucdata[2] != HEADER_MAGIC2)) {\n"),
 Q(R,"  /* {{{ Endianness check */\n  if (uidata[UI_ENDIAN] == 0x11223344) {","  switch (uidata[UI_ENDIAN]) { case 0x44332211: break; default:\n  if (uidata[UI_ENDIAN] == 0x11223344) {",R,"    unlock_and_exit(2);\n  }\n  /* }}} */","    unlock_and_exit(2);\n  }\n  }\n  /* }}} */"),
 Q(R,"struct read_db *open_db(char *filename)/*{{{*/","static int inside(unsigned int start, unsigned int n, size_t max)\n{\n  return n <= max && start <= max - n;\n}\nstruct read_db *open_db(char *filename)/*{{{*/",R,GT,"  if (!inside(table_offset, table_size, uioffset_max)) goto corrupt;\\\n"),
]
