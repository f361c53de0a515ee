def V(*a): return ("C27","V")+a
def Q(*a): return ("C27","Q")+a
R="rfc822.c"
HB="""          if (nc == 4) {
            *p++ = ((reg >> 16) & 0xff);
            if (eq < 2) *p++ = ((reg >> 8) & 0xff);
            if (eq < 1) *p++ = reg & 0xff;
            nc = reg = 0;
            if (eq) break;
"""
BB="""            if (nc == 4) {
              *p++ = ((reg >> 16) & 0xff);
              if (eq < 2) *p++ = ((reg >> 8) & 0xff);
              if (eq < 1) *p++ = reg & 0xff;
              nc = reg = 0;
              if (eq) goto done_base_64;
"""
def w(t,a,b):
    assert t.count(a)==1,a
    return (R,t,t.replace(a,b))
BQ="""            val =  hex_to_val(*q++) << 4;
            val += hex_to_val(*q++);
            *p++ = val;
"""
HQ="""          q++;
          val = hex_to_val(*q++) << 4;
          val += hex_to_val(*q++);
          *p++ = val;
"""
QL="""            q++;
            r = looking_at_ws_then_newline(q);
            if (r) {
              q = r + 1; /* Point into next line */
              continue;
            }
"""
CASES=[
 V(*w(HB,"eq < 2","eq < 1")), V(*w(BB,"eq < 1","eq < 2")), V(*w(BB,"reg >> 16","reg >> 15")),
 V(*w(HB,"            nc = reg = 0;\n","            nc = 0;\n")) if False else V(*w(HB,"            nc = reg = 0;\n","            reg = 0;\n")),
 V(*w(BB,"            if (nc == 4) {","            if (nc >= 3) {")),
 V(*w(BB,"if (eq < 2) *p++ = ((reg >> 8) & 0xff);","if (eq < 2) *p++ = ((reg >> 8) & 0x7f);")),
 V(R,"            reg <<= 6;\n            reg += dc;\n            nc++;\n            if (nc == 4) {\n              *p","            reg <<= 6;\n            reg = dc;\n            nc++;\n            if (nc == 4) {\n              *p"),
 V(R,"          if (dc >= 0) {\n            reg <<= 6;\n            reg += dc;\n            nc++;\n            if","          if (dc > 0) {\n            reg <<= 6;\n            reg += dc;\n            nc++;\n            if"),
 V(*w(BQ,"<< 4","<< 3")), V(*w(BQ,"            val += hex","            val = hex")), V(*w(HQ,"          val += hex_to_val(*q++);","          val += hex_to_val(*q);")),
 V(*w(QL,"q = r + 1","q = r")), V(*w(QL,"              continue;","              *p++ = '\\n'; continue;")),
 V(*w(QL,"looking_at_ws_then_newline(q)","(*q == '\\n' ? q : NULL)")) if False else V(*w(QL,"looking_at_ws_then_newline(q)","looking_at_ws_then_newline(q+1)")),
 V(R,"          *p++ = 0x20;","          *p++ = '_';"),
 V(R,"    case 'd':\n    case 'e':\n    case 'f':\n","    case 'd':\n    case 'e':\n"),
 V(R,"      return 10 + (x - 'A');","      return 9 + (x - 'A');"),
 V(R,"    else if (!isspace(*(unsigned char *) result)) return NULL;","    else if (*result != ' ') return NULL;"),
 V(R,'match_string("quoted-printable", p)','match_string("quoted", p) && 0'),
 V(R,"      result = ENC_BASE64;","      result = ENC_BINARY;"),
 V(R,"    case ENC_BINARY:\n    case ENC_NONE:","    case ENC_NONE:"),
 Q(*w(BB,"""              *p++ = ((reg >> 16) & 0xff);
              if (eq < 2) *p++ = ((reg >> 8) & 0xff);
              if (eq < 1) *p++ = reg & 0xff;
""","""              p[0] = reg >> 16; p++;
              if (eq <= 1) { *p = (reg / 1) >> 8; p++; if (eq == 0) { *p++ = reg; } }
""")),
 Q(R,"            reg <<= 6;\n            reg += dc;\n            nc++;\n            if (nc == 4) {\n              *p","            reg = (reg << 6) | dc;\n            if (++nc > 3) {\n              *p"),
 Q(*w(BQ,"""            val =  hex_to_val(*q++) << 4;
            val += hex_to_val(*q++);
            *p++ = val;
""","""            *p++ = (hex_to_val(q[0]) * 16) | hex_to_val(q[1]);
            q += 2;
""")),
 Q(*w(QL,"""              q = r + 1; /* Point into next line */
              continue;
            }
""","""              q = r; q++;
              continue;
            }
""")),
 Q(R,"          *p++ = 0x20;\n          q++;","          q++;\n          *p = ' '; p++;"),
 Q(R,"""         if (*result == '\\n')   return result;
    else if (!isspace(*(unsigned char *) result)) return NULL;
    else                        result++;
""","""    char c = *result;
    if (c == '\\n') break;
    if (c != ' ' && c != '\\t' && c != '\\r' && c != '\\f' && c != '\\v') return NULL;
    ++result;
"""),
 Q(R,"      return (x - '0');","      return x & 15;"),
 Q(R,"  } else {\n    for (p=e; *p && isspace(*(unsigned char *)p); p++) ;","  } else {\n    p = e;\n    while (isspace(*(unsigned char *)p)) p++;"),
]
