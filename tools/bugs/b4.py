BUGS = [
 dict(id="c27-one-padding", property="C27", needs="base64 text whose last group ends in exactly one '='",
  breaks="a last base64 group with one '=' loses its second byte",
  edits=[("rfc822.c", "              if (eq < 2) *p++ = ((reg >> 8) & 0xff);", "              if (eq < 1) *p++ = ((reg >> 8) & 0xff);")],
  demo=r'''
rc maildir=in mfolder=vf
md in
n=0
for w in alpha alphab alphabe; do n=$((n+1))
  msg "$T/mail/in/new/$n" "s$n" "$(printf %s $w | base64)" "$(printf 'MIME-Version: 1.0\nContent-Type: text/plain\nContent-Transfer-Encoding: base64')"
done
mx || die index
for w in alpha alphab alphabe; do k=$(hits b:$w); [ "$k" = 1 ] || die "$w: $k messages"; done
'''),
 dict(id="c27-soft-break-blank", property="C27", needs="quoted-printable text with a blank between the last '=' and the end of the line",
  breaks="a line that ends in '=' and a tab or form feed is not joined to the next one",
  edits=[("rfc822.c", "    else if (!isspace(*(unsigned char *) result)) return NULL;", "    else if (*result != ' ' && *result != '\\r') return NULL;")],
  demo=r'''
rc maildir=in mfolder=vf
md in
qp=$(printf 'MIME-Version: 1.0\nContent-Type: text/plain\nContent-Transfer-Encoding: quoted-printable')
msg "$T/mail/in/new/1" one "$(printf 'break=\nfast')" "$qp"
msg "$T/mail/in/new/2" two "$(printf 'sun= \nrise')" "$qp"
msg "$T/mail/in/new/3" three "$(printf 'moon=\t\nlight')" "$qp"
mx || die index
for w in breakfast sunrise moonlight; do k=$(hits b:$w); [ "$k" = 1 ] || die "$w: $k messages"; done
'''),
]
