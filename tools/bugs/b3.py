BUGS = [
 dict(id="c25-zone-digits", property="C25", needs="a mailbox whose separator lines carry a numeric time zone (+0100)",
  breaks="a separator line with a numeric time zone is not recognised, so its message is taken for part of the one before",
  edits=[("fromcheck.nfa", "        UPPER | LOWER -> zone2, out\n        DIGIT         -> zone2, out\n", "        UPPER | LOWER -> zone2, out\n        DIGIT         -> zone2\n")],
  demo=r'''
rc mbox=box mfolder=vf
for z in "" " PST" " +0100" " MET DST"; do
  printf 'From alice@a.example Mon Jan  5 10:00:00%s 2015\n' "$z"; msg "$T/m" "apple$(echo $z | tr -dc A-Z0-9)" word; cat "$T/m"; echo
done > "$T/mail/box"
mx || die index
n=$(hits b:word); [ "$n" = 4 ] || die "$n of 4 messages"
[ "$(hits s:apple0100)" = 1 ] || die "message with +0100 not found"
'''),
 dict(id="c25-scan-resume", property="C25", needs="a line of a message that repeats 'From ' before what looks like the rest of a separator",
  breaks="after a line that begins with 'From ' but is no separator the search goes on as if a new line began in the middle of it",
  edits=[("mbox.c", "        goto scan_again;\n", "        n++;\n        goto scan_again;\n")],
  demo=r'''
rc mbox=box mfolder=vf
{ printf 'From alice@a.example Mon Jan  5 10:00:00 2015\n'; msg "$T/m" apple word; cat "$T/m"
  printf 'he wrote:\nFrom From alice@a.example Mon Jan  5 10:00:00 2015\nsuffix\n\n'
  printf 'From alice@a.example Mon Jan  5 10:00:00 2015\n'; msg "$T/m" banana word; cat "$T/m"; echo; } > "$T/mail/box"
mx || die index
n=$(hits b:word); [ "$n" = 2 ] || die "$n messages with word"
mx -r b:suffix; grep -q . "$T/out" || die "text behind not found"
[ "$(hits s:apple b:suffix)" = 1 ] || die "text behind is not part of its message"
'''),
 dict(id="c26-html-after-word", property="C26", needs="HTML text with a tag directly behind a word",
  breaks="in HTML text the byte behind a word is passed over, so a tag directly behind a word is taken for text",
  edits=[("db.c", "    *es = old_es;\n\n    if (!*es) break;\n    ss = es;\n  }\n}\n/*}}}*/\nvoid tokenise_message", "    *es = old_es;\n\n    if (!*es) break;\n    ss = es + 1;\n  }\n}\n/*}}}*/\nvoid tokenise_message")],
  demo=r'''
rc maildir=in mfolder=vf
md in
msg "$T/mail/in/new/1" apple 'alpha<zulu>beta <yankee>gamma</xray>' 'Content-Type: text/html'
mx || die index
for w in alpha beta gamma; do [ "$(hits b:$w)" = 1 ] || die "$w not found"; done
for w in zulu yankee xray; do [ "$(hits b:$w)" = 0 ] || die "$w found, a tag"; done
'''),
 dict(id="c26-adjacent-ids", property="C26", needs="a References header whose identifiers follow each other without a blank",
  breaks="an identifier that follows the one before without anything between them is passed over",
  edits=[("db.c", "      left = strchr(right, '<');\n", "      left = right[1] ? strchr(right + 2, '<') : NULL;\n")],
  demo=r'''
rc maildir=in mfolder=vf
md in
msg "$T/mail/in/new/1" apple one
msg "$T/mail/in/new/2" banana two
msg "$T/mail/in/new/3" cherry three 'References: <1@x><2@x>'
mx || die index
n=$(hits -t s:cherry); [ "$n" = 3 ] || die "$n of 3 messages of the thread"
'''),
 dict(id="c26-full-address", property="C26", needs="an address with a word character that is rare (a minus sign) searched as a whole",
  breaks="a minus sign ends a whole address when headers are indexed",
  edits=[("db.c", "0, 2, 0, 2, 2, 0, /* 20-2f */", "0, 2, 0, 0, 2, 0, /* 20-2f */")],
  demo=r'''
rc maildir=in mfolder=vf
md in
msg "$T/mail/in/new/1" apple one 'Cc: joe@some-where.example'
mx || die index
n=$(hits c:joe@some-where.example); [ "$n" = 1 ] || die "whole address not found"
'''),
 dict(id="c17-day-31", property="C17", needs="a date of the form with a day of 31",
  breaks="a day of 31 is refused in dates",
  edits=[("datescan.nfa", "        [3] ; [01]  -> out\n", "        [3] ; [0]  -> out\n")],
  demo=r'''
rc maildir=in mfolder=vf
md in
msg "$T/mail/in/new/1" apple one
mx || die index
for d in 31dec2014-6jan2015 2014dec31-6jan2015 dec31-2015dec31; do mx -r "d:$d"; rc=$?; [ $d = dec31-2015dec31 ] || { [ $rc = 0 ] && [ "$(grep -c . "$T/out")" = 1 ]; } || die "$d: $rc $(cat "$T/out" "$T/err")"; done
'''),
]
