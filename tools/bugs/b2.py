MK = r'''
mk() { printf 'From alice@a.example Mon Jan  5 10:00:00 2015\n'; msg "$T/m" "$1" "$2"; cat "$T/m"; echo; }
'''
BUGS = [
 dict(id="c13-renumber-mbox", property="C13", needs="three mailboxes of which the first is gone, then a purge and a search for a word of the last one",
  breaks="after a purge the messages of mailboxes behind the new number of mailboxes keep their old mailbox number",
  edits=[("mbox.c", "    if (db->type[i] == MTY_MBOX) {\n      int old_idx", "    if ((db->type[i] == MTY_MBOX) && (db->msgs[i].src.mbox.file_index < n_alive)) {\n      int old_idx")],
  demo=MK+r'''
rc mbox=a:b:c mfolder=vf
mk apple one > "$T/mail/a"; mk banana two > "$T/mail/b"; mk cherry three > "$T/mail/c"
mx || die index
rm -f "$T/mail/a"
mx -p || die purge
mx -r s:banana; grep -q 'mail/b ' "$T/out" || die "banana: $(cat "$T/out" "$T/err")"
mx -r s:cherry; grep -q 'mail/c ' "$T/out" || die "cherry: $(cat "$T/out" "$T/err")"
mx s:cherry || die search
grep -rq three "$T/mail/vf" || die "cherry not delivered"
'''),
 dict(id="c10-thread-base", property="C10", needs="a message id shared by three or more messages whose threads were so far separate, the later ones having the older threads",
  breaks="when threads are joined the thread found first stays the one compared against, so that an earlier joining is overwritten",
  edits=[("db.c", "            ix[new_base] = old_base;\n            new_base = old_base;\n", "            ix[new_base] = old_base;\n")],
  demo=r'''
rc maildir=in mfolder=vf
md in
for g in $(seq 1 40); do
  for m in a b; do msg "$T/mail/in/new/1$m$g" "g$g" x; done
  msg "$T/mail/in/new/2c$g" "g$g" x "In-Reply-To: <x$g@x>"
  msg "$T/mail/in/new/3d$g" "g$g" x "References: <1a$g@x> <x$g@x>"
  msg "$T/mail/in/new/3e$g" "g$g" x "References: <1b$g@x> <x$g@x>"
done
mx || die index
for g in $(seq 1 40); do n=$(hits -t "m:1a$g@x"); [ "$n" = 5 ] || die "thread $g: $n of 5 messages"; done
'''),
 dict(id="c14-fallback-length", property="C14", needs="an mbox with an unterminated multipart message that is not the last one",
  breaks="for a message whose end could not be found, the checksum covers all text up to the end of the mailbox, not the message that was recorded",
  edits=[("mbox.c", "          len = mb->len[j] = here->len;\n          compute_checksum((char *) va + here->start, len, &mb->check_all[j]);", "          mb->len[j] = here->len;\n          compute_checksum((char *) va + here->start, len, &mb->check_all[j]);\n          len = here->len;")],
  demo=MK+r'''
rc mbox=box mfolder=vf mformat=mbox
{ printf 'From alice@a.example Mon Jan  5 10:00:00 2015\nFrom: a@a.example\nSubject: broken\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary="zz"\n\n--zz\nContent-Type: text/plain\n\nhello part\n\n'
  mk second two; mk third three; } > "$T/mail/box"
mx || die index
mx s:broken || die "search"
grep -q '^Subject: broken' "$T/mail/vf" || die "indexed message not delivered: $(cat "$T/err")"
'''),
 dict(id="c15-mtime-or-size", property="C15", needs="a mailbox rewritten to exactly its old size, or with its old time stamp",
  breaks="a mailbox is taken for unchanged as soon as one of size and modification time is unchanged",
  edits=[("mbox.c", "      if ((mb->current_mtime == mb->file_mtime) &&\n", "      if ((mb->current_mtime == mb->file_mtime) ||\n")],
  demo=MK+r'''
rc mbox=box mfolder=vf
{ mk apple one; mk banana two; } > "$T/mail/box"
mx || die index
{ mk apple one; mk cherry two; } > "$T/mail/box"; touch -d '+1 minute' "$T/mail/box"
mx || die update
[ "$(hits s:cherry)" = 1 ] || die "new message not found"
[ "$(hits s:banana)" = 0 ] || die "old message still found"
'''),
 dict(id="c18-shrink-slack", property="C18", needs="a database that gets a little smaller, by less than a page",
  breaks="an existing database file is only shortened if that frees at least a page; otherwise it keeps bytes of its old contents at its end",
  edits=[("writer.c", "  } else if (sb.st_size > len) {", "  } else if (sb.st_size > len + 4096) {")],
  demo=r'''
rc maildir=in mfolder=vf
md in
for i in 1 2 3 4 5 6; do msg "$T/mail/in/new/$i" "subj$i" "some words $i"; done
mx || die index
rm -f "$T/mail/in/new/3" "$T/mail/in/new/4"
mx -p || die purge
s1=$(stat -c %s "$T/db")
cp "$T/rc" "$T/rc0"; sed -i "s#$T/db#$T/db2#" "$T/rc"
cp "$T/db" "$T/db2"; truncate -s 0 "$T/db2.tmp"
rm -f "$T/db2"; mx || die fresh
s2=$(stat -c %s "$T/db2")
[ "$s1" = "$s2" ] || die "purged database has $s1 bytes, a new one $s2"
'''),
 dict(id="c24-thread-table", property="C24", needs="a damaged database whose header places the thread table beyond the end of the file",
  breaks="the place of the thread table is taken from the header without looking whether the table lies in the file",
  edits=[("reader.c", "  GET_MSG_TABLE(result->tid_table, UI_MSG_TID);", "  result->tid_table = uidata + uidata[UI_MSG_TID];")],
  demo=r'''
rc maildir=in mfolder=vf
md in; for i in 1 2 3; do msg "$T/mail/in/new/$i" "subj$i" "words $i"; done
mx || die index
mx -r s:subj1 || die search
python3 - "$T/db" <<'PY'
import struct, sys
d = bytearray(open(sys.argv[1], "rb").read())
t = 8      # UI_MSG_TID
struct.pack_into("<I", d, 4*t, len(d) // 4 - 1)
open(sys.argv[1], "wb").write(d)
PY
[ $? = 0 ] || die "cannot damage"
mx -r s:subj1; r=$?
[ $r = 2 ] && grep -qi corrupt "$T/err" || die "damaged database used (status $r)"
'''),
 dict(id="c20-wild-nothing", property="C20", needs="many wildcard entries that match nothing and a limit on open files",
  breaks="a directory in which a wildcard matches nothing is not closed",
  edits=[("mbox.c", "    closedir(d);\n    if (!had_matches) {\n", "    if (had_matches) {\n      closedir(d);\n    } else {\n")],
  demo=MK+r'''
l=; for i in $(seq 1 60); do mkdir "$T/mail/d$i"; l="$l:d$i/nothing*"; done
mk apple one > "$T/mail/zbox"
rc "mbox=${l#:}:z*" mfolder=vf
( ulimit -n 40; mx ) || die "index: $(tail -3 "$T/err")"
[ "$(hits s:apple)" = 1 ] || die "message not found"
'''),
 dict(id="c16-negated-alternative", property="C16", needs="an argument with a negated alternative that is not the last one",
  breaks="after a negated alternative the next one starts from 'no message' instead of 'all messages'",
  edits=[("search.c", "        memset(hit1, 1, db->n_msgs);\n      }\n\n      free(orig_word);", "        memset(hit1, !negate, db->n_msgs);\n      }\n\n      free(orig_word);")],
  demo=r'''
rc maildir=in mfolder=vf
md in; msg "$T/mail/in/new/1" apple one; msg "$T/mail/in/new/2" banana two; msg "$T/mail/in/new/3" "apple cherry" three
mx || die index
[ "$(hits s:apple/banana)" = 3 ] || die "plain alternatives"
[ "$(hits s:~apple/cherry)" = 2 ] || die "negated alternative: $(hits s:~apple/cherry) of 2"
'''),
 dict(id="c17-day-today", property="C17", needs="a day number without a month that is today's",
  breaks="a day number equal to today's stands for that day of last month, not for today",
  edits=[("dates.c", "  if (y > x->tm_mday) {", "  if (y >= x->tm_mday) {")],
  demo=r'''
rc maildir=in mfolder=vf
md in
{ printf 'From: a@a.example\nSubject: today\nDate: %s\nMessage-ID: <1@x>\n\nx\n' "$(date -u '+%a, %d %b %Y 12:00:00 +0000')"; } > "$T/mail/in/new/1"
mx || die index
D=$(date -u +%-d)
[ "$(hits d:-$D)" = 1 ] || die "today's message not found by d:-$D"
'''),
 dict(id="c11-negate-sticks", property="C11", needs="a flag expression with a negated f before another letter",
  breaks="the minus before f also applies to the letters after it",
  edits=[("search.c", "        else pos_flagged = 1;\n        negate = 0;\n", "        else pos_flagged = 1;\n")],
  demo=r'''
rc maildir=in mfolder=vf
md in; msg "$T/mail/in/cur/1:2,S" apple one; msg "$T/mail/in/cur/2:2,FS" banana two; msg "$T/mail/in/cur/3:2," cherry three
mx || die index
mx -r F:-fs; [ "$(grep -c . "$T/out")" = 1 ] && grep -q 'cur/1:2,S' "$T/out" || die "F:-fs gives $(cat "$T/out")"
'''),
 dict(id="c12-mh-number", property="C12", needs="MH results holding a message of a mailbox followed by a file indexed later, with earlier messages that do not match",
  breaks="in MH results messages from mailboxes are numbered by their place in the index, so that two results can get the same number",
  edits=[("search.c", "              char *target_path = mk_mh_path(ii, output_path);\n              try_copy_to_path(db, i, target_path);", "              char *target_path = mk_mh_path(i, output_path);\n              try_copy_to_path(db, i, target_path);")],
  demo=MK+r'''
rc maildir=in mbox=box mfolder=vf mformat=mh
md in; msg "$T/mail/in/new/1" other zero; mk match one > "$T/mail/box"
mx || die index
msg "$T/mail/in/new/2" match two
mx || die update
mx s:match || die search
n=$(ls "$T/mail/vf" | grep -c '^[0-9][0-9]*$')
[ "$n" = 2 ] || die "$n of 2 results delivered"
'''),
 dict(id="c21-env-mboxen", property="C21", needs="MAIRIX_MBOXEN set together with an mbox line in the rc file",
  breaks="MAIRIX_MBOXEN does not override an mbox line of the rc file",
  edits=[("mairix.c", '  if ((e = getenv("MAIRIX_MBOXEN"))) {', '  if (!mboxen && (e = getenv("MAIRIX_MBOXEN"))) {')],
  demo=MK+r'''
rc mbox=a mfolder=vf
mk apple one > "$T/mail/a"; mk banana two > "$T/mail/b"
MAIRIX_MBOXEN=b mx || die index
[ "$(hits s:banana)" = 1 ] || die "mailbox of MAIRIX_MBOXEN not indexed"
[ "$(hits s:apple)" = 0 ] || die "mailbox of the rc file indexed"
'''),
 dict(id="c23-wild-link", property="C23", needs="a Maildir wildcard matching a symbolic link to a Maildir",
  breaks="a wildcard does not stand for folders reached through symbolic links",
  edits=[("mbox.c", "          if (stat(xpath, &xsb) >= 0) {", "          if (lstat(xpath, &xsb) >= 0) {")],
  demo=r'''
rc 'maildir=box*' mfolder=vf
md box1; md real; ln -s real "$T/mail/box2"
msg "$T/mail/box1/new/1" apple one; msg "$T/mail/real/new/1" banana two
mx || die index
[ "$(hits s:apple)" = 1 ] || die apple
[ "$(hits s:banana)" = 1 ] || die "linked folder not searched"
'''),
 dict(id="c22-uidvalidity-prefix", property="C22", needs="an IMAP folder recreated so that its new UIDVALIDITY starts with the digits of the old one",
  breaks="a message is fetched although the folder's UIDVALIDITY has changed, if the new value merely starts with the recorded one",
  edits=[("imapinterface.c", "\tif (\n\t\t(strlen(actual_uidvalidity) != uidvalidity_len) ||\n\t\t(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n\t) {\n\t\tfprintf(stderr, \"IMAP message \\\"%s\\\" cannot be loaded", "\tif (\n\t\t(strlen(actual_uidvalidity) < uidvalidity_len) ||\n\t\t(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n\t) {\n\t\tfprintf(stderr, \"IMAP message \\\"%s\\\" cannot be loaded")],
  files=["imapd.py"],
  demo=r'''
S="$T/srv"; mkdir -p "$S/in"; echo 12 > "$S/in/uidvalidity"; msg "$S/in/1" apple one
cp "$D/imapd.py" "$T/imapd.py"
rc imap=in "imap_pipe=python3 $T/imapd.py $S" mfolder=vf
mx || die "index: $(cat "$T/err")"
mx s:apple || die "search: $(cat "$T/err")"
find "$T/mail/vf" -type f | grep -q . || die "not delivered"
echo 123 > "$S/in/uidvalidity"; msg "$S/in/1" secret two
mx s:apple
find "$T/mail/vf" -type f | xargs -r grep -l secret | grep -q . && die "another message was delivered"
true
'''),
 dict(id="c03-truncate-link", property="C03", needs="mbox results configured at a path that is a symbolic link to a file outside the mail folders",
  breaks="old mbox results are emptied through a symbolic link, so the linked file loses its contents",
  edits=[("search.c", "static void clear_mbox_folder(char *path)/*{{{*/\n{\n  unlink(path);", "static void clear_mbox_folder(char *path)/*{{{*/\n{\n  if (truncate(path, 0) < 0) unlink(path);")],
  demo=r'''
rc maildir=in mfolder=vf mformat=mbox
md in; msg "$T/mail/in/new/1" hello world
mx || die index
echo precious > "$T/file"; ln -s "$T/file" "$T/mail/vf"
mx s:hello || die search
grep -q precious "$T/file" || die "a file outside the results was changed"
[ "$(wc -c < "$T/file")" = 9 ] || die "a file outside the results was written to"
'''),
 dict(id="c04-source-link", property="C04", needs="an indexed Maildir configured through a symbolic link and results configured to the folder itself",
  breaks="a results folder that is an indexed folder under another name is not recognised if the indexed one is named by a symbolic link",
  edits=[("mairix.c", "        stat (paths[i], &src_folder_sb) != 0)", "        lstat (paths[i], &src_folder_sb) != 0)")],
  demo=r'''
rc maildir=link mfolder=in
md in; ln -s in "$T/mail/link"; msg "$T/mail/in/new/1" hello world
mx || die index
mx s:hello; r=$?
[ $r != 0 ] || die "search into an indexed folder accepted"
[ -f "$T/mail/in/new/1" ] || die "mail removed"
[ "$(ls "$T/mail/in/new" "$T/mail/in/cur" | grep -vc ':$')" -le 2 ] || die "results written into mail"
'''),
]
