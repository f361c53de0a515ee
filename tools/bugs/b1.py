BUGS = [
 dict(id="c09-list-capacity", property="C09", needs="a word whose occurrences are so far apart that they take two bytes each, and enough of them that one straddles the end of the list's storage",
  breaks="the storage of a message list is only enlarged once it is full, so a two- or four-byte entry is written past its end",
  edits=[("tok.c","  if (m->n + 4 >= m->max) {","  if (m->n >= m->max) {")],
  demo=r'''
rc maildir=big mfolder=vf
md big
for i in $(seq 1 1500); do k=; [ $((i%130)) = 7 ] && k=zebra; printf 'Subject: s%s %s\n\nx\n' $((i%7)) "$k" > "$T/mail/big/new/m$(printf %06d $i)"; done
timeout 250 valgrind -q --error-exitcode=9 "$M" -f "$T/rc" >"$T/out" 2>"$T/err" || { head -20 "$T/err"; die "memory error while indexing"; }
n=$(hits s:zebra)
[ "$n" = 12 ] || die "expected 12 hits, got $n"
'''),
 dict(id="c01-date-error-exit", property="C01", needs="a search with a d: expression that cannot be parsed",
  breaks="the error for a malformed date range leaves the lock file behind, so every later run refuses to start",
  edits=[("search.c","    unlock_and_exit (2);","    exit (2);")],
  demo=r'''
rc maildir=in mfolder=vf
md in; msg "$T/mail/in/new/1" hello world
mx || die index
mx -r d:nonsense-date- && die "bad date accepted"
mx -r s:hello || die "later search fails: $(cat "$T/err")"
'''),
 dict(id="c05-mh-clear-digits", property="C05", needs="an MH results folder that also holds a file whose name starts with a digit but is not a message number",
  breaks="clearing an MH results folder removes files that are not numbered messages",
  edits=[("dirscan.c","      if ((p[0] == '.') && (p[1] == 0)) return 1;","      if ((p[0] == '.') && (p > x)) return 1;")],
  demo=r'''
rc maildir=in mfolder=vf mformat=mh
md in; msg "$T/mail/in/new/1" hello world
mx || die index
mkdir -p "$T/mail/vf"; echo keep > "$T/mail/vf/2015.notes"
mx s:hello
[ -f "$T/mail/vf/2015.notes" ] || die "unrelated file removed"
'''),
 dict(id="c06-checksums-short", property="C06", needs="an mbox with three or more messages that grows between two indexing runs",
  breaks="when the database is re-read for an update only part of each mailbox's message checksums is restored, so known messages look changed and are indexed again",
  edits=[("db.c","             nn * sizeof(checksum_t));","             (nn > 2 ? nn - 1 : nn) * sizeof(checksum_t));")],
  demo=r'''
mk() { { printf 'From alice@a.example Mon Jan  5 10:00:00 2015\n'; msg "$T/m" "$1" "$2"; cat "$T/m"; echo; } ; }
rc mbox=box mfolder=vf
{ mk apple one; mk banana two; mk cherry three; } > "$T/mail/box"
mx || die index
mk damson four >> "$T/mail/box"
touch -d '+1 minute' "$T/mail/box"
mx -v || die update
n=$(hits s:cherry); [ "$n" = 1 ] || die "cherry: $n"
n=$(hits s:damson); [ "$n" = 1 ] || die "damson: $n"
mx -d; n=$(grep -ci dead "$T/out"); [ "$n" = 0 ] || die "known messages were given up as changed: $(grep -i dead "$T/out" | head -3)"
'''),
 dict(id="c07-imap-dead-length", property="C07", needs="a mailbox file recorded in the database together with words that need its space: the name's terminating byte is not accounted for",
  breaks="one byte too few is reserved per mbox name, so the last posting list is written past the end of the file mapping",
  edits=[("writer.c","    if (mb->path) {\n      result += (1 + strlen(mb->path));","    if (mb->path) {\n      result += strlen(mb->path);")],
  demo=r'''
mk() { { printf 'From alice@a.example Mon Jan  5 10:00:00 2015\n'; msg "$T/m" "$1" "$2"; cat "$T/m"; echo; } ; }
boxes=
for i in $(seq 1 40); do mk "subj$i" "word$i" > "$T/mail/b$i"; boxes="$boxes:b$i"; done
rc "mbox=${boxes#:}" mfolder=vf
mx || die index
# the data must end exactly where the file ends: the last byte of the file is the end mark of the last list
mx -d >/dev/null; cp "$T/out" "$T/d1"
python3 - "$T/db" <<'PY' || die "last list not terminated inside the file"
import sys
d=open(sys.argv[1],'rb').read()
sys.exit(0 if d[-1]==0xff else 1)
PY
'''),
 dict(id="c08-nested-filename", property="C08", needs="a message with a nested message/rfc822 attachment that carries a file name",
  breaks="the text of an attached message with a file name is not indexed",
  edits=[("db.c","        if (a->data.rfc822) {","        if (a->data.rfc822 && !a->filename) {")],
  demo=r'''
rc maildir=in mfolder=vf
md in
cat > "$T/mail/in/new/1" <<'X'
From: a@a.example
Subject: outer
Date: Mon, 05 Jan 2015 10:00:00 +0000
MIME-Version: 1.0
Content-Type: multipart/mixed; boundary="bb"

--bb
Content-Type: text/plain

hello
--bb
Content-Type: message/rfc822; name="fwd.eml"
Content-Disposition: attachment; filename="fwd.eml"

From: zaphod@b.example
Subject: inner

heartofgold
--bb--
X
mx || die index
n=$(hits b:heartofgold); [ "$n" = 1 ] || die "expected 1, got $n"
n=$(hits n:fwd.eml); [ "$n" = 1 ] || die "expected 1 by name, got $n"
'''),
]
