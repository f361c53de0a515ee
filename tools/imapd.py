#!/usr/bin/env python3
"""A tiny IMAP server on stdin/stdout for demonstrations: imapd.py DIR
DIR/<folder>/<uid> are messages (flags in <uid>.flags), DIR/<folder>/uidvalidity; DIR/log gets the commands."""
import os, re, sys
root = sys.argv[1]
inp, out = sys.stdin.buffer, sys.stdout.buffer
log = open(os.path.join(root, "log"), "a")


def send(*a):
    for x in a:
        out.write(x if isinstance(x, bytes) else x.encode())
    out.write(b"\r\n")
    out.flush()


def readcmd():
    """tokens of one command, literals read in"""
    toks = []
    while True:
        line = inp.readline()
        if not line:
            return None
        line = line.rstrip(b"\r\n")
        m = re.search(rb"\{(\d+)\+?\}$", line)
        body = line[:m.start()] if m else line
        toks += [re.sub(rb"\\(.)", rb"\1", t[1:-1]) if t[:1] == b'"' else t for t in re.findall(rb'"(?:[^"\\]|\\.)*"|\([^)]*\)|[^ ]+', body)]
        if not m:
            return toks
        toks.append(inp.read(int(m.group(1))))


def uids(f):
    return sorted(int(x) for x in os.listdir(os.path.join(root, f)) if x.isdigit())


def flags(f, u):
    p = os.path.join(root, f, "%d.flags" % u)
    return open(p).read().strip() if os.path.exists(p) else ""


def folder(n):
    return n.decode().strip('"')


creds = os.path.join(root, "login")
send("* %s [CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN] ready" % ("OK" if os.path.exists(creds) else "PREAUTH"))
sel = None


def drop(what):
    """DIR/drop: hang up instead of answering this command"""
    p = os.path.join(root, "drop")
    if os.path.exists(p) and open(p).read().strip() == what:
        sys.exit(0)


while True:
    t = readcmd()
    if not t:
        break
    tag = t[0]
    print(" ".join(x.decode("latin1")[:60].replace("\n", "\\n") for x in t[1:]), file=log, flush=True)
    c = t[1].upper().decode()
    drop(c if c != "UID" else "UID " + t[2].upper().decode())
    if c == "LOGIN":
        u, w = [x.strip() for x in open(creds, "rb").read().split(b"\n")[:2]]
        send(tag, " OK [CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN] hello" if (t[2], t[3]) == (u, w) else " NO wrong")
        continue
    if c in ("UID", "STORE", "EXPUNGE") and sel is None:
        send(tag, " BAD no mailbox selected")
        continue
    if c == "CAPABILITY":
        send("* CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN")
        send(tag, " OK done")
    elif c in ("SELECT", "EXAMINE"):
        f = folder(t[2])
        if not os.path.isdir(os.path.join(root, f)):
            sel = None
            send(tag, " NO no such folder")
            continue
        sel = f
        send("* %d EXISTS" % len(uids(f)))
        send("* OK [UIDVALIDITY %s] ok" % open(os.path.join(root, f, "uidvalidity")).read().strip())
        send(tag, " OK [READ-WRITE] selected" if c == "SELECT" else " OK [READ-ONLY] selected")
    elif c == "UID" and t[2].upper() == b"FETCH":
        if t[3] == b"1:*":
            for n, u in enumerate(uids(sel), 1):
                send("* %d FETCH (UID %d FLAGS (%s))" % (n, u, flags(sel, u)))
        else:
            u = int(t[3])
            if u in uids(sel) and not os.path.exists(os.path.join(root, "nofetch")):
                d = open(os.path.join(root, sel, str(u)), "rb").read()
                send("* %d FETCH (UID %d BODY[] {%d}" % (uids(sel).index(u) + 1, u, len(d)))
                out.flush()
                out.write(d)
                send(")")
        send(tag, " OK done")
    elif c == "UID" and t[2].upper() == b"COPY":
        f = folder(t[4])
        if not os.path.isdir(os.path.join(root, f)):
            send(tag, " NO [TRYCREATE] no such folder")
            continue
        n = max(uids(f) + [0]) + 1
        open(os.path.join(root, f, str(n)), "wb").write(open(os.path.join(root, sel, t[3].decode()), "rb").read())
        send(tag, " OK done")
    elif c == "APPEND":
        f = folder(t[2])
        if not os.path.isdir(os.path.join(root, f)):
            send(tag, " NO [TRYCREATE] no such folder")
            continue
        n = max(uids(f) + [0]) + 1
        open(os.path.join(root, f, str(n)), "wb").write(t[-1])
        open(os.path.join(root, f, "%d.flags" % n), "w").write(t[3].decode().strip("()") if len(t) > 4 else "")
        send(tag, " OK done")
    elif c == "CREATE":
        os.makedirs(os.path.join(root, folder(t[2])))
        open(os.path.join(root, folder(t[2]), "uidvalidity"), "w").write("1")
        send(tag, " OK done")
    elif c == "STORE":
        send(tag, " OK done")
    elif c == "EXPUNGE":
        for u in uids(sel):
            os.unlink(os.path.join(root, sel, str(u)))
        send(tag, " OK done")
    elif c == "LOGOUT":
        send("* BYE")
        send(tag, " OK done")
        break
    else:
        send(tag, " BAD what")
