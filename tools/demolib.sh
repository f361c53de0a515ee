set -u
D=$(cd "$(dirname "$0")" && pwd)
M=$PWD/mairix
T=$(mktemp -d) || exit 99
trap 'cd / && rm -rf "$T"' EXIT
export HOME=$T TZ=UTC LC_ALL=C
mkdir -p "$T/mail"
# rc LINES... : write the configuration
rc() { printf 'base=%s/mail\ndatabase=%s/db\n' "$T" "$T" > "$T/rc"; printf '%s\n' "$@" >> "$T/rc"; }
mx() { timeout 60 "$M" -f "$T/rc" "$@" >"$T/out" 2>"$T/err"; }
md() { mkdir -p "$T/mail/$1/new" "$T/mail/$1/cur" "$T/mail/$1/tmp"; }
# msg FILE SUBJECT BODY [EXTRA HEADER]
msg() { { printf 'From: alice@a.example\nTo: bob@b.example\nSubject: %s\nDate: Mon, 05 Jan 2015 10:00:00 +0000\nMessage-ID: <%s@x>\n' "$2" "$(basename "$1" | tr ':,' '__')"
          [ $# -gt 3 ] && printf '%s\n' "$4"; printf '\n%s\n' "$3"; } > "$1"; }
# hits KEY... : number of messages a raw search finds
hits() { mx -r "$@"; grep -c . "$T/out"; }
die() { echo "FAIL: $*"; exit 1; }
cd "$T" || exit 99
