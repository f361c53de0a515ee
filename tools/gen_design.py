import re,json,os
H='/verif'
out=[]
w=out.append
w('''# Static verification of mairix

What is decided here, how, and what is not. Every deciding step reads the source in `/repo` as it is at
the time of the run; nothing of mairix is ever executed by a check. `properties.jsonl` states the
properties, `MANIFEST.json` registers one command per claimed property, `known-findings.txt` lists the
repaired defects and the one that is recorded, `seeded/` holds the planted bugs.

## 1. Common machinery

**Front end** (`engine/build.py`). The `.c`/`.h`/`.nfa` files of `/repo`'s working tree are copied to a scratch
folder (removed at exit); the project's own configure script there decides the macros and its own generator
(dfasyn) writes the three scanner sources; clang lowers every unit of the Makefile's object list to LLVM IR,
unoptimised, with debug information; llvm-link joins them and SROA/mem2reg bring locals into SSA form. Nothing
is cached between runs. If a source does not compile the check ends with status 2 (no answer).

**IR model** (`engine/ir.py`): functions, blocks, instructions, types, debug locations and struct member
names (from debug info), read through libLLVM's C API. Every report names file, line and function.

**Whole-program services**: `prog.py` (call graph, calls through function pointers included; interprocedural origins of values; typestate over the interprocedural CFG),
`sym.py` (dominators, loops, names of memory locations as paths such as `read_db.path_offsets[]`),
`lin.py` (linear forms), `loopinfo.py` (interval of a counted loop), `cdep.py` (control dependence),
`bits.py` (bit provenance), `strs.py`/`text.py` (where the characters of a string come from),
`sccp.py` (set-valued conditional constant propagation: a value is a finite set of constants or unknown,
only feasible edges are followed, chosen inputs are pinned, array cells and locals can be followed),
`rounds.py`/`vec.py` (one round of a loop under pinned facts; one element of the per-message arrays).

**Independence from how the code is written.** Helper functions are folded into their callers before
anything is judged (`inline.py`), except the handful of module interfaces the property itself is about; so a
helper extracted or merged changes nothing. Locations are named by structure member, not by variable name;
functions and members that were merely renamed are recognised by their bodies/position (`renames.py`).
A rule reports a violation only on a definite contradiction (a wrong provenance, a feasible path that misses
a required step, an outcome that differs from the demanded one for a concrete pinned case). A form that the
analysis does not recognise gives an entry under `notes` in the evidence file - not an alarm, and not a
silent "verified" either: the number of decided rule instances is printed and there is a floor, below which
the check ends with "no answer" unless the form was explicitly recognised as unknown.

**What this is not.** No path is handed to a solver, nothing is run. "Run abstractly" below always means
constant propagation over sets of constants with infeasible edges dropped.

**Tiers.** Quick and thorough decide the same rules over all paths; there is no bound to deepen. Thorough repeats
the whole analysis for the program as built without OpenSSL, without gzip/bzip2, without xz and without all of
them, where other code is compiled in; violations found only there are reported with the configuration named.

**Cost.** 6-40 s per check, 200-500 MB; thorough about five times the processor time, in parallel.

## 2. The properties
''')
S={
'C01':("Typestate *unlocked / held / released* over the interprocedural CFG from `main` and from every installed handler. Obligations: no exit, `_exit` or return from main while held; every open of the database only while held; no file operation after release; handlers for the five signals installed before the lock is taken and ending in unlink+exit; lock file and its recorded name in step with signals held back; the temporary removed on every way out.",
 "All paths of the call graph, every exit site. `unlink` of the lock is taken to succeed. SIGKILL and power loss are outside (no code can react).",
 "The tests take success paths and a few user errors; the several dozen fatal exits and signals are never taken."),
'C02':("`lock_database()` is run abstractly for every outcome of `link()`, `stat()` and link count: it may return only on success of the link of a private temporary or link count 2; on failure: failure status, no removal or writing of the lock (without `--unlock`); the name released later is recorded only after acquisition and forgotten at release.",
 "Atomicity of link(2) is assumed; two runs are not interleaved explicitly - the protocol of each run alone implies exclusion.",
 "Tests run one process at a time."),
'C03':("Effect analysis: for each call that creates, changes, removes or opens for writing (about 40 sites, table of libc effects), the string provenance of its path must start in the database path, its lock name or the results folder; open flags and stream modes are read-only elsewhere; writable mappings and truncation only on the database descriptor; opening for writing in the results folder only after unlink of that very name; calls that follow links only on the program's own files; commands only the configured IMAP pipe.",
 "Flow-insensitive provenance, so it may only over-approximate where a path can come from.",
 "Tests never compare sources before/after, nor use results folders with left-over links."),
'C04':("`main()` is run abstractly per output format with the comparison answering yes for each list in turn: the search must not be reached and nothing be cleared. The comparison itself is run for one folder: equal names or same (inode, device) match, anything else does not; every folder of the expanded list is compared; each list is expanded with its own kind, base and omits.",
 "Two hard links to an mbox compare equal by inode; bind mounts are beyond stat().",
 "One configuration per test."),
'C05':("The clearing code is folded and run abstractly with each kind of directory entry (regular, link, directory, other; numeric or not; `.`/`..`): removed exactly if it is an old result; the loops visit every entry; with -a no removal call is reachable; without it clearing precedes every writing search; IMAP folder clearing likewise.",
 "Directory reading is taken to return each entry once.", "Tests clear only folders made by mairix itself."),
'C06':("Model of the file built from the writer (which header word announces which table; which attribute goes to which cell for each message kind) and from both readers; the two must agree cell by cell, text by text, list by list, mark bit by mark bit.",
 "Values are compared by origin (structure member), so all values are covered at once.", "A dump compares a few values of small databases."),
'C07':("Symbolic layout: start of each table = linear form of counts; for each pair end(i) <= start(j) must follow from non-negative coefficients; text area after all tables; length computation compared with bytes appended for each message kind, mailbox and token as linear forms.",
 "32-bit overflow of total lengths (files over 2 GB) is outside.", "Holds for all counts; tests use tiny ones."),
'C08':("Token flow: from each parsed message part to the table it is added to (by table member), unconditional on other parts; header name to header field; case folding on both sides; for each key letter the set of tables consulted (do_search run abstractly for each letter), exact and substring; the lookup visits each word; hits come from the list of the matching word.",
 "The splitting of MIME structure into parts is not decided (see not-applicable).", "One or two keys per test."),
'C09':("Bit provenance through encoder and decoder: for each size class every byte combination decodes to the encoded distance, over the whole range of the class; capacity is ensured before each addition by at least the longest entry; capacity field equals allocation; end mark written and tested; copies keep bytes and last message.",
 "", "Distances above a few hundred never occur in tests."),
'C10':("Provenance and one-round analysis of the union loop: every identifier, every member, union keeps one representative (both orders of representatives), final flattening and numbering; recomputed in every run that adds; -t: marking before lookup, only live matches, marker array sized by the largest thread number.",
 "That repeated unions end in connected components is argued, not computed (standard union-find without ranks).", "Small thread graphs only."),
'C11':("do_search run abstractly for every combination of marks and every F: expression of up to four characters; result name letters for all eight combinations; scanning loops run per letter; flow of marks through the index and file bits.",
 "", "Eight mark combinations times expressions are never enumerated in tests."),
'C12':("Collection loop decided for each combination of match, kind and marks; for each output format and message kind: delivery call reached on every feasible path of a round, path/offset/length of this very message (linear forms), name depends one-to-one on the result and in the same way for all kinds; loops cover all results; exit status; excerpt labels; path search.",
 "Failure of writing (disk full) is not a matter of this property.", "Tests use Maildir results almost only; no IMAP."),
'C13':("Renumbering map (live -> position, dead -> -1), packing of every recorded array, recoding of each list of each table (each list is re-encoded from zero with mapped numbers, dead ones dropped), removal of empty words with counts, rehash of displaced words, mailbox renumbering; order purge < write, only with -p.",
 "The rehash loop is decided for one move plus the loop condition, not for whole probe histories.", "One purge test."),
'C14':("Path analysis from mapping to output: between there is a comparison of 16 bytes of a checksum over exactly (start, length) of the bytes output with the one recorded at (mailbox, message); bounds clamped for each relation of start, length and file size; otherwise warning; at indexing the checksum covers the extent recorded, on both ways of ending a message.",
 "MD5 itself is taken on trust.", "Tests never modify an mbox between indexing and search."),
'C15':("Reconcile loops run abstractly for each relation of recorded and current time and size, existence, fast mode; kept/deleted/added exactly as demanded; new ones added with their own path, time, size and scanned; mailbox validity (binary search invariants), deletion of messages beyond the last intact one, start of new scan.",
 "That binary search finds the last intact message when corruption is in the middle is by the documented assumption that everything below an intact message is intact.", "Tests index once."),
'C16':("do_search's three nested loops: one element of the four match arrays is followed through one term / argument for every combination of earlier state, match, negation and separators found (order of ',' and '/' included); start and end of arguments; each matcher only adds.",
 "Fuzzy matching itself is not decided.", "The combination of separators is sampled only thinly by tests."),
'C17':("Comparison of each message with the endpoints for each order relation and presence; provenance of endpoints; scaling by k/m; the language of every kind of date (product of the generated automaton with the documented forms, every text decided); each kind of date expression run for pinned current dates; end-of-month table; error returns select nothing.",
 "mktime/localtime are on trust.", "Depends on current date; tests use a fixed set."),
'C18':("write_database() with every system call failing in turn, and with each relation of old and new length; order of checks and opening; main writes iff update/purge changed; each change in update_database is reported, and only changes.",
 "Failure while the kernel writes pages back later is invisible to the program (mmap).", "No test makes a system call fail."),
'C25':("Product of the separator automaton (tables in the linked module) with the documented form as a regular expression, walked in full: 353 pairs of states, every line decided, shortest counterexample reported. The functions searching for separators are themselves read as automata over bytes (abstract interpretation with positions relative to the last byte read; 700-1300 abstract states each) and compared with 'From ' / ^A^A^A^A at the start of a line: nothing examined elsewhere, nothing passed over, no read beyond the end, right place returned. Starts and lengths of messages, the place where the search resumes and the joining of pieces by linear forms.",
 "Forms tolerated but not documented may go either way; the binary chop for intact messages belongs to C15.", "Nearly all lines that look like separators, partial repeats of 'From ' and ends of mailboxes are never tried."),
'C26':("Each function that cuts a text into pieces (`tokenise_string` in both passes, `tokenise_html_string`, `add_angled_terms`) is read as an automaton over classes of bytes by `scanx.Words`: an abstract state holds positions relative to the last byte read and to the start of the piece, small numbers, and the byte that is overwritten to end a piece. It is walked completely (about 6000 states each) in product with the documented one; where a piece is handed on, the product says whether it is one, whole, once, ended where it ends; where the text is read on, whether the byte is back.",
 "Bytes beyond ASCII: judged for both readings. Functions whose positions are not followed (e.g. words copied to a buffer first) are noted, not judged.", "One-letter words, words at the end of a text, unfinished tags and single separators are mostly not tried."),
'C27':("The loops decoding base64 and quoted-printable (bodies and header words) are read as transducers by `decode.Dec`: an abstract state holds positions in the text and in what is put out, small numbers, and vectors of named bits (bit b of digit k) for the register digits are gathered in. In product with the encoding, every byte put out has exactly the bits the text stands for, none is missing, none is too much. The 64 digits and the hex digits by their tables and constant propagation; the soft line break as an automaton; names of encodings by constant propagation to the decoder their case leads to.",
 "Malformed text, uuencode and the limits of encoded words are not judged; nor, known to be missed by trial: the first and last byte a loop is given, the choice between Q and B in headers, the copying of plain text and the length given back, the letter case of encoding names.", "Most digits, paddings, bytes beyond ASCII and folded lines are not tried."),
'C20':("Typestate of each handle from each opening call along feasible paths, null-ness followed through joins; each mapping released once by same address and length; kind of allocation recorded together with the text decides release.",
 "IMAP/TLS connection state and malloc memory are outside.", "Leaks show only with many folders."),
'C21':("Each keyword/variable/option: location stored to, value stored (rest of line, next argument, constant), order rc < environment < option, use of the setting by the code that acts on it, independence of other options (option loop run per option).",
 "Expansion of ~ and $VAR inside values is not decided.", "Each test uses one rc file."),
'C22':("Commands as built (token lists with origins), one round of each response loop for typical response trees, UID/UIDVALIDITY compare lengths and contents, folder reuse, literal lengths, response lists freed once and not used afterwards, failure of each command.",
 "The tokenizer's state machine and timeouts are not decided.", "There is no IMAP server in the tests."),
'C23':("Expansion per entry (absolute/relative, '...', wildcard) run abstractly; directory loops per entry kind; folder kind tests per combination of children present; names of messages built from folder, '/', entry (string provenance); omit filter; sorting/deduplication keeps each once.",
 "Glob matching is not decided.", "Few layouts in tests."),
'C24':("open_db() folded and run for concrete headers: complete ones opened, those with one defect in mark, version, byte order or one table's extent (a little, much, wrap-around) refused with failure status.",
 "Contents of tables (offsets of single strings) are not part of the statement.", "Tests open only databases just written."),
}
P=[json.loads(l) for l in open(H+'/properties.jsonl')]
fixes={}
for l in open(H+'/known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fixes.setdefault(m[1],[]).append((m[2],m[3]))
    m=re.match(r'known: property=(\S+) (key=\S+) (.*)',l)
    if m: fixes.setdefault(m[1],[]).append(('KNOWN '+m[2],m[3]))
seeds={}
for d in sorted(os.listdir(H+'/seeded')):
    j=json.load(open(H+'/seeded/%s/meta.json'%d))
    seeds.setdefault(j['property'],[]).append((d,j['what_it_breaks']))
M=json.load(open(H+'/MANIFEST.json'))
na={x['property']:x['reason'] for x in M['not_applicable']}
for p in sorted(P,key=lambda p:p['id']):
    i=p['id']
    if i in na: continue
    a=S[i]
    w('### %s %s\n'%(i,p['title']))
    w('*Decided by:* '+a[0]+'\n')
    w('*Bounds and trust:* '+(a[1] or 'none beyond the common ones.')+'\n')
    w('*Beyond tests:* '+a[2]+'\n')
    if i in fixes: w('*Defects found:* '+'; '.join('%s (%s)'%(t,c) for c,t in fixes[i])+'.\n')
    if i in seeds: w('*Planted bugs, all reported by this check:* '+'; '.join('`%s` (%s)'%x for x in seeds[i])+'.\n')
w('''## 3. Properties this family does not decide here
''')
for p in P:
    if p['id'] in na: w('- **%s %s** - %s'%(p['id'],p['title'],na[p['id']]))
w(open('/verif/tools/design_tail.md').read())
open(H+'/DESIGN.md','w').write('\n'.join(out)+'\n')
