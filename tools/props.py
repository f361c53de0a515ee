CC = ["configurations", "inputs"]
prop("C01", "The database lock covers every use and is released on every exit",
     "While a run has the index database open, for searching, dumping or updating, its lock file exists and was created by that run. Every way the run can end (normal return, a fatal error anywhere in the program, out of memory, SIGHUP, SIGINT, SIGQUIT, SIGTERM or SIGPIPE) leaves no lock file of its own behind.",
     ["inputs", "fault_sequences", "schedules"], "every input, every failing library call, every point at which a signal arrives",
     "The tests take only success paths and a few user errors; they reach almost none of the several dozen fatal exits and no signal.",
     ["mairix.c", "dotlock.c", "writer.c", "reader.c", "rfc822.c", "imap.c", "search.c", "mbox.c"],
     [("lock_database/unlock_database/unlock_and_exit", "dotlock.c"), ("signal handlers and order of calls in main", "mairix.c"), ("fatal exits", "whole program")],
     "interprocedural typestate analysis (lock held or not) over the whole-program CFG from main and from each signal handler; set-valued constant propagation of the locking and unlocking code for each outcome of its calls",
     "All paths of the interprocedural CFG; every exit site and every database open is checked in every lock state in which it is reachable. Trusts that unlink() of the lock name succeeds; abort/assert are outside the claim.",
     observe=["existence of <database>.lock after the process ends"])
prop("C02", "Two runs never hold the database lock at the same time",
     "A run proceeds past the locking step only if its own attempt to create the lock file for the configured database succeeded. If another run holds the lock, it exits with a failure status, and it never removes or overwrites a lock file it did not create unless the user asked for a forced unlock.",
     ["schedules", "fault_sequences"], "every interleaving of concurrent runs and every failure of the file operations involved",
     "The tests run one process at a time.",
     ["dotlock.c", "mairix.c"], [("link(2)-based lock acquisition", "dotlock.c lock_database"), ("release name recorded after acquisition", "dotlock.c")],
     "set-valued constant propagation of the acquisition protocol for each outcome of link(), stat() and the link count; must-pass and never-after conditions; string provenance of the names",
     "Decides the protocol on all paths through the locking code; assumes link(2) is atomic on the file system.")
prop("C03", "Source mail is never modified",
     "No operation creates, changes, truncates, renames or removes any file other than the index database, its lock files, and entries of the configured results folder. Indexed messages, mailboxes and folders are only ever opened for reading, and a result is never written through an existing link in the results folder.",
     ["inputs", "configurations", "histories"], "every command line, configuration, mailbox content and results-folder content",
     "The tests compare outputs of sample searches; they never check that sources are byte-identical, nor try results folders with left-over links.",
     ["search.c", "writer.c", "dotlock.c", "rfc822.c", "reader.c", "mbox.c", "imap.c"],
     [("file operations of the results writer", "search.c"), ("read-only mappings", "rfc822.c create_ro_mapping, reader.c open_db")],
     "effect analysis: origin (string-provenance) of the path argument of every file-mutating call, open modes, mapping protections",
     "Flow-insensitive, interprocedural string provenance: a path may only start with text from the database or results-folder setting. Every mutating call site in the program is covered. Assumes the user does not point the database path itself at mail.")
prop("C04", "Search results are never sent into an indexed folder",
     "For Maildir, MH and mbox output, the run refuses to search, with an error and before touching the results folder, whenever the results folder has the same name as, or is the same file or directory as, any of the configured (expanded, non-omitted) Maildir, MH or mbox folders. A results folder that is none of them is not refused.",
     ["configurations", "inputs"], "every folder configuration, including wildcards, relative paths and symbolic links",
     "Tests cover two or three fixed configurations, none with aliases of the folder.",
     ["mairix.c", "dirscan.c", "mbox.c"], [("guard before the search", "mairix.c main"), ("member_of", "mairix.c")],
     "set-valued constant propagation through main() for each format and outcome of each comparison, and through one round of the comparison itself; provenance of its arguments",
     "All paths of main and of the comparison; loop coverage is decided for counted loops.")
prop("C05", "Only old results are cleared, and only without the augment option",
     "Without the augment option the previous results are removed before new ones are written; with it nothing in the results folder is removed. Clearing removes only regular files and symbolic links, located directly in new/ and cur/ of a Maildir results folder, under numeric names in an MH results folder, or the mbox results file itself; besides that only something that is no directory is removed, where a results directory has to be created.",
     ["inputs", "configurations", "histories"], "every results-folder content and option combination",
     "Tests start from empty results folders.",
     ["search.c", "mairix.c", "dirscan.c"], [("clear_* functions and search_top", "search.c"), ("valid_mh_filename_p", "dirscan.c")],
     "typestate over the inlined search driver (-a, output format, path), plus set-valued constant propagation of one directory-entry round for every kind of entry",
     "All paths of the clearing code with helpers folded in; entry facts are taken from branch conditions on lstat mode and name tests.")
prop("C06", "What an indexing run stores is what a later run reads back",
     "Every fact recorded about a message or mailbox (path, size, date, modification time, thread, seen/replied/flagged, kind of message, mailbox and position in it, checksums) and every word with its list of messages is written to the place in the database file from which a later search or update reads that same fact. This holds for every kind of message and for every word table, and counts recorded in the file are those of the data actually stored.",
     ["inputs", "histories"], "every database content: any number and mix of messages, mailboxes and words",
     "Tests build a few tiny databases; a swapped or skipped field shows only for particular kinds of messages and later operations.",
     ["writer.c", "reader.c", "db.c", "search.c", "dumper.c"],
     [("write_header/write_messages/write_mbox_info/write_toktable", "writer.c"), ("open_db", "reader.c"), ("new_database_from_file and the import functions", "db.c")],
     "symbolic address/provenance analysis of the writer, the opener and the importer, composed and compared field by field",
     "Every header word, per-message cell (per message kind), mailbox cell and token cell is matched between writer and both kinds of reader. Address arithmetic is linear-form exact; stores whose origin cannot be named are listed as notes, not judged.",
     observe=["bytes of the database file", "search results and dump output after re-opening"])
prop("C07", "Parts of the database file never overlap or overrun the file",
     "When a database is written, no two tables or text areas overlap and everything written lies inside the length the file was created with, whatever the number of messages, mailboxes and words. The space accounted for each message, mailbox and word is at least what is then written for it.",
     ["inputs"], "every combination of message kinds, counts, path lengths and posting lists",
     "Overlap or overrun appears only for particular mixes of message kinds or table sizes; tests use tiny uniform ones.",
     ["writer.c", "writer.h"], [("compute_mapping", "writer.c"), ("char_length", "writer.c"), ("write_database and write_* helpers", "writer.c")],
     "symbolic linear arithmetic over the layout computation (consecutive tables, sizes) compared with the bytes each writer advances",
     "All tables and all message kinds; lengths are compared as linear forms in string lengths and list lengths. 32-bit wrap-around of the layout (files beyond 4 GB) is outside.")
prop("C08", "Each part of a message is found through its own search key and no other",
     "Words of the To, Cc, From and Subject headers, the body, attachment names and Message-ID/In-Reply-To/References are indexed under the message they occur in, each in the table for that part, and a search with key t, c, f, s, b, n or m (or a combination, or no key) looks in exactly the tables those letters stand for. No word is indexed for a part it does not occur in, no table entry and no word in a message part is skipped, and a word is compared in the same case-folded form in which it was indexed.",
     ["inputs"], "every message content, every search expression",
     "The tests search a handful of fixed words; a misrouted header or a skipped table shows only for other fields, keys and messages.",
     ["rfc822.c", "tok.c", "search.c", "hash.c"],
     [("tokenise_message, add_to_toktable", "db.c"), ("header recognition data_to_rfc822", "rfc822.c"), ("key letters do_search, match_*", "search.c")],
     "provenance analysis from header name to field to word table to key letter; set-valued constant propagation over the search driver per key letter; loop coverage",
     "All add-token call sites, all header names, all key letters (each pinned in turn), all comparison/lookup loops. Word splitting at character level is covered only as the agreement of the character class masks.")
prop("C09", "A word's list of messages reads back exactly as it was recorded",
     "The compressed list of messages kept for each word, once any increasing sequence of message numbers has been added to it, decodes to exactly that sequence, in memory, from the database file, and after being copied for an update. Its storage is always large enough for what is put in it, and decoding never goes past its end.",
     ["inputs", "histories"], "every increasing sequence of message numbers with any gaps",
     "Large gaps (beyond 127 and 16383 messages) use other encodings that small test mailboxes never reach.",
     ["hash.c", "reader.c", "tok.c", "db.c"],
     [("insert_index_on_encoding, check_and_enlarge_encoding", "tok.c"), ("int_list_reader_read and the copy made for updates", "reader.c, db.c")],
     "bit-provenance analysis of every encoder path composed with the decoder path it selects; interval and linear-form checks for lengths and capacity",
     "Each encoder path (1, 2, 4 byte form) is composed with the decoder bit by bit, for all values of the gap in that path's range. Gaps of 2^30 messages or more are outside the format.")
prop("C11", "Seen, replied and flagged marks are carried faithfully",
     "The letters S, R, F after ':2,' in a Maildir file name, and R, A, F in the Status and X-Status headers of an mbox message, set the seen, replied and flagged marks of that message and nothing else does. Every combination of marks survives storing and re-reading the database. An F: search expression selects exactly the messages having every mark it names and none it negates; Maildir result names and IMAP result messages carry exactly the marks of the message, and the dump shows them.",
     ["inputs"], "every combination of marks, letters, flag expressions and message kinds",
     "Tests use a few combinations; a swapped or lost mark shows only for other combinations, kinds of message or after an update.",
     ["db.c", "rfc822.c", "mbox.c", "writer.c", "search.c", "imapinterface.c", "dumper.c"],
     [("scan_maildir_flags", "db.c"), ("scan_status_flags", "rfc822.c"), ("add_mbox_messages", "mbox.c"), ("type-and-flags byte", "writer.c, db.c"), ("F: matching, mk_maildir_path", "search.c"), ("imap_append_new_message", "imapinterface.c")],
     "set-valued conditional constant propagation with tracked memory cells, once per combination of the finite mark domain, over each function that handles marks",
     "All 8 combinations at every stage; F: expressions: every single term and every ordered pair of terms, through the transfer function of the scanning loop. Where in a file name the ':2,' part starts is not decided.")
prop("C16", "Search terms combine exactly as documented",
     "A message is found if and only if it fulfils every command-line argument. Within one argument '/' separates alternatives, ',' separates terms that must all match, '~' negates the term it precedes, and ',' binds tighter than '/'. A term matches if any of the message parts its key letters name matches, starting afresh for each term and each argument, for every message in the database.",
     ["inputs"], "every search expression and every combination of matching and non-matching terms, for every message",
     "Tests run a few expressions; wrong composition shows only for particular sequences of terms and match results.",
     ["search.c"], [("hit0/hit1/hit2/hit3 vectors and the loops over arguments and terms", "search.c do_search"), ("matchers match_*, find_*", "search.c")],
     "abstract interpretation: the transfer function of each segment (start of argument, one term, end of argument) over the finite boolean state of one message is computed for all inputs by set-valued propagation and compared with the boolean definition; loop-coverage analysis",
     "All boolean states, separators in both orders, negated or not. The search for the next separator is by strchr; character-level extraction of the word is not decided here.")
prop("C10", "Threads: messages sharing an id belong together; -t adds exactly them",
     "Messages that name a common Message-ID (their own, In-Reply-To or References), directly or through other messages, have the same thread number and unrelated messages have different ones, after every run that adds messages. A search with -t returns exactly the live messages whose thread contains a live match; without -t threads play no role; no thread number is ever beyond the storage used to mark it.",
     ["inputs", "histories"], "every mailbox content and every sequence of indexing, deletion and purging",
     "Tests thread a few messages once; wrong joining shows only for particular orders of ids, after deletions, or for other kinds of message.",
     ["db.c", "mbox.c", "search.c"], [("find_threading, find_base, update_database", "db.c"), ("add_mbox_messages", "mbox.c"), ("thread step of do_search", "search.c")],
     "symbolic case analysis of the joining step over the order relation of the two groups, loop coverage, typestate (added => re-threaded), set-valued propagation of the search's marking steps for all message kinds and match states",
     "All relations of group numbers, all kinds of messages, all identifiers and list entries (loop coverage). Trusts C08/C09 for the id lists.")
prop("C17", "Date and size ranges select what lies between their endpoints",
     "z:A-B selects exactly the messages whose size lies between A and B, whichever is given first; z:A- those larger, z:-B and z:B those smaller; k and m (either case) scale a number by 1024 and 1024*1024. d: selects by message date in the same way, from the start of the first day or period to the end of the last. A month stands for its first day as a start and its last day (29 February in leap years) as an end, a year for 1 January and 31 December; two-digit years below 70 are 20xx; a day or month without a year is the most recent one, the start counted back from the end; a relative date counts back 1, 7, 30 or 365 days for each d, w, m or y. A text is read as the kind of date its form documents: one digit or two that can be a day are a day, other two or four digits a year, six or eight digits a full date, letters a month, digits and a letter a relative date, and the documented combinations of day, month and year. An expression that cannot be parsed selects nothing and ends the run.",
     ["inputs"], "every size and date, every range expression, every current date",
     "Tests run a few ranges; swapped or missing endpoints, units, month lengths and year rules show only for particular expressions and dates.",
     ["search.c", "dates.c"], [("find_date_matches_in_table, find_size_matches_in_table, parse_size_range, parse_size_expr", "search.c"), ("scan_date_string, scan_date_expr", "dates.c")],
     "set-valued conditional constant propagation with tracked cells over the folded search driver and date scanner: every form of expression (presence of hyphen, text on each side, unit, month, kind of date) and every relation of the value to the endpoints, compared with the documented meaning",
     "Relation of value and endpoints by representatives of each order relation; date forms over all months and representative days/years. How text is classified into a date form (the datescan automaton) and mktime/localtime are trusted. Known finding: the first day of a range is excluded.")
prop("C12", "Every live match is delivered, in every format; deleted messages never are",
     "The results of a search are exactly the matching messages that are not marked deleted. In each result format (Maildir, MH, mbox, raw list, excerpt, IMAP) every result of every kind (file, message in an mbox, IMAP message) is delivered once, from its own path or place, in full and under a name of its own; excerpts show each header under its own label; a message that cannot be fetched is skipped, not misread. A path search (p:) tests the path of every live message. The exit status is success if and only if something was found.",
     ["inputs", "configurations"], "every set of matches of every mix of message kinds, in each of the six result formats",
     "Tests deliver a few file and mbox messages in some formats; missed kinds, swapped indices and name collisions show only for particular mixes.",
     ["search.c", "imapinterface.c"], [("selection of results and delivery switch", "search.c do_search"), ("append_file_to_mbox, try_copy_to_path, create_symlink, mk_maildir_path, mk_mh_path", "search.c"), ("imap_fetch_message_raw, make_rfc822_from_imap", "imapinterface.c")],
     "set-valued conditional constant propagation over the delivery code folded into one function, once per (format, message kind), with linear forms for the paths, indices and lengths used; must-pass analysis of each round of the delivery loop",
     "All formats x kinds; every round of each delivery loop. Failures of the file system while delivering are outside. Appending (-a) to an MH folder restarts numbering and is not covered.")
prop("C14", "An mbox message is output only if its bytes are those that were indexed",
     "When an mbox message is delivered or shown, the bytes taken from the mailbox start and end where the index says and never beyond the end of the file, and they are used only if all 16 bytes of their checksum equal the one recorded for that message when it was indexed. Otherwise the message is left out and a warning is given at the end. The checksum recorded at indexing covers exactly the bytes that were parsed and whose place was recorded.",
     ["inputs", "histories"], "every mailbox content and every change made to mailboxes between indexing and searching",
     "Tests search unmodified mailboxes; a missing or wrong check shows only when a mailbox changed in a particular way.",
     ["search.c", "mbox.c"], [("get_validated_mbox_msg and its users", "search.c"), ("add_mbox_messages", "mbox.c")],
     "set-valued propagation over the folded delivery code with the outcome of the checksum comparison pinned to each value; linear-form equality of the regions summed, compared and output; the same for the recording side",
     "All formats; start, size and file length by representatives of every order relation. MD5 itself is trusted.")
prop("C15", "Indexing brings the index in step with the mail store",
     "After an indexing run the index describes the mail as it is now. A message file (judged through links) whose modification time or size differs from the recorded one, or that is gone, is marked deleted; every new or changed file, and every new IMAP message, is added with its path, modification time and size and read; unchanged ones are neither deleted nor added again; with fast indexing (-F) an existing path is enough. A mailbox (mbox) whose modification time and size are both unchanged keeps all its messages; otherwise exactly the messages up to the last intact one found stay, later ones are deleted, and everything after the last kept message is split and added; mailboxes that are gone, empty or unreadable lose all their messages, new ones are added. Every addition or deletion makes the run report a change and the database is then written.",
     ["histories", "inputs"], "every history of changes to files and mailboxes between runs",
     "Tests index a few fixed mail stores and a few changes; which entries are wrongly kept, dropped or missed depends on the particular combination of changes.",
     ["db.c", "mbox.c", "mairix.c"], [("update_database, scan_new_messages, do_stat", "db.c"), ("build_mbox_lists, marry_up_mboxen, rescan_mbox, find_number_intact, build_new_message_list, add_mbox_messages", "mbox.c"), ("main: update then write", "mairix.c")],
     "set-valued conditional constant propagation of one round of each loop under every combination of the facts that decide (kind, found or not, mtime/size relation, stat outcome, checksum outcome), with must-execute / never-execute conditions on the effects; linear forms for indices and extents; loop coverage",
     "Every round of every loop, all combinations of the deciding facts; order relations by representatives; binary narrowing decided for all ends up to 7. That messages before an intact one are intact too is the program's documented assumption. Recognition of separator lines in an mbox is not decided.")
prop("C13", "Purging removes exactly the deleted messages and renumbers everything else",
     "An indexing run with -p (and only then) drops from the index every message marked deleted and no other, after the update and before the database is written; a purge that dropped anything is written. The remaining messages keep their order, kind and every recorded fact. Every message list of every word in all tables (To, Cc, From, Subject, body, attachment name, both Message-ID lists) names exactly the same live messages under their new numbers. A word (or Message-ID) with no message left in any of its lists is removed and counted out; every other word can still be found by lookup in the hash table, from its natural place on. Mailboxes that are gone are dropped, and every mbox message refers to its own mailbox under the mailbox's new number.",
     ["histories", "inputs"], "every pattern of deleted messages, mailboxes, words and hash collisions",
     "The tests purge one tiny database once; wrong renumbering or an unfindable word needs particular deletions, tables or collisions.",
     ["db.c", "mbox.c", "mairix.c"], [("cull_dead_messages, recode_toktable, recode_toktable2, recode_encoding", "db.c"), ("cull_dead_mboxen", "mbox.c"), ("purge step of main", "mairix.c")],
     "set-valued conditional constant propagation of one round of each loop of the folded purge code (message kinds, list lengths, new numbers, hole/no hole, wrapped/unwrapped places), must-execute / never-execute conditions, index provenance, loop coverage",
     "All tables, all message kinds; the hash-table repair is decided per pass (every word with a hole between its natural place and its place moves into the first one; passes repeat until nothing moves). Integrity of list encoding itself is C09.")
prop("C21", "Every setting takes effect on exactly what it names",
     "Each rc-file keyword (base, maildir, mh, mbox, imap and the older folders and mh_folders, omit, imap_pipe, imap_server, imap_username, imap_password, mfolder, mformat, database, nochecks, follow_mbox_symlinks, sort=date+; in any letter case) changes the setting it names and no other; folder and omit lists given on several lines are all used, other settings are replaced by the later line; unknown lines change nothing. The environment variables MAIRIX_FOLDER_BASE, MAIRIX_MAILDIR_FOLDERS, MAIRIX_MH_FOLDERS, MAIRIX_MBOXEN, MAIRIX_MFOLDER and MAIRIX_DATABASE override the rc file, and -o overrides both. Every command-line option, short or long and whatever options precede it, has its own effect and no other; unknown options are refused; the first other word, or the word after --, starts the search terms. Every setting reaches the code that acts on it: each kind of configured folder is scanned, the database, IMAP access, format, sorting, integrity-check and link-following settings are used for what they are for. A results folder is used as given if it starts with / or ./ or is an IMAP folder, otherwise below base.",
     ["configurations", "inputs"], "every rc file, environment and command line",
     "The tests use one or two rc files and a few options; no environment variables at all.",
     ["mairix.c"], [("parse_rc_file, add_folders, parse_output_folder", "mairix.c"), ("option loop, environment and overrides, calls in main", "mairix.c main")],
     "set-valued conditional constant propagation through main with everything folded in: the round of the rc-file loop for each documented line, of the option loop for each option, and the rest of main for each resulting state; provenance of each setting from store to use",
     "All documented keywords, variables and options; each line and option is judged for one representative value and, for options, in combination with all others set. Expansion of ~ and $ in values is not decided.")

prop("C23", "Every message of every configured folder is found, and nothing else",
     "Indexing looks into every configured folder. Each entry of the Maildir, MH and mbox lists is expanded on its own: an absolute path is used as it is, any other path is taken below base; an entry whose last component has a wildcard (*, ? or [) stands for every matching file or folder, links followed; an entry ending in '...' also for everything below it, at any depth. A folder counts for a list only if it is of that kind (Maildir: a directory with new, cur and tmp; MH: a directory with one of the files MH programs leave; mbox: a regular file, reached through a link only if links are to be followed); when searching below a Maildir its own new, cur and tmp are not searched, nor MH messages below an MH folder; anything that matches an omit pattern, taken below base, is left out with all it contains. Every entry of new and cur of a Maildir, and every file of an MH folder whose name is a number (with or without a dot at its end) is listed once, under its full name and as a message of that kind; . and .. and other names are not. A folder that is missing or cannot be read does not keep the others from being scanned.",
     ["inputs", "configurations"], "every directory tree and folder configuration",
     "The tests use a handful of small folders below one base, no omit patterns with absolute paths, no unreadable folders.",
     ["dirscan.c", "mbox.c", "glob.c"], [("get_maildir_message_paths, get_mh_message_paths, filter_*, scrutinize_*, build_message_list", "dirscan.c"), ("glob_and_expand_paths, handle_one_path, handle_wild, append_shallow, append_deep, build_mbox_lists", "mbox.c"), ("is_globber_array_match, colon_sep_string_to_globber_array, string_list_to_array", "glob.c")],
     "set-valued conditional constant propagation through one round of each directory loop, for each kind of entry (names, file modes, outcomes of the tests); provenance of each built-up path; loop ranges; linear forms for offsets",
     "Splitting of lists at colons and the automaton that matches a wildcard are not decided; nor the expansion of ~ and $.")

prop("C22", "IMAP: every message is read as it is, and only the results folder is changed",
     "With IMAP configured, indexing lists from every folder of the imap setting that no omit pattern matches every message that has a UID and is not marked \\Deleted, once, under UIDVALIDITY:UID:folder; the folder is opened by EXAMINE and texts are read with BODY.PEEK, so no flag changes by indexing or searching. A recorded message is fetched, parsed or copied only after its folder has been opened and the folder's UIDVALIDITY equals the recorded one over its whole length, and by its UID; of the responses only the one with exactly that UID and a text is passed on, with its own length. If nothing fits, nothing is passed on. The folder last opened is reused only for the same name, for writing only if it was opened by SELECT, and is forgotten as soon as another is asked for; a folder counts as opened only if the server said OK and gave UIDVALIDITY, and the number of messages comes from EXISTS. Results are delivered to the results folder itself: clearing it marks all its messages as \\Deleted and expunges them, and does nothing if it cannot be opened; messages are appended whole with the marks seen, answered and flagged they have in the index, or copied; a folder that does not exist is created when the server asks for it and the message then delivered by the same command. Login: no password is sent after BYE, without LITERAL+, or if TLS was offered but failed; the server's certificate is verified and its name must be the server's (or a wildcard that covers it); capabilities are asked for again under TLS. Commands are sent in full with CR LF, strings with quotes, backslashes, control or 8-bit characters as literals; each has its own tag and ends at the response with that tag, and all responses before it are kept in order. A response that is missing or shorter than expected is never looked into, nor one that has been freed.",
     ["inputs", "histories", "schedules"], "every sequence of server responses, folder, message and connection failure",
     "The tests have no IMAP server at all.",
     ["imap.c", "imapinterface.c"], [("imap_start, scan_folder, build_imap_message_list, imap_fetch_message_raw, make_rfc822_from_imap, imap_clear_folder, imap_copy_message, imap_append_new_message, create_folder", "imapinterface.c"), ("imap_ll_command, imap_ll_write, format_cmd, imap_ll_status, imap_ll_is_trycreate, imap_ll_starttls, imap_login, imap_select, capability functions", "imap.c")],
     "set-valued conditional constant propagation through each command and one round of each loop over responses, with the response given as a tree of tokens; words of each command from its construction; provenance and linear forms of UID, UIDVALIDITY and lengths; use-after-free reachability for responses",
     "Each kind of response is represented by a tree of at most five tokens. The state machine that turns bytes into tokens is not decided, nor are time limits.")

prop("C18", "The database is written exactly when it changed, in full, or the run fails",
     "An indexing run writes the database if it added, struck out or purged any message, and leaves the file alone if nothing changed; what is written is the database just brought up to date, to the configured path. The check on mailbox sizes, and the consistency check unless it was switched off, come before the file is opened; if the size check fails the file is left alone and the run ends with a failure status. The file, whatever its old length, is brought to exactly the length of the new database before it is mapped, shared and writable, over that length; all of it is written, then flushed and closed before the run reports success. Any failure to open, examine, size, map, unmap, flush or close it ends the run with a failure status and nothing more is done to the file.",
     ["fault_sequences", "histories", "inputs"], "every outcome of every system call, every old file length, every combination of additions, removals and purges",
     "No test makes a system call fail, shrinks a database or looks at whether an unchanged one is left alone.",
     ["writer.c", "mairix.c", "db.c"], [("create_rw_mapping, write_database", "writer.c"), ("update, purge and write in main", "mairix.c"), ("result of update_database", "db.c")],
     "set-valued conditional constant propagation through the folded write_database() with each system call failing in turn and each relation of old and new length; must-pass and never-after conditions; linear forms of lengths; the result of update_database after one round of each loop that changes the database",
     "A partial write() of the one byte that extends the file, and a full disk noticed only when the mapping is stored to, are outside.")

prop("C24", "Only a complete database of this format and machine is opened",
     "A database file is opened for searching, updating or dumping only if it is complete: its first bytes are the database mark and this program's format version, its byte order mark is that of this machine, it is long enough to hold the header, and every table the header names - message types, paths, dates, sizes, threads, mboxes and their checksums, and the token tables of every field - lies wholly in the file, whatever numbers the header holds (also those so large that start plus length wraps around). Any other file, and one that cannot be opened or mapped, is refused with a failure status before anything of it is used. Databases that are complete are opened, also empty ones and those with tables that end exactly where the file ends.",
     ["inputs"], "every header: each count and table offset over its 32-bit range, every file length",
     "The tests only ever open databases that mairix has just written.",
     ["reader.c"], [("open_db, read_toktable_db, read_toktable2_db", "reader.c")],
     "set-valued conditional constant propagation through open_db() with everything folded in, for headers given word by word: complete ones, and ones in which one word makes a mark wrong or moves or lengthens one table past the end of the file, by little, by much and by a wrap-around",
     "What is inside the tables (offsets of single strings, mbox numbers, encoded lists) is not part of the statement; bytes are taken for a little-endian machine with 32-bit integers.")

prop("C25", "A mailbox is split at exactly its message separators",
     "A line of an mbox separates messages exactly if it begins with 'From ', at the start of a line, and goes on in the form mail programs write: after optional blanks a return address (bare, in angle brackets, with a quoted local part, or '-', or none), blanks, then weekday, month, day of one or two digits, time with or without seconds, up to two time zone words and a four-digit year, or the older form 'Mon, 15 Mar 2021 21:36:40 PST' with comma, day before month, and year of two or four digits before the time. Text that begins with 'From ' but goes on otherwise, or stands in the middle of a line, or breaks off, separates nothing. A mailbox that begins with a line of four ^A bytes (MMDF) is split at such lines instead, one before and one after each message. A message reaches from the line after its separator to the next separator, or to the end of the mailbox; a piece that ends inside an unterminated multipart is joined with the following ones up to the first that completes it, or stays alone. No separator is passed over wherever the bytes before it lead, nothing is read beyond the end, and when messages were added to a mailbox the search goes on exactly behind the last one kept.",
     ["inputs"], "every mailbox content",
     "The tests have a few mailboxes with ordinary separators; almost all lines that are nearly separators, repeated beginnings of 'From ', and ends of mailboxes are never tried.",
     ["mbox.c", "fromcheck.nfa"], [("build_new_message_list, find_next_from, looks_like_from_separator, find_next_mmdfsep, skip_mmdfsep, start_of_next_line", "mbox.c"), ("separator automaton", "fromcheck.nfa")],
     "language comparison: the product of the generated automaton (tables read from the linked module) with the documented form as a regular expression is walked in full; the searching functions are read as automata over bytes by an abstract interpretation (small numbers, positions relative to the last byte read, classes of bytes) whose finite state space is walked completely against the separator's beginning; linear forms of the recorded starts and lengths",
     "Which of two readings is right for forms between the documented one and what is tolerated today (a one-letter domain, a route inside an address, no blank between a two-digit year and the time) is left open. The generator (dfasyn) is part of the analysed build: its output is judged.")

prop("C26", "A text is cut into exactly its words, an identifier list into its identifiers",
     "For every text that is indexed, each maximal run of letters, digits and underscores is taken as one word: whole, once, from its first byte to its last, and nothing else is. For To, Cc and From a second pass takes each maximal run of letters, digits, underscores, plus, minus, dot and at-sign, so whole addresses are words too. In HTML text, what stands between < and > is no text. Of a list of message identifiers, exactly what stands between a < and the next > is taken, and an unfinished last one is not. The text is read to its end and not beyond, and is left as it was: the byte behind a word that is overwritten for a moment is put back before anything behind it is read.",
     ["inputs"], "every text, header and identifier list",
     "The tests index a handful of ordinary messages; words at the end of a text, one-letter words, words next to each other with one separator, unfinished tags, bytes beyond ASCII and the order of passes are mostly not tried.",
     ["db.c"], [("tokenise_string, tokenise_html_string, char_valid_p, special_table, add_angled_terms", "db.c")],
     "abstract interpretation: each cutting function is read as an automaton over classes of bytes (positions relative to the last byte read and to the word's start, small numbers, contents of the byte that is overwritten); its finite state space is walked completely in product with the automaton of the documented words, on the inlined view, with the table of word characters read from the module",
     "Whether bytes beyond ASCII are letters is the locale's matter: the functions are judged for both answers, the same for all such bytes. Which text goes to which pass is C08's. A cutting function written so that its positions cannot be followed is noted in the evidence as not judged.")

prop("C27", "Base64 and quoted-printable text is decoded byte for byte",
     "In message bodies and in encoded words of headers alike, each complete group of four base64 digits stands for three bytes (two or one if the group ends in one or two '='), bytes that are no digits are passed over, and the digits have the values of RFC 4648. In quoted-printable text '=' and two hex digits, in either case, stand for the byte of that value, '=' behind which there are only blanks up to the end of the line joins the lines (in bodies), '_' stands for a blank (in headers), and every other byte for itself. The encodings base64, quoted-printable, 7bit, 8bit and binary, in any letter case, lead to that decoding, the latter three to the text as it is. Nothing else is put out and nothing is left out.",
     ["inputs"], "every well-formed encoded text",
     "The tests have one or two encoded messages; most digits, bytes beyond ASCII, groups at line ends, padding, both cases of hex digits and folded lines are not tried.",
     ["rfc822.c"], [("unencode_data, decode_header_value, hex_to_val, looking_at_ws_then_newline, decode_encoding_type, base64_table, equal_table", "rfc822.c")],
     "abstract interpretation: the decoding loops are read as transducers over classes of bytes (positions, small numbers, vectors of named bits for what is gathered from digits) and walked completely in product with the encoding; tables read from the module; constants propagated through the digit and name functions",
     "Malformed text (broken groups, escapes without digits, text behind padding) is not judged, nor is uuencoded text, nor where an encoded word begins and ends. Each loop is judged from its first byte read to where it stops: that it starts at the first byte of the text and stops at the last, the choice of the loop by the letter Q or B of an encoded word, the copying of plain text, the length given back and the letter case of names are not judged. A loop whose positions cannot be followed is noted in the evidence as not judged.")

prop("C20", "What is opened is closed on every way out; mapped text is released once",
     "Every directory, file, temporary file and compressed stream the program opens to scan folders, read its configuration, lock, index or write results is closed by the matching call on every way out of the function that opened it, or handed on to whoever does; nothing closed is used again and nothing whose opening failed is used or closed. Text of a message or mailbox that was mapped is released exactly once, by the address and length it was mapped with, only if there is text, and is not used afterwards; text of a decompressed mailbox belongs to a cache that is asked by file name, is left mapped when it is handed out and is unmapped when its place is taken. So indexing and searching any number of folders, readable or damaged, compressed or not, in any order, never runs out of descriptors and never touches unmapped text.",
     ["histories", "fault_sequences", "inputs"], "every sequence of messages from plain and compressed folders, every failing call, every number of folders",
     "The tests use a few small readable folders; no call fails, no compressed mailbox is damaged or empty, no search mixes compressed and plain results.",
     ["rfc822.c", "search.c", "mbox.c", "dirscan.c", "xzfile.c"], [("create_ro_mapping, free_ro_mapping, find_ro_cache, add_ro_cache, xx_zopen", "rfc822.c"), ("append_file_to_mbox, get_validated_mbox_msg and its callers, clear_*_folder", "search.c"), ("build_mbox_lists, add_mbox_messages", "mbox.c"), ("folder scans", "dirscan.c")],
     "typestate of handles along the executable paths of a conditional constant propagation, with the opening call succeeding and failing in turn and the null-ness of the handle followed through joins; pairing of what is recorded about a text with what its release does (data flow of kind and mark together)",
     "The IMAP connection, its TLS state and process-lifetime mappings of the database are outside; so is memory from malloc.")

NA = [
 ("C30", "Approximate word search finds exactly the words within the error bound", "A search term with '=N' matches exactly the words that contain the text with at most N letters changed, left out or added (at the start of the word if anchored with '^').",
  ["search.c build_match_vector, substring_match_*"], "The correctness of the bit-parallel automaton is an inductive fact about the machine words after each letter of an arbitrary word, relating them to an edit distance; no dataflow domain or typing expresses it, and deciding it needs a prover or enumeration of runs. Which tables, words and lists the result is taken from is decided by C08 and C16."),
 ("C31", "A run killed while writing leaves a usable or recognisably broken database", "If a run, or the machine, stops at any point while the database is being written, the next run either finds the old or the new contents or reports the file as broken.",
  ["writer.c create_rw_mapping, write_database"], "The file is written in place through a shared mapping: which pages reach the disk before a crash is decided by the kernel, not by anything in the source, so no rule over the source can establish it. What the program itself does around the writing is decided by C18, and what is refused at opening by C24."),
 ("C32", "The date of a message is the calendar day its Date header names", "For every Date header in any of the accepted spellings the recorded date is that day in local time.",
  ["rfc822.c parse_rfc822_date", "dates.c", "datescan.nfa"], "Depends on mktime()/localtime(), the time zone database and the clock, and on transition tables generated by dfasyn; neither is bounded by the source under analysis. What is done with a classified expression is decided by C17."),
 ("C33", "Malformed messages are read within their text", "Uuencoded parts, encoded header words and nested multiparts are found and decoded whatever the message, and no malformed message makes the parser read or write outside its text.",
  ["rfc822.c decode_header_value, unencode_data, split_and_splice_header, do_multipart", "nvp.c"], "The parser walks with unrelated cursors through text of arbitrary length, its bounds being data-dependent (positions of markers found earlier, lengths computed by the decoders, states of generated scanners); an interval or typestate analysis strong enough for it would need relational invariants per loop that have to be invented by hand and would alarm on any rewriting, so no sound verdict that stays quiet on correct code is in reach."),
 ("C35", "Wildcard patterns match exactly the names shell patterns would", "For every pattern made of letters, '*', '?', and bracket sets, a name matches exactly if a shell would match it.",
  ["glob.c"], "Again a bit-parallel automaton built at run time from the pattern; its language for an arbitrary pattern cannot be read off the source by a sound static rule. Where matching is asked for, and what follows from the answer, is decided by C23."),
 ("C36", "IMAP responses of any shape are split into the right words", "Whatever the server sends, in pieces of any size, the words, strings, literals and lists of each response are those of the IMAP grammar.",
  ["imap.c imap_ll_waitline"], "A hand-written state machine over bytes that arrive in arbitrary pieces; equivalence with the grammar quantifies over unbounded inputs and buffer states. What is done with responses once split is decided by C22."),
 ("C37", "Every word remains findable after any history of updates", "After any sequence of indexing, updating and purging runs the hash table leads from each word to its entry.",
  ["tok.c", "db.c recode_toktable"], "The invariant of open addressing (no gap between natural and actual place) is about all entries of a table reached by unbounded histories of insertions, growth and purges; the local steps are decided (C13 for moving entries after a purge, C08 for lookup), their composition over histories is an inductive argument outside this family."),
]
for _i, _t, _s, _f, _r in NA:
    prop(_i, _t, _s, ["inputs"] if _i not in ("C31", "C37") else ["crash_points"] if _i == "C31" else ["histories"], "every input" if _i not in ("C31", "C37") else "every point at which the run may stop" if _i == "C31" else "every sequence of runs",
         "The tests sample a handful of inputs.", sorted({x.split()[0] for x in _f}), [(" ".join(x.split()[1:]) or x, x.split()[0]) for x in _f], na=_r)
