"""View of the search code with everything of search.c/reader.c folded into do_search."""
import re
from collections import defaultdict
from build import AnalysisBroken
from prog import inlined_prog
from sccp import Sccp, NZ

KEEP = {"do_search", "search_top", "imap_start", "imap_fetch_message_raw", "make_rfc822", "make_rfc822_from_imap", "data_to_rfc822",
        "scan_date_string", "free_rfc822", "create_ro_mapping", "free_ro_mapping", "get_validated_mbox_msg", "open_db", "close_db",
        "write_database", "new_database_from_file", "update_database", "tokenise_message", "build_message_list", "build_mbox_lists",
        "find_threading", "cull_dead_messages", "expand_string", "glob_and_expand_paths", "try_copy_to_path", "append_file_to_mbox",
        "append_mboxmsg_to_mbox", "imap_append_new_message", "parse_rc_file", "imap_free", "fetch_message_from_imap", "write_to_file", "append_data_to_mbox"}
KEEP |= {"imap_ll_build", "imap_ll_append", "imap_ll_command", "imap_ll_freeline", "imap_select", "imap_ll_status", "imap_ll_pprint",
         "imap_ll_is_trycreate", "imap_ll_waitline", "imap_ll_connect", "imap_ll_pipe_connect", "imap_ll_timeout", "imap_clear_folder"}
LETTERS = "bstcfradzpmnF"


def view():
    return inlined_prog(keep=KEEP)


def key_char(p, f):
    """values the key letters are compared with: {Val} (loads/casts of the key character)"""
    cmpv = defaultdict(set)

    def root(v):
        while v.kind == "inst" and v.opc in ("sext", "zext", "trunc", "freeze"):
            v = v.ops[0]
        return v
    for b in f.blocks:
        for i in b.insts:
            if i.opc == "icmp" and i.ops[1].kind == "int":
                cmpv[root(i.ops[0])].add(i.ops[1].c)
            elif i.opc == "switch":
                cmpv[root(i.ops[0])] |= {c for c, _ in i.cases}
    want = set(map(ord, LETTERS))
    best = [v for v, cs in cmpv.items() if len(cs & want) >= 6]
    return best
