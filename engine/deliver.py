"""View of the delivery of search results: everything folded into do_search down to library calls and the module interfaces."""
from prog import inlined_prog

KEEP = {"do_search", "imap_start", "imap_fetch_message_raw", "imap_append_new_message", "imap_copy_message", "imap_clear_folder", "make_rfc822",
        "make_rfc822_from_imap", "data_to_rfc822", "scan_date_string", "free_rfc822", "create_ro_mapping", "free_ro_mapping",
        "open_db", "close_db", "compute_checksum", "write_database", "new_database_from_file", "update_database", "build_message_list",
        "build_mbox_lists", "cull_dead_messages", "parse_rc_file", "unlock_and_exit"}
# matchers are not of interest here; they are folded too, but their loops touch none of the constructs looked for


def view():
    return inlined_prog(keep=KEEP)
