"""View of message parsing and tokenising: helpers folded, the token tables' entry points kept."""
import re
from prog import inlined_prog

KEEP = {"add_token_in_file", "add_token2_in_file", "tokenise_message", "data_to_rfc822", "make_rfc822", "make_rfc822_from_imap",
        "update_database", "build_new_message_list", "add_mbox_messages", "free_rfc822", "parse_rfc822_date", "create_ro_mapping", "free_ro_mapping",
        "split_into_header_lines", "do_multipart", "do_body", "do_attachment", "parse_content_type", "parse_content_disposition", "new_database_from_file", "write_database",
        "find_threading", "cull_dead_messages", "open_db", "do_search", "search_top", "dump_database", "imap_start", "scan_date_string",
        "check_database_integrity", "decode_header_value", "make_nvp", "unencode_data", "splice_header_lines", "parse_rc_file"}


def view():
    return inlined_prog(keep=KEEP)
