def V(*a): return ("C21","V")+a
def Q(*a): return ("C21","Q")+a
E='  if (getenv("MAIRIX_MAILDIR_FOLDERS")) {\n    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");\n  }\n'
EM='  if (getenv("MAIRIX_MFOLDER")) {\n    mfolder = getenv("MAIRIX_MFOLDER");\n  }\n'
AM='  if (arg_mfolder) {\n    mfolder = arg_mfolder;\n  }\n'
ADD='    strcpy(new_folders, old_folders);\n    strcpy(new_folders + old_len, ":");\n    strcpy(new_folders + old_len + 1, extra_folders);\n'
CF="      if ((mfolder[0] == '/') ||\n          ((mfolder[0] == '.') && (mfolder[1] == '/'))) {"
CAT='        strcpy(complete_mfolder, folder_base);\n        strcat(complete_mfolder, "/");\n        strcat(complete_mfolder, mfolder);\n'
RAW="  if (do_raw_output) {\n    output_folder_type = FT_RAW;\n  } else if (do_excerpt_output) {\n    output_folder_type = FT_EXCERPT;\n  }\n"
CASES = [
 V("mairix.c",E,E.replace('= getenv("MAIRIX_MAILDIR_FOLDERS")','= getenv("MAIRIX_FOLDERS")')),
 V("mairix.c",'  if ((e = getenv("MAIRIX_MBOXEN"))) {\n    mboxen = e;','  if ((e = getenv("MAIRIX_MBOXEN"))) {\n    mh_folders = e;'),
 V("mairix.c",AM,"","mairix.c",EM,AM+EM),
 V("mairix.c",'!strncasecmp(p, "imap=", 5)','!strncasecmp(p, "imap=", 4)'),
 V("mairix.c",'imap_password = copy_value(p)','imap_username = copy_value(p)'),
 V("mairix.c",'!strncasecmp(p, "omit=", 5)) add_folders(&omit, copy_value(p))','!strncasecmp(p, "omit=", 5)) omit = copy_value(p)'),
 V("mairix.c",ADD,ADD.replace('":"','","')),
 V("mairix.c",ADD,ADD.replace("strcpy(new_folders + old_len + 1, extra_folders)","strcpy(new_folders + old_len + 1, old_folders)")),
 V("mairix.c",'!strncasecmp(p, "database=", 9)','!strncmp(p, "database=", 9)'),
 V("mairix.c",'    output_folder_type = FT_EXCERPT;\n  } else if (!strncasecmp(temp, "mbox", 4)) {\n    output_folder_type = FT_MBOX','    output_folder_type = FT_EXCERPT;\n  } else if (!strncasecmp(temp, "mbox", 1)) {\n    output_folder_type = FT_MBOX',"mairix.c",'  if (!strncasecmp(temp, "mh", 2)) {\n    output_folder_type = FT_MH;\n  } else if (!strncasecmp(temp, "maildir", 7)) {\n    output_folder_type = FT_MAILDIR;\n  } else ','  ') ,
 V("mairix.c",'!strncasecmp(temp, "mh", 2)','!strncasecmp(temp, "mh", 1)'),
 V("mairix.c","    do_integrity_checks = 0;\n  }\n\n  if (follow","    do_mbox_symlinks = 0;\n  }\n\n  if (follow"),
 V("mairix.c",RAW,RAW.replace("do_excerpt_output","!do_excerpt_output")),
 V("mairix.c",RAW,"  if (do_raw_output && !mfolder) {\n    output_folder_type = FT_RAW;\n  } else if (do_excerpt_output) {\n    output_folder_type = FT_EXCERPT;\n  }\n"),
 V("mairix.c",'search_top(do_threads, do_augment,','search_top(do_augment, do_threads,'),
 V("mairix.c",'imap_pipe, imap_server, imap_username, imap_password, sort_by_date)','imap_pipe, imap_server, imap_password, imap_username, sort_by_date)'),
 V("mairix.c",'build_message_list(folder_base, mh_folders, FT_MH','build_message_list(folder_base, maildir_folders, FT_MH'),
 V("mairix.c",'update_database(db, msgs->paths, msgs->n, do_fast_index, imapc)','update_database(db, msgs->paths, msgs->n, do_purge, imapc)'),
 V("mairix.c",'write_database(db, database_path, do_integrity_checks)','write_database(db, database_path, 0)'),
 V("mairix.c",'"-a") || !strcmp(*argv, "--augment")) {\n      do_search = 1;\n','"-a") || !strcmp(*argv, "--augment")) {\n'),
 V("mairix.c",'      do_fast_index = 1;','      do_integrity_checks = 0;'),
 V("mairix.c",'      /* End of args */\n      argc--;\n      argv++;\n','      /* End of args */\n'),
 V("mairix.c",CF,CF.replace("(mfolder[1] == '/')","(mfolder[1] != '/')")),
 V("mairix.c",CF,"      if (mfolder[0] == '/' || mfolder[0] == '.') {"),
 V("mairix.c",CAT,CAT.replace('        strcat(complete_mfolder, "/");\n','')),
 V("mairix.c","    if (mh_folders) {\n","    if (mh_folders && maildir_folders) {\n"),
 V("mairix.c","  if (omit) {\n    omit_globs = colon","  if (omit && do_search) {\n    omit_globs = colon"),
 V("mairix.c","  parse_rc_file(arg_rc_file_path);\n\n","","mairix.c","  if (arg_mfolder) {\n    mfolder = ","  parse_rc_file(arg_rc_file_path);\n  if (arg_mfolder) {\n    mfolder = "),
 V("mairix.c",'strcat(name, "/.mairixrc")','strcat(name, "/mairixrc")'),
 V("mairix.c",'      do_hardlinks = 1;','      verbose = 1;'),
 V("mairix.c",'!strncasecmp(p, "sort=date+", 10)','!strncasecmp(p, "sort=date+", 5)'),
 V("mairix.c","  lock_database(database_path, do_forced_unlock);","  lock_database(database_path, 1);"),
 V("mairix.c","      do_dump = 1;","      do_dump = !do_search;"),
 # ---- unchanged behaviour
 Q("mairix.c",E,'  if ((e = getenv("MAIRIX_MAILDIR_FOLDERS")) != NULL) maildir_folders = e;\n'),
 Q("mairix.c","static void parse_rc_file(char *name)","static void parse_rc_line(char *p)\n{\n    if (!strncasecmp(p, \"database=\", 9)) database_path = copy_value(p);\n    else if (!strncasecmp(p, \"nochecks\", 8)) skip_integrity_checks = 1;\n}\nstatic void parse_rc_file(char *name)","mairix.c",'    else if (!strncasecmp(p, "database=", 9)) database_path = copy_value(p);\n    else if (!strncasecmp(p, "nochecks", 8)) skip_integrity_checks = 1;\n',"","mairix.c",'    if (!strncasecmp(p, "base", 4)) folder_base','    parse_rc_line(p);\n    if (!strncasecmp(p, "base", 4)) folder_base'),
 Q("mairix.c","int main (int argc, char **argv)/*{{{*/\n","static void from_env(const char *name, char **var)\n{\n  char *e = getenv(name);\n  if (e) *var = e;\n}\nint main (int argc, char **argv)/*{{{*/\n","mairix.c",E,'  from_env("MAIRIX_MAILDIR_FOLDERS", &maildir_folders);\n',"mairix.c",EM,'  from_env("MAIRIX_MFOLDER", &mfolder);\n'),
 Q("mairix.c",ADD,'    sprintf(new_folders, "%s:%s", old_folders, extra_folders);\n'),
 Q("mairix.c",CAT,'        sprintf(complete_mfolder, "%s/%s", folder_base, mfolder);\n'),
 Q("mairix.c",CF,"      if (mfolder[0] == '/' || !strncmp(mfolder, \"./\", 2)) {"),
 Q("mairix.c",RAW,"  if (do_excerpt_output && !do_raw_output) {\n    output_folder_type = FT_EXCERPT;\n  }\n  if (do_raw_output) {\n    output_folder_type = FT_RAW;\n  }\n"),
 Q("mairix.c","  if (skip_integrity_checks) {\n    do_integrity_checks = 0;\n  }\n","  do_integrity_checks = do_integrity_checks && !skip_integrity_checks;\n"),
 Q("mairix.c",'!strncasecmp(p, "mfolder=", 8)) mfolder = copy_value(p);\n    else if (!strncasecmp(p, "database=", 9)) database_path = copy_value(p);','!strncasecmp(p, "database=", 9)) database_path = copy_value(p);\n    else if (!strncasecmp(p, "mfolder=", strlen("mfolder="))) mfolder = copy_value(p);'),
 Q("mairix.c",'    } else if (!strcmp(*argv, "-p") || !strcmp(*argv, "--purge")) {\n      do_purge = 1;\n','    } else if (0 == strcmp("--purge", *argv) || 0 == strcmp("-p", *argv)) {\n      do_purge = 1;\n'),
]
