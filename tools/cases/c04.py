def V(*a): return ("C04","V")+a
def Q(*a): return ("C04","Q")+a
MM="             member_of (complete_mfolder, folder_base, mh_folders, FT_MH, omit_globs) ||\n"
M1="member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)"
M3="member_of (complete_mfolder, folder_base, mboxen, FT_MBOX, omit_globs)"
ST="    if (stat (complete_mfolder, &mfolder_sb) != 0 ||\n        stat (paths[i], &src_folder_sb) != 0)\n      continue;\n"
CASES = [
 V("mairix.c",MM,""),
 V("mairix.c","      unlock_and_exit(3);\n        }\n    }\n","    }\n    }\n") if 0 else V("mairix.c","              mfolder);\n          unlock_and_exit(3);","              mfolder);"),
 V("mairix.c","              mfolder);\n          unlock_and_exit(3);","              mfolder);\n          unlock_and_exit(0);"),
 V("mairix.c",M1,M1.replace("complete_mfolder","mfolder")),
 V("mairix.c",M1,M1.replace("omit_globs","NULL")),
 V("mairix.c",M3,M3.replace("omit_globs","NULL")),
 V("mairix.c","strcmp (complete_mfolder, paths[i]) == 0","strncmp (complete_mfolder, paths[i], strlen(paths[i])) == 0"),
 V("mairix.c","    if (mfolder_sb.st_ino == src_folder_sb.st_ino &&\n        mfolder_sb.st_dev == src_folder_sb.st_dev)\n      return 1;\n",""),
 V("mairix.c",ST,ST.replace("stat (paths","lstat (paths")),
 V("mairix.c",ST,ST.replace("stat (complete","lstat (complete")),
 V("mairix.c","mh_folders, FT_MH, omit_globs) ||","mh_folders, FT_MAILDIR, omit_globs) ||"),
 V("mairix.c","      case FT_IMAP:\n        /* the same check","      case FT_MBOX:\n      case FT_IMAP:\n        /* the same check"),
 V("mairix.c","  for (i=0; i<n_paths; i++) {\n    struct stat mfolder_sb","  for (i=1; i<n_paths; i++) {\n    struct stat mfolder_sb"),
 V("mairix.c",ST,ST.replace("      continue;","      return 0;")),
 V("mairix.c",ST,ST.replace("      continue;","      return 1;")),
 V("mairix.c",M3+"))","("+M3+" && !do_augment)))"),
 V("mairix.c","      default:\n        if (("+M1,"      default:\n        if (!do_augment && ("+M1),
 V("mairix.c","mboxen, FT_MBOX, omit_globs))","mboxen, FT_MH, omit_globs))"),
 V("mairix.c","      glob_and_expand_paths(folder_base, raw_paths, n_raw_paths, &paths, &n_paths, &mh_traverse_methods, omit_globs);\n      break;\n    case FT_MBOX:","      glob_and_expand_paths(folder_base, raw_paths, n_raw_paths, &paths, &n_paths, &maildir_traverse_methods, omit_globs);\n      break;\n    case FT_MBOX:"),
 V("mairix.c","&mbox_traverse_methods, omit_globs);\n      break;\n    case FT_RAW","&mbox_traverse_methods, NULL);\n      break;\n    case FT_RAW"),
 V("mairix.c","  if (!folders)\n    return 0;\n  split_on","  if (!folders || !strchr(folders, ':'))\n    return 0;\n  split_on"),
 V("mairix.c","  split_on_colons(folders, &n_raw_paths, &raw_paths);\n  switch (ft)","  split_on_colons(folders, &n_raw_paths, &raw_paths);\n  n_raw_paths = 1;\n  switch (ft)"),
 V("mairix.c","    result = search_top(do_threads, do_augment, database_path, complete_mfolder,","    result = search_top(do_threads, do_augment, database_path, mfolder,"),
 V("mairix.c","if (mfolder_sb.st_ino == src_folder_sb.st_ino &&","if (mfolder_sb.st_uid == src_folder_sb.st_uid ||"),
 V("mairix.c","mfolder_sb.st_ino == src_folder_sb.st_ino &&",""),
 V("mairix.c","mfolder_sb.st_ino == src_folder_sb.st_ino","mfolder_sb.st_ino == src_folder_sb.st_ino && S_ISDIR(mfolder_sb.st_mode)"),
 # quiet
 Q("mairix.c","      default:\n        if (("+M1,"      case FT_MH:\n      case FT_MAILDIR:\n      case FT_MBOX:\n        if (("+M1),
 Q("mairix.c","static char *copy_value(char *text)/*{{{*/","static int indexed_folder(const char *cm, struct globber_array *og)\n{\n  if (member_of(cm, folder_base, mboxen, FT_MBOX, og)) return 1;\n  if (member_of(cm, folder_base, maildir_folders, FT_MAILDIR, og)) return 1;\n  return member_of(cm, folder_base, mh_folders, FT_MH, og);\n}\nstatic char *copy_value(char *text)/*{{{*/","mairix.c","if (("+M1+"||\n"+MM+"             "+M3+")) {","if (indexed_folder(complete_mfolder, omit_globs)) {"),
 Q("mairix.c","int member_of (","static int same_file(const char *a, const char *b)\n{\n  struct stat sa, sb;\n  if (strcmp(a, b) == 0) return 1;\n  if (stat(a, &sa) != 0 || stat(b, &sb) != 0) return 0;\n  return sa.st_ino == sb.st_ino && sa.st_dev == sb.st_dev;\n}\nint member_of (","mairix.c","    struct stat mfolder_sb, src_folder_sb; /* for checking inode numbers */\n","","mairix.c","    if (strcmp (complete_mfolder, paths[i]) == 0)\n      return 1;\n","    if (same_file(complete_mfolder, paths[i]))\n      return 1;\n","mairix.c",ST,"","mairix.c","    if (mfolder_sb.st_ino == src_folder_sb.st_ino &&\n        mfolder_sb.st_dev == src_folder_sb.st_dev)\n      return 1;\n",""),
 Q("mairix.c","  for (i=0; i<n_paths; i++) {\n    struct stat mfolder_sb","  for (i=n_paths-1; i>=0; i--) {\n    struct stat mfolder_sb"),
 Q("mairix.c","mfolder_sb.st_ino == src_folder_sb.st_ino &&\n        mfolder_sb.st_dev == src_folder_sb.st_dev","!(mfolder_sb.st_ino != src_folder_sb.st_ino || src_folder_sb.st_dev != mfolder_sb.st_dev)"),
 Q("mairix.c","strcmp (complete_mfolder, paths[i]) == 0","!strcmp (paths[i], complete_mfolder)"),
 Q("mairix.c",ST,"    if (stat (complete_mfolder, &mfolder_sb) < 0) continue;\n    if (stat (paths[i], &src_folder_sb) < 0) continue;\n"),
]
