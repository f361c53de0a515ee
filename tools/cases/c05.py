def V(*a): return ("C05","V")+a
def Q(*a): return ("C05","Q")+a
MD='        clear_maildir_subfolder(complete_mfolder, "new");\n        clear_maildir_subfolder(complete_mfolder, "cur");\n'
CL=MD+'        break;\n      case FT_MH:\n        clear_mh_folder(complete_mfolder);\n        break;\n'
ENT="      if (lstat(fpath, &sb) >= 0) {\n        /* Deal"
CASES = [
 V("search.c","  if (!do_augment) {\n    switch (ft)","  {\n    switch (ft)"),
 V("search.c","  if (!do_augment) {\n    switch (ft)","  if (do_augment) {\n    switch (ft)"),
 V("search.c","  if (!do_augment) {\n    switch (ft)","  if (!do_augment && !do_threads) {\n    switch (ft)"),
 V("search.c",MD,MD.split("\n")[0]+"\n"),
 V("search.c",MD,MD+'        clear_maildir_subfolder(complete_mfolder, "tmp");\n'),
 V("search.c",MD,MD+'        clear_maildir_subfolder(complete_mfolder, ".");\n'),
 V("search.c","        clear_mh_folder(complete_mfolder);\n        break;\n      case FT_MBOX:\n        clear_mbox_folder(complete_mfolder);","        clear_mh_folder(complete_mfolder);\n        break;\n      case FT_MBOX:\n"),
 V("search.c",ENT,ENT.replace("lstat","stat")),
 V("search.c","        if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {\n          /* FIXME","        if (S_ISLNK(sb.st_mode)) {\n          /* FIXME"),
 V("search.c","        if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {\n          /* FIXME","        if (!S_ISDIR(sb.st_mode)) {\n          /* FIXME"),
 V("search.c","          if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {\n            /* FIXME","          if (S_ISREG(sb.st_mode)) {\n            /* FIXME"),
 V("search.c","      if (valid_mh_filename_p(de->d_name)) {\n        strcpy(fpath, path);","      if (de->d_name[0] != '.') {\n        strcpy(fpath, path);"),
 V("search.c","      if (valid_mh_filename_p(de->d_name)) {\n        strcpy(fpath, path);","      if (isdigit(de->d_name[0])) {\n        strcpy(fpath, path);"),
 V("search.c","  result = do_search(db, argv, complete_mfolder, do_threads, ft, verbose, imap_pipe, imap_server, imap_username, imap_password, please_clear, sort_by_date);\n","  result = do_search(db, argv, complete_mfolder, do_threads, ft, verbose, imap_pipe, imap_server, imap_username, imap_password, please_clear, sort_by_date);\n  if (!do_augment && ft == FT_MH) clear_mh_folder(complete_mfolder);\n","search.c","        clear_mh_folder(complete_mfolder);\n        break;\n      case FT_MBOX:","        break;\n      case FT_MBOX:"),
 V("search.c","        please_clear = 1;",""),
 V("search.c","  int please_clear = 0;","  int please_clear = 1;"),
 V("search.c","  unlink(path);\n","  (void)path;\n"),
 V("search.c","          if (unlink(fpath) < 0) {\n            fprintf(stderr, \"Unlinking %s failed\\n\", fpath);\n          }\n","          if (unlink(fpath) < 0) {\n            fprintf(stderr, \"Unlinking %s failed\\n\", fpath);\n          }\n          break;\n"),
 V("search.c","    while ((de = readdir(d))) {\n      strcpy(fpath, sdir);","    while ((de = readdir(d))) {\n      if (de->d_name[0] == '1') continue;\n      strcpy(fpath, sdir);"),
 V("search.c","    while ((de = readdir(d))) {\n      strcpy(fpath, sdir);","    if (readdir(d)) while ((de = readdir(d))) {\n      strcpy(fpath, sdir);"),
 V("search.c","        } else if (S_ISDIR","        } else if (S_ISDIR") if 0 else V("search.c","          if (unlink(fpath) < 0) {\n            fprintf(stderr, \"Unlinking","          if (remove(fpath) < 0) {\n            fprintf(stderr, \"Unlinking","search.c","        if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {\n          /* FIXME","        if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode) || S_ISDIR(sb.st_mode)) {\n          /* FIXME"),
 V("mairix.c",'search_top(do_threads, do_augment,','search_top(do_threads, do_augment && !do_threads,'),
 V("search.c","        clear_mbox_folder(complete_mfolder);\n        break;\n      case FT_RAW:","        break;\n      case FT_RAW:","search.c",'        out = fopen(output_path, "ab");','        out = fopen(output_path, show_threads ? "ab" : "wb");'),
 V("dirscan.c","      if (!isdigit(*p)) {","      if (!isxdigit(*p)) {") if 0 else V("search.c","  if (!do_augment) {\n    switch (ft)","  if (!do_augment && argv[0]) {\n    switch (ft)"),
 # quiet
 Q("search.c","  if (!do_augment) {\n    switch (ft) {\n      case FT_MAILDIR:\n","  if (do_augment) {\n    /* keep */\n  } else {\n    switch (ft) {\n      case FT_MAILDIR:\n"),
 Q("search.c","int search_top(int do_threads","static void clear_old(char *folder, enum folder_type ft)\n{\n  if (ft == FT_MAILDIR) {\n    clear_maildir_subfolder(folder, \"cur\");\n    clear_maildir_subfolder(folder, \"new\");\n  } else if (ft == FT_MH) {\n    clear_mh_folder(folder);\n  } else if (ft == FT_MBOX) {\n    clear_mbox_folder(folder);\n  }\n}\nint search_top(int do_threads","search.c",CL+"      case FT_MBOX:\n        clear_mbox_folder(complete_mfolder);\n        break;\n","      case FT_MH:\n      case FT_MBOX:\n        clear_old(complete_mfolder, ft);\n        break;\n"),
 Q("search.c","      if (lstat(fpath, &sb) >= 0) {\n        /* Deal with both symlinks to maildir/MH messages as well as real files\n         * where mbox messages have been written. */\n        if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {","      if (lstat(fpath, &sb) < 0) continue;\n      {\n        if (S_ISREG(sb.st_mode) || S_ISLNK(sb.st_mode)) {"),
 Q("search.c","static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/","static void unlink_result(char *fpath)\n{\n  struct stat sb;\n  if (lstat(fpath, &sb) < 0) return;\n  if (!S_ISLNK(sb.st_mode) && !S_ISREG(sb.st_mode)) return;\n  if (unlink(fpath) < 0) fprintf(stderr, \"Unlinking %s failed\\n\", fpath);\n}\nstatic void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/","search.c","      if (lstat(fpath, &sb) >= 0) {\n        /* Deal with both symlinks to maildir/MH messages as well as real files\n         * where mbox messages have been written. */\n        if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {\n          /* FIXME : Can you unlink from a directory while doing a readdir loop over it? */\n          if (unlink(fpath) < 0) {\n            fprintf(stderr, \"Unlinking %s failed\\n\", fpath);\n          }\n        }\n      }\n","      unlink_result(fpath);\n"),
 Q("search.c","      if (valid_mh_filename_p(de->d_name)) {\n        strcpy(fpath, path);","      if (!valid_mh_filename_p(de->d_name)) continue;\n      {\n        strcpy(fpath, path);"),
 Q("search.c","      strcpy(fpath, sdir);\n      strcat(fpath, \"/\");\n      strcat(fpath, de->d_name);\n",'      sprintf(fpath, "%s/%s", sdir, de->d_name);\n'),
 Q("search.c","    while ((de = readdir(d))) {\n      strcpy(fpath, sdir);","    while ((de = readdir(d))) {\n      if (!strcmp(de->d_name, \".\") || !strcmp(de->d_name, \"..\")) continue;\n      strcpy(fpath, sdir);"),
 Q("search.c","  unlink(path);\n","  if (unlink(path) < 0 && errno != ENOENT) perror(path);\n"),
 Q("search.c","static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/","static int is_result(const char *fpath)\n{\n  struct stat sb;\n  int yes = 0;\n  if (lstat(fpath, &sb) == 0) {\n    switch (sb.st_mode & S_IFMT) {\n      case S_IFREG:\n      case S_IFLNK: yes = 1; break;\n      default: break;\n    }\n  }\n  return yes;\n}\nstatic void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/",
   "search.c","      if (lstat(fpath, &sb) >= 0) {\n        /* Deal with both symlinks to maildir/MH messages as well as real files\n         * where mbox messages have been written. */\n        if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {","      {\n        if (is_result(fpath)) {"),
 Q("search.c","static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/","static int removable(const char *fpath)\n{\n  struct stat sb;\n  int rc = lstat(fpath, &sb);\n  return rc >= 0 && (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode));\n}\nstatic void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/",
   "search.c","        if (lstat(fpath, &sb) >= 0) {\n          /* See under maildir above for explanation */\n          if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {","        {\n          if (removable(fpath)) {"),
 Q("search.c","    while ((de = readdir(d))) {\n      strcpy(fpath, sdir);","    for (de = readdir(d); de != NULL; de = readdir(d)) {\n      strcpy(fpath, sdir);"),
 Q("search.c","  if (!do_augment) {\n    switch (ft)","  int keep = do_augment;\n  if (keep == 0) {\n    switch (ft)"),
]
