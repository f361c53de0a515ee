def V(*a): return ("C23","V")+a
def Q(*a): return ("C23","Q")+a
D="dirscan.c"; M="mbox.c"; G="glob.c"
MD='''        if (!strcmp(de->d_name, ".") ||
            !strcmp(de->d_name, "..")) {
          continue;
        }
        strcpy(fname, subdir);'''
MH='''      if (!strcmp(de->d_name, ".") ||
          !strcmp(de->d_name, "..")) {
        continue;
      }
      strcpy(fname, folder);
      strcat(fname, "/");
      strcat(fname, de->d_name);
      if (valid_mh_filename_p(de->d_name)) {
        add_file_to_list(fname, arr, FT_MH);
      }
'''
CASES=[
 V(D,'{"new", "cur"}','{"new", "tmp"}'),
 V(D,'for (i=0; i<2; i++) {\n    strcpy(subdir','for (i=0; i<1; i++) {\n    strcpy(subdir'),
 V(D,MD,MD.replace('continue','break')),
 V(D,MD,MD.replace('!strcmp(de->d_name, ".")',"de->d_name[0] == '.'")),
 V(D,MD,MD.replace(' ||\n            !strcmp(de->d_name, "..")','')),
 V(D,'strcpy(fname, subdir);','strcpy(fname, folder);'),
 V(D,'add_file_to_list(fname, arr, FT_MAILDIR)','add_file_to_list(fname, arr, FT_MH)'),
 V(D,'add_file_to_list(fname, arr, FT_MAILDIR)','add_file_to_list(de->d_name, arr, FT_MAILDIR)'),
 V(D,'add_file_to_list(fname, arr, FT_MAILDIR);',"if (strchr(de->d_name, ':')) add_file_to_list(fname, arr, FT_MAILDIR);"),
 V(D,MH,MH.replace("if (valid","if (de->d_name[0] != '.' || valid")),
 V(D,MH,MH.replace("if (valid_mh_filename_p(de->d_name)) {","if (!valid_mh_filename_p(de->d_name)) break; {")),
 V(D,'  d = opendir(folder);\n  if (d) {','  d = opendir(folder);\n  if (d && chdir(folder) == 0) {'),
 V(D,"      if ((p[0] == '.') && (p[1] == 0)) return 1;\n      else return 0;","      return 0;"),
 V(D,"if (!isdigit(*p)) {","if (!isdigit(*p) || *p == '0') {"),
 V(D,"  if (!*x) return 0; /* Must not be empty */\n","  if (!*x || !x[1]) return 0; /* Must not be empty */\n"),
 V(D,'has_child_dir(path, "tmp") &&\n','has_child_file(path, "tmp") &&\n'),
 V(D,'has_child_dir(path, "tmp") &&\n','has_child_dir(path, "tmp") ||\n'),
 V(D,'        has_child_file(path, ".claws_mark") ||\n',''),
 V(D,'has_child_file(path, "index")','has_child_dir(path, "index")'),
 V(D,'(status >= 0) && S_ISREG(sb.st_mode)','(status >= 0) && !S_ISDIR(sb.st_mode)'),
 V(D,'(status >= 0) && S_ISDIR(sb.st_mode)','(status > 0) && S_ISDIR(sb.st_mode)'),
 V(D,'result = stat(scratch, sb);','result = stat(child, sb);'),
 V(D,'!strcmp(de_name, "new") ||','!strncmp(de_name, "new", 3) ||'),
 V(D,'  if (parent_is_maildir) {\n','  if (1) {\n'),
 V(D,'  if (valid_mh_filename_p(de_name)) {\n    return TRAV_IGNORE;','  if (valid_mh_filename_p(de_name)) {\n    return TRAV_FINISH;'),
 V(D,'  if (valid_mh_filename_p(de_name)) {\n    return TRAV_IGNORE;','  if (parent_is_mh) {\n    return TRAV_IGNORE;'),
 V(D,'&maildir_traverse_methods, omit_globs);\n      for (i=0; i<n_paths; i++)','&maildir_traverse_methods, omit_globs);\n      for (i=0; i<n_raw_paths; i++)'),
 V(D,'&mh_traverse_methods, omit_globs);','&mh_traverse_methods, NULL);'),
 V(D,'&mh_traverse_methods, omit_globs);','&maildir_traverse_methods, omit_globs);'),
 V(D,'raw_paths, n_raw_paths, &paths, &n_paths, &mh_tr','raw_paths, 1, &paths, &n_paths, &mh_tr'),
 V(D,'    arr->max += 1024;\n','    arr->max += 1024;\n    return;\n'),
 V(D,'  ++arr->n;\n  return;\n}\n/*}}}*/\nstatic void get_maildir','  if (arr->n < 65535) ++arr->n;\n  return;\n}\n/*}}}*/\nstatic void get_maildir'),
 # mbox.c
 V(M,"is_abs = (path[0] == '/') ? 1 : 0;","is_abs = (path[0] == '/' || path[0] == '.') ? 1 : 0;"),
 V(M,'base_len = strlen(folder_base) + 1;','base_len = strlen(folder_base);'),
 V(M,'    base_len = 0;\n','    base_len = strlen(folder_base) + 1;\n'),
 V(M,'(len >= 4) && !strcmp','(len >= 4) && !is_wild(last_comp) && !strcmp'),
 V(M,'full_path[len - 3] =','full_path[len - 4] ='),
 V(M,'last_comp, list, append_deep, methods, omit_globs);','last_comp, list, append_shallow, methods, omit_globs);'),
 V(M,'handle_single(full_path, base_len, list, append_deep, methods','handle_single(full_path, base_len, list, append_shallow, methods'),
 V(M,'handle_single(full_path, base_len, list, append_shallow, methods','handle_single(full_path, base_len, list, append_deep, methods'),
 V(M,"      case '[':\n      case '*':\n      case '?':\n        return 1;","      case '[':\n      case '*':\n        return 1;"),
 V(M,"      if (*p == '/') result = p;\n    p++;","      if (*p == '/') return p;\n    p++;") if 0 else V(M,"    if (*p == '/') result = p;\n","    if (*p == '/' && !result) result = p;\n"),
 V(M,"  for (i=0; i<n_in; i++) {\n    char *path = paths_in[i];","  for (i=1; i<n_in; i++) {\n    char *path = paths_in[i];"),
 V(M,"handle_one_path(folder_base, path, &list, methods, omit_globs);","handle_one_path(folder_base, path, &list, methods, NULL);"),
 V(M,"    if (!is_globber_array_match(omit_globs, path + base_len)) {\n      struct string_list","    if (!is_globber_array_match(omit_globs, path)) {\n      struct string_list"),
 V(M,"    if (!is_globber_array_match(omit_globs, path + base_len)) {\n      struct string_list","    {\n      struct string_list"),
 V(M,"  if ((methods->filter)(path, sb)) {","  if (methods->filter && sb->st_size > 0 && (methods->filter)(path, sb)) {"),
 V(M,"      nn->prev = list->prev;\n      list->prev->next = nn;\n      list->prev = nn;\n      result","      nn->prev = list->prev;\n      list->next = nn;\n      list->prev = nn;\n      result"),
 V(M,"  this_file_matched = append_shallow(path, base_len, sb, list, methods, omit_globs);","  this_file_matched = S_ISDIR(sb->st_mode) ? 0 : append_shallow(path, base_len, sb, list, methods, omit_globs);"),
 V(M,'        if (!strcmp(de->d_name, ".")) continue;\n        if (!strcmp(de->d_name, "..")) continue;\n        strcpy(xpath, path)',"        if (de->d_name[0] == '.') continue;\n        strcpy(xpath, path)"),
 V(M,"              if (stat(xpath, &sb2) >= 0) {","              if (lstat(xpath, &sb2) >= 0) {"),
 V(M,"              if (stat(xpath, &sb2) >= 0) {","              if (stat(xpath, &sb2) < 0) goto done_this_dir; {"),
 V(M,"                } else if (S_ISDIR(sb2.st_mode)) {","                } else if (S_ISDIR(sb2.st_mode) && !this_file_matched) {"),
 V(M,"appended_any |= append_deep(xpath, base_len, &sb2, list, methods, omit_globs);","appended_any |= append_shallow(xpath, base_len, &sb2, list, methods, omit_globs);"),
 V(M,"appended_any |= append_deep(xpath,","appended_any = appended_any || append_deep(xpath,"),
 V(M,"        if (!is_globber_array_match(omit_globs, xpath+base_len)) {\n          /* Filter out omissions at this point, e.g. to avoid wasting time on\n           * a recursive expansion of a tree that's going to get pruned in at","        if (!is_globber_array_match(omit_globs, de->d_name)) {\n          /* Filter out omissions at this point, e.g. to avoid wasting time on\n           * a recursive expansion of a tree that's going to get pruned in at"),
 V(M,"status = (methods->scrutinize)(this_file_matched, de->d_name);","status = (methods->scrutinize)(appended_any, de->d_name);"),
 V(M,"      if (is_glob_match(gg, de->d_name)) {","      if (is_glob_match(gg, de->d_name) && !had_matches) {"),
 V(M,"            (*append)(xpath, base_len, &xsb, list, methods, omit_globs);","            (*append)(xpath, 0, &xsb, list, methods, omit_globs);"),
 V(M,"gg = make_globber(last_comp);","gg = make_globber(path);"),
 V(M,"        strcpy(xpath, temp_path);\n","        strcpy(xpath, path);\n"),
 V(M,"    memcpy(temp_path, path, len-1);\n    temp_path[len-1] =","    memcpy(temp_path, path, len-2);\n    temp_path[len-2] ="),
 V(M,"  if (S_ISREG(sb->st_mode))\n    return 1;","  if (!S_ISDIR(sb->st_mode))\n    return 1;"),
 V(M,"  /* We have to keep looking at everything in this case. */\n  return TRAV_PROCESS;","  return (de_name[0] == '.') ? TRAV_IGNORE : TRAV_PROCESS;"),
 V(M,"if (S_ISLNK(sb.st_mode) && !do_mbox_symlinks) {","if (S_ISLNK(sb.st_mode)) {"),
 V(M,"if (S_ISLNK(sb.st_mode) && !do_mbox_symlinks) {","if (do_mbox_symlinks && !S_ISLNK(sb.st_mode)) {"),
 V(M,"extant_mboxen[n_extant].full_path = new_string(path);","extant_mboxen[i].full_path = new_string(path);"),
 V(M,"raw_paths, n_raw_paths, &paths, &n_paths, &mbox_traverse_methods, omit_globs);","raw_paths, n_raw_paths, &paths, &n_paths, &mbox_traverse_methods, NULL);"),
 V(M,"&mbox_traverse_methods, omit_globs);","&mh_traverse_methods, omit_globs);"),
 # glob.c
 V(G,"if (is_glob_match(ga->globs[i], s)) return 1;","if (!is_glob_match(ga->globs[i], s)) return 0;"),
 V(G,"  for (i=0; i<ga->n; i++) {\n    if (is_gl","  for (i=1; i<ga->n; i++) {\n    if (is_gl"),
 V(G,"  for (N=0, a=list->next; a!=list; a=a->next, N++) ;","  for (N=0, a=list->next; a->next!=list; a=a->next, N++) ;"),
 V(G,"    result[i] = a->data;\n","    result[i] = i ? a->data : list->data;\n"),
 # ---- quiet
 Q(D,MD,MD.replace('''        if (!strcmp(de->d_name, ".") ||
            !strcmp(de->d_name, "..")) {
          continue;
        }
''','''        if (de->d_name[0] == '.' && (de->d_name[1] == 0 || (de->d_name[1] == '.' && de->d_name[2] == 0))) {
          continue;
        }
''')),
 Q(D,MH,'''      if (valid_mh_filename_p(de->d_name)) {
        strcpy(fname, folder);
        strcat(fname, "/");
        strcat(fname, de->d_name);
        add_file_to_list(fname, arr, FT_MH);
      }
'''),
 Q(D,MH,MH.replace('''      strcpy(fname, folder);
      strcat(fname, "/");
      strcat(fname, de->d_name);
''','''      sprintf(fname, "%s/%s", folder, de->d_name);
''')),
 Q(D,'static void get_mh_message_paths','static int is_dot(const char *n)\n{\n  return !strcmp(n, ".") || !strcmp(n, "..");\n}\nstatic void get_mh_message_paths',D,MH,MH.replace('!strcmp(de->d_name, ".") ||\n          !strcmp(de->d_name, "..")','is_dot(de->d_name)')),
 Q(D,'''    d = opendir(subdir);
    if (d) {
      while''','''    d = opendir(subdir);
    if (!d) continue;
    {
      while'''),
 Q(D,'''      for (i=0; i<n_paths; i++) {
        get_mh_message_paths(paths[i], msgs);
      }''','''      i = 0;
      while (i < n_paths) {
        get_mh_message_paths(paths[i++], msgs);
      }'''),
 Q(D,'''  arr->paths[arr->n].type = MTY_FILE;
  arr->paths[arr->n].src.mpf.path = y;
  arr->paths[arr->n].source_ft = ft;
  ++arr->n;
''','''  struct msgpath *mp = &arr->paths[arr->n++];
  mp->source_ft = ft;
  mp->src.mpf.path = y;
  mp->type = MTY_FILE;
'''),
 Q(D,'''  p = x;
  while (*p) {
    if (!isdigit(*p)) {''','''  for (p = x; *p; p++) {
    if (!isdigit((unsigned char) *p)) {''',D,'''      else return 0;
    }
    p++;
  }''','''      else return 0;
    }
  }'''),
 Q(D,'''    if (has_child_dir(path, "new") &&
        has_child_dir(path, "tmp") &&
        has_child_dir(path, "cur")) {
      return 1;
    }''','''    if (!has_child_dir(path, "tmp")) return 0;
    return has_child_dir(path, "cur") && has_child_dir(path, "new");'''),
 Q(M,'''        if (!strcmp(de->d_name, ".")) continue;
        if (!strcmp(de->d_name, "..")) continue;
        strcpy(xpath, path);
        strcat(xpath, "/");
        strcat(xpath, de->d_name);
''','''        if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
        sprintf(xpath, "%s/%s", path, de->d_name);
'''),
 Q(M,'''          switch (status) {
            case TRAV_FINISH:
              goto done_this_dir;
            case TRAV_IGNORE:
              goto next_path;
            case TRAV_PROCESS:
              if (stat(xpath, &sb2) >= 0) {''','''          if (status == TRAV_FINISH) break;
          if (status == TRAV_IGNORE) continue;
          {
              if (stat(xpath, &sb2) == 0) {''',M,'''              }
              break;
          }
        }
next_path:
        (void) 0;
      }
done_this_dir:
      closedir(d);''','''              }
          }
        }
      }
      closedir(d);'''),
 Q(M,'''  if ((methods->filter)(path, sb)) {
    if (!is_globber_array_match(omit_globs, path + base_len)) {
      struct string_list *nn = new(struct string_list);''','''  if (!(methods->filter)(path, sb)) return 0;
  {
    if (!is_globber_array_match(omit_globs, path + base_len)) {
      struct string_list *nn = new(struct string_list);'''),
 Q(M,'''  const char *p;
  p = x;
  while (*p) {
    switch (*p) {
      case '[':
      case '*':
      case '?':
        return 1;
    }
    p++;
  }
  return 0;''','''  for (; *x; x++) {
    if (*x == '[' || *x == '*' || *x == '?') return 1;
  }
  return 0;'''),
 Q(M,'''  const char *p;
  p = x;
  while (*p) {
    switch (*p) {
      case '[':
      case '*':
      case '?':
        return 1;
    }
    p++;
  }
  return 0;''','''  return strpbrk(x, "[*?") != NULL;'''),
 Q(M,'''  char *p = in;
  char *result = NULL;
  while (*p) {
    if (*p == '/') result = p;
    p++;
  }
  return result;''','''  return strrchr(in, '/');'''),
 Q(M,'''    full_path[len - 3] = '\\0';
    if (is_wild(last_comp)) {
      handle_wild(full_path, base_len, last_comp, list, append_deep, methods, omit_globs);
    } else {
      handle_single(full_path, base_len, list, append_deep, methods, omit_globs);
    }
  } else {
    if (is_wild(last_comp)) {
      handle_wild(full_path, base_len, last_comp, list, append_shallow, methods, omit_globs);
    } else {
      handle_single(full_path, base_len, list, append_shallow, methods, omit_globs);
    }
  }''','''    full_path[len - 3] = '\\0';
    append = append_deep;
  } else {
    append = append_shallow;
  }
  if (is_wild(last_comp)) {
    handle_wild(full_path, base_len, last_comp, list, append, methods, omit_globs);
  } else {
    handle_single(full_path, base_len, list, append, methods, omit_globs);
  }''',M,'''  int is_abs;
  int len;
  char *last_slash;''','''  int (*append)(char *, int, struct stat *, struct string_list *,
                const struct traverse_methods *, struct globber_array *);
  int is_abs;
  int len;
  char *last_slash;'''),
 Q(G,'''  int i;
  if (!ga) return 0;
  for (i=0; i<ga->n; i++) {
    if (is_glob_match(ga->globs[i], s)) return 1;
  }
  return 0;''','''  int i, found = 0;
  if (ga) {
    for (i=0; i<ga->n && !found; i++) {
      found = is_glob_match(ga->globs[i], s);
    }
  }
  return found;'''),
 Q(G,'''  for (i=0, a=list->next; i<N; a=next_a, i++) {
    result[i] = a->data;
    next_a = a->next;
    free(a);
  }
''','''  i = 0;
  a = list->next;
  while (a != list) {
    next_a = a->next;
    result[i++] = a->data;
    free(a);
    a = next_a;
  }
'''),
 Q(M,'''    char *path = paths[i];
    if (lstat(path, &sb) < 0) {
      /* can't stat */
    } else {
      if''','''    char *path = paths[i];
    if (lstat(path, &sb) == 0) {
      if'''),
]
