def V(*a): return ("C20","V")+a
def Q(*a): return ("C20","Q")+a
R="rfc822.c"; S="search.c"; D="dirscan.c"; M="mbox.c"
CASES=[
 # folders
 V(D,"        add_file_to_list(fname, arr, FT_MAILDIR);\n      }\n      closedir(d);\n","        add_file_to_list(fname, arr, FT_MAILDIR);\n      }\n"),
 V(D,"        strcpy(fname, subdir);\n","        if (strlen(de->d_name) > NAME_MAX) return;\n        strcpy(fname, subdir);\n"),
 V(D,"        add_file_to_list(fname, arr, FT_MH);\n      }\n    }\n    closedir(d);\n  }\n","        add_file_to_list(fname, arr, FT_MH);\n      }\n    }\n  }\n  closedir(d);\n"),
 V(D,"        add_file_to_list(fname, arr, FT_MH);\n      }\n    }\n    closedir(d);\n","        add_file_to_list(fname, arr, FT_MH);\n      }\n    }\n    closedir(d);\n    rewinddir(d);\n"),
 V(S,"          }\n        }\n      }\n    }\n    closedir(d);\n","          }\n        }\n      }\n    }\n    if (len) closedir(d);\n"),
 V(M,"          if (stat(xpath, &xsb) >= 0) {\n            (*append)","          if (stat(xpath, &xsb) < 0) return;\n          {\n            (*append)"),
 # files
 V("mairix.c","    if (len > sizeof(line) - 4) {\n","    if (!line[0]) return;\n    if (len > sizeof(line) - 4) {\n"),
 V("writer.c","  *out_data = data;\n  *out_fd = fd;\n","  *out_data = data;\n  *out_fd = fd;\n  fd = open(filename, O_RDONLY);\n"),
 V("reader.c","  if (!data) {\n    /* Empty file opened => database corrupt for sure */\n    if (close(fd) < 0) {\n      report_error(\"close\", filename);\n      unlock_and_exit(2);\n    }\n","  if (!data) {\n"),
 Q("dotlock.c","          fclose(in);\n        } else {","        } else {"),
 V(S,"    if (out) {\n      fprintf(out, \"X-source","    {\n      fprintf(out, \"X-source"),
 V(S,"  fwrite(data, 1, len, fp);\n  fclose(fp);\n","  if (fwrite(data, 1, len, fp) == len) fclose(fp);\n"),
 V(S,"  fwrite(data, 1, len, fp);\n  fclose(fp);\n","  fclose(fp);\n  fwrite(data, 1, len, fp);\n"),
 V(R,"    if (tmpf)\n      fclose(tmpf);\n","    if (tmpf && zf)\n      fclose(tmpf);\n"),
 V(R,"    if (zf)\n      xx_zclose(zf);\n",""),
 V(R,"    xx_zclose(zf);\n    zf = NULL;\n","    zf = NULL;\n"),
 V(R,"    if (tmpf)\n      fclose(tmpf);\n","    fclose(tmpf);\n"),
 V(R,"  if (close(fd) < 0)\n    report_error(\"close\", filename);\n",""),
 V(R,"  *data = (unsigned char *) mmap(0, *len, PROT_READ, MAP_SHARED, fd, 0);\n  if (close(fd) < 0)\n    report_error(\"close\", filename);\n  if (*data == MAP_FAILED) {\n    report_error(\"rfc822:mmap\", filename);\n    *data = NULL;\n    return;\n  }\n",
   "  *data = (unsigned char *) mmap(0, *len, PROT_READ, MAP_SHARED, fd, 0);\n  if (*data == MAP_FAILED) {\n    report_error(\"rfc822:mmap\", filename);\n    *data = NULL;\n    return;\n  }\n  if (close(fd) < 0)\n    report_error(\"close\", filename);\n"),
 # mapped text
 V(R,"      data_alloc_type = ALLOC_NONE; /* it belongs to the cache */\n",""),
 V(R,"    data_alloc_type = ALLOC_NONE;\n","    data_alloc_type = ALLOC_MMAP;\n"),
 V(R,"    data_alloc_type = ALLOC_NONE;\n","    data_alloc_type = ALLOC_MALLOC;\n"),
 V(R,"  data_alloc_type = ALLOC_MMAP;\n",""),
 V(R,"  data_alloc_type = ALLOC_MMAP;\n","  if (*len > 4096) data_alloc_type = ALLOC_MMAP;\n"),
 V(R,"  if(data_alloc_type == ALLOC_MMAP) {\n","  if(data_alloc_type != ALLOC_MALLOC) {\n"),
 V(R,"    r = munmap(data, len);\n","    r = munmap(data, len & ~4095);\n"),
 V(R,"    *data = NULL;\n    *len = 0;\n    free(p);\n","    *len = 0;\n    free(p);\n"),
 V(R,"    free_ro_mapping(data, len);\n  }\n\n  return result;","  }\n\n  return result;"),
 V(R,"  if (data)\n  {\n    struct msg_src *src;\n","  if (data && len > 1)\n  {\n    struct msg_src *src;\n"),
 V(R,"    free_ro_mapping(data, len);\n  }\n\n  return result;","  }\n  free_ro_mapping(data, len);\n\n  return result;"),
 V(S,"    mbox_terminate(data, len, out);\n    free_ro_mapping(data, len);\n","    free_ro_mapping(data, len);\n    mbox_terminate(data, len, out);\n"),
 V(S,"    mbox_terminate(msg_start, msg_len, out);\n  }\n  if (mbox_start) {\n    free_ro_mapping(mbox_start, mbox_len);\n  }\n","    mbox_terminate(msg_start, msg_len, out);\n    free_ro_mapping(mbox_start, mbox_len);\n  }\n"),
 V(S,"    mbox_terminate(msg_start, msg_len, out);\n  }\n  if (mbox_start) {\n    free_ro_mapping(mbox_start, mbox_len);\n","    mbox_terminate(msg_start, msg_len, out);\n  }\n  if (mbox_start) {\n    free_ro_mapping(msg_start, mbox_len);\n"),
 V(S,"    mbox_terminate(msg_start, msg_len, out);\n  }\n  if (mbox_start) {\n    free_ro_mapping(mbox_start, mbox_len);\n","    mbox_terminate(msg_start, msg_len, out);\n  }\n  if (mbox_start) {\n    free_ro_mapping(mbox_start, msg_len);\n"),
 V(S,"  if (data) {\n    free_ro_mapping(data, mbox_len);\n  }\n  return;\n","  if (start) {\n    free_ro_mapping(data, mbox_len);\n  }\n  return;\n"),
 V(S,"              if (data) {\n                imap_append_new_message(imapc, output_path, data, len, is_seen, is_replied, is_flagged);\n                free_ro_mapping(data, len);\n","              if (data) {\n                imap_append_new_message(imapc, output_path, data, len, is_seen, is_replied, is_flagged);\n"),
 V(M,"          rescan_mbox(mb, (char *) va, len);\n          free_ro_mapping(va, len);\n","          free_ro_mapping(va, len);\n          rescan_mbox(mb, (char *) va, len);\n"),
 V(M,"      if (va) {\n        free_ro_mapping(va, valen);\n","      if (va && valen < 65536) {\n        free_ro_mapping(va, valen);\n"),
 V(M,"      if (va) {\n        free_ro_mapping(va, valen);\n      }\n",""),
 V(M,"        if (!va) {\n          create_ro_mapping","        {\n          create_ro_mapping"),
 V(R,"    munmap(ro->map, ro->len);\n    ro->map = NULL;\n","    ro->map = NULL;\n"),
 V(R,"    munmap(ro->map, ro->len);\n    ro->map = NULL;\n","    munmap(ro->map, len);\n    ro->map = NULL;\n"),
 V(R,"    ro->map = NULL;\n    perror(\"rfc822:mmap\");\n    return NULL;\n","    perror(\"rfc822:mmap\");\n    return NULL;\n"),
 V(R,"    perror(\"rfc822:mmap\");\n    return NULL;\n","    perror(\"rfc822:mmap\");\n"),
 V(R,"    if (strcmp(filename, ro->filename) == 0)\n      return ro;","    if (strcmp(filename, ro->filename) <= 0)\n      return ro;") if 0 else
 V(R,"    if (strcmp(filename, ro->filename) == 0)\n      return ro;","    if (strcmp(filename, ro->filename) >= 0)\n      return ro;"),
 V(R,"    if (strcmp(filename, ro->filename) == 0)\n      return ro;","    if (strncmp(filename, ro->filename, 20) == 0)\n      return ro;"),
 Q(R,"    if (strcmp(filename, ro->filename) == 0)\n      return ro;","    if (!strcmp(ro->filename, filename)) {\n      if (verbose) fprintf(stderr, \"cached\\n\");\n      return ro;\n    }"),
 # quiet
 Q(D,"      closedir(d);\n    }\n  }\n  free(subdir);","      if (closedir(d) < 0) report_error(\"closedir\", subdir);\n    }\n  }\n  free(subdir);"),
 Q(R,"    if (tmpf)\n      fclose(tmpf);\n    return;\n","    if (tmpf != NULL) {\n      fclose(tmpf);\n    }\n    return;\n"),
 Q(R,"static struct msg_src *setup_msg_src(","static void drop_text(unsigned char *d, int l) { if (d) free_ro_mapping(d, l); }\nstatic struct msg_src *setup_msg_src(",
   R,"    free_ro_mapping(data, len);\n  }\n\n  return result;","  }\n  drop_text(data, len);\n\n  return result;"),
 Q(S,"static void append_mboxmsg_to_mbox(","static void drop_mbox(unsigned char *d, int l) { if (!d) return; free_ro_mapping(d, l); }\nstatic void append_mboxmsg_to_mbox(",
   S,"    mbox_terminate(msg_start, msg_len, out);\n  }\n  if (mbox_start) {\n    free_ro_mapping(mbox_start, mbox_len);\n  }\n","    mbox_terminate(msg_start, msg_len, out);\n  }\n  drop_mbox(mbox_start, mbox_len);\n"),
 Q(S,"  create_ro_mapping(path, &data, &len, MAP_DECOMPRESS_IF_APPLICABLE);\n  if (data) {\n","  create_ro_mapping(path, &data, &len, MAP_DECOMPRESS_IF_APPLICABLE);\n  if (!data) return;\n  {\n"),
 Q(R,"  if(data_alloc_type == ALLOC_MALLOC) {\n    free(data);\n  }\n\n  if(data_alloc_type == ALLOC_MMAP) {\n    r = munmap(data, len);\n    if(r < 0) {\n      fprintf(stderr, \"munmap() errord\\n\");\n      unlock_and_exit(1);\n    }\n  }\n",
   "  switch (data_alloc_type) {\n    case ALLOC_MALLOC: free(data); break;\n    case ALLOC_MMAP:\n    r = munmap(data, len);\n    if(r < 0) {\n      fprintf(stderr, \"munmap() errord\\n\");\n      unlock_and_exit(1);\n    }\n    break;\n  }\n"),
 Q(R,"  if (data)\n  {\n    struct msg_src *src;\n","  if (data != NULL)\n  {\n    struct msg_src *src;\n"),
 Q(M,"        if (!va) {\n          create_ro_mapping(mb->path, &va, &valen,\n              MAP_DECOMPRESS_IF_APPLICABLE);\n        }\n        if (!va) {\n","        if (va == NULL) {\n          create_ro_mapping(mb->path, &va, &valen,\n              MAP_DECOMPRESS_IF_APPLICABLE);\n          if (!va) report_error(\"map\", mb->path);\n        }\n        if (!va) {\n"),
 Q(S,"  fwrite(data, 1, len, fp);\n  fclose(fp);\n","  if (fwrite(data, 1, len, fp) != len) {\n    fclose(fp);\n    return;\n  }\n  fclose(fp);\n"),
]
