def V(*a): return ("C18","V")+a
def Q(*a): return ("C18","Q")+a
W="writer.c"
EX="      unlock_and_exit(2);\n"
FS='  if (fsync(fd) < 0) {\n    report_error("fsync", filename);\n    unlock_and_exit(2);\n  }\n'
CL='  if (close(fd) < 0) {\n    report_error("close", filename);\n    unlock_and_exit(2);\n  }\n'
MU='  if (munmap(data, file_len) < 0) {\n    report_error("munmap", filename);\n    unlock_and_exit(2);\n  }\n'
LS='    if (lseek(fd, len - 1, SEEK_SET) < 0) {\n      report_error("lseek", filename);\n      unlock_and_exit(2);\n    }\n'
WR='    if (write(fd, "\\000", 1) < 0) {\n      report_error("write", filename);\n      unlock_and_exit(2);\n    }\n'
FT='    if (ftruncate(fd, len) < 0) {\n      report_error("ftruncate", filename);\n      unlock_and_exit(2);\n    }\n'
MM='  if (data == MAP_FAILED) {\n    report_error("writer:mmap", filename);\n    unlock_and_exit(2);\n  }\n'
OP='  if (fd < 0) {\n    report_error("open", filename);\n    unlock_and_exit(2);\n  }\n'
ST='  if (fstat(fd, &sb) < 0) {\n    report_error("stat", filename);\n    unlock_and_exit(2);\n  }\n'
VF='  if (!verify_mbox_size_constraints(db)) {\n    unlock_and_exit(1);\n  }\n'
IC='  if (do_integrity_checks) {\n    check_database_integrity(db);\n  }\n'
CR='  create_rw_mapping(filename, file_len, &fd, &data);\n'
CASES=[
 V(W,FS,"  fsync(fd);\n"),
 V(W,FS,FS.replace("    unlock_and_exit(2);\n","")),
 V(W,CL,"  close(fd);\n"),
 V(W,MU,"  munmap(data, file_len);\n"),
 V(W,MU,MU.replace("file_len","file_len - 1")),
 V(W,LS,"    lseek(fd, len - 1, SEEK_SET);\n"),
 V(W,LS,LS.replace("len - 1","len")),
 V(W,LS,LS.replace("SEEK_SET","SEEK_END")),
 V(W,WR,'    write(fd, "\\000", 1);\n'),
 V(W,WR,''),
 V(W,FT,'    ftruncate(fd, len);\n'),
 V(W,FT,FT.replace("unlock_and_exit(2)","unlock_and_exit(0)")),
 V(W,FT,FT.replace("fd, len","fd, len + 1")),
 V(W,"} else if (sb.st_size > len) {","} else if (sb.st_size > 2 * len) {"),
 V(W,"sb.st_size < len","sb.st_size == 0"),
 V(W,MM,""),
 V(W,MM,MM.replace("MAP_FAILED","NULL")),
 V(W,"PROT_READ|PROT_WRITE, MAP_SHARED","PROT_READ|PROT_WRITE, MAP_PRIVATE"),
 V(W,OP,OP.replace("    unlock_and_exit(2);\n","")),
 V(W,ST,ST.replace("unlock_and_exit(2)","sb.st_size = 0")),
 V(W,VF,""),
 V(W,VF,"  if (!verify_mbox_size_constraints(db)) {\n    fprintf(stderr, \"too big\\n\");\n  }\n"),
 V(W,VF,VF.replace("unlock_and_exit(1)","return")),
 V(W,VF,"",W,CR,CR+VF),
 V(W,VF,VF.replace("exit(1)","exit(0)")),
 V(W,IC,"  if (do_integrity_checks > 1) {\n    check_database_integrity(db);\n  }\n"),
 V(W,IC,"",W,CR,CR+IC),
 V(W,FS,"",W,"  write_header(data, uidata, db, &map);\n",FS+"  write_header(data, uidata, db, &map);\n"),
 V("mairix.c","    if (any_updates || any_purges) {","    if (any_updates) {"),
 V("mairix.c","    if (any_updates || any_purges) {","    if (any_updates && !do_purge) {"),
 V("mairix.c","    if (any_updates || any_purges) {","    if (any_updates && any_purges) {"),
 V("mairix.c","    if (any_updates || any_purges) {","    {"),
 V("mairix.c","      write_database(db, database_path, do_integrity_checks);","      write_database(db, database_path, do_integrity_checks);\n",
   "mairix.c","    if (any_updates || any_purges) {","    if (any_updates || (any_purges && !do_fast_index)) {"),
 V("db.c","          db->type[i] = MTY_DEAD;\n          ++n_newly_pruned;\n        }\n        break;\n      case MTY_MBOX:","          db->type[i] = MTY_DEAD;\n        }\n        break;\n      case MTY_MBOX:"),
 V("db.c","            db->type[i] = MTY_DEAD;\n            ++n_newly_pruned;","            db->type[i] = MTY_DEAD;"),
 V("db.c","  any_new |= add_mbox_messages(db);","  add_mbox_messages(db);"),
 V("db.c","  any_new |= add_mbox_messages(db);","  any_new &= add_mbox_messages(db);"),
 V("db.c","  return any_new || (n_newly_pruned > 0);","  return any_new;"),
 V("db.c","  return any_new || (n_newly_pruned > 0);","  return n_newly_pruned > 0;"),
 V("db.c","  return any_new || (n_newly_pruned > 0);","  return any_new || (n_newly_pruned > 1);"),
 # quiet
 Q(W,LS+WR,FT),
 Q(W,"  if (sb.st_size < len) {\n    /* Extend */\n"+LS+WR+"  } else if (sb.st_size > len) {\n    /* Truncate */\n"+FT+"  } else {","  if (sb.st_size != len) {\n"+FT+"  } else {"),
 Q(W,"static void create_rw_mapping(","static void fatal(const char *op, char *filename)\n{\n  report_error(op, filename);\n  unlock_and_exit(2);\n}\nstatic void create_rw_mapping(",W,FS,'  if (fsync(fd) < 0) fatal("fsync", filename);\n',W,LS,'    if (lseek(fd, len - 1, SEEK_SET) == -1) fatal("lseek", filename);\n',W,MM,'  if (data == MAP_FAILED)\n    fatal("mmap", filename);\n'),
 Q(W,WR,WR.replace("< 0","!= 1")),
 Q(W,FS+CL,'  int rc = fsync(fd);\n  if (rc == 0) rc = close(fd);\n  if (rc != 0) {\n    report_error("fsync/close", filename);\n    unlock_and_exit(2);\n  }\n'),
 Q(W,"sb.st_size < len","len > sb.st_size"),
 Q(W,VF,"  int ok = verify_mbox_size_constraints(db);\n  if (ok == 0) unlock_and_exit(1);\n"),
 Q("mairix.c","    if (any_updates || any_purges) {","    any_updates |= any_purges;\n    if (any_updates != 0) {"),
 Q("db.c","  return any_new || (n_newly_pruned > 0);","  if (n_newly_pruned) return 1;\n  return any_new ? 1 : 0;"),
 Q("db.c","  any_new |= add_mbox_messages(db);","  if (add_mbox_messages(db)) any_new = 1;"),
]
CASES+=[
 V("db.c","    if (!file_in_db[i]) {\n      /*","    if (!file_in_db[i]) {\n      any_new = 1;\n      /*"),
 V("db.c","            /* With MH, something","            any_new = 1;\n            /* With MH, something"),
 V("db.c","          any_new = 1;\n          break;","          break;"),
 Q("db.c","          any_new = 1;\n          break;","          ++any_new;\n          break;"),
]
