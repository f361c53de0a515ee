def V(*a): return ("C02","V")+a
def Q(*a): return ("C02","Q")+a
LK="  if (link(tname, lname) < 0) {\n"
CREATE='  out = fopen(tname, "w");\n  if (!out) {\n    fprintf(stderr, "Cannot open lock file %s for writing\\n", tname);\n    exit(1);\n  }\n  fprintf(out, "%d,%s,%s\\n", pid, uu.nodename, pw->pw_name);\n  fclose(out);\n'
HEAD="void lock_database(char *path, int forced_unlock)/*{{{*/\n"
CASES = [
 V("dotlock.c","link(tname, lname)","rename(tname, lname)"),
 V("dotlock.c","sb.st_nlink != 2","sb.st_nlink > 2"),
 V("dotlock.c","        unlink(tname);\n        exit(1);\n      } else {","        unlink(tname);\n        exit(0);\n      } else {"),
 V("dotlock.c","  if (forced_unlock) {\n    unlink(lname);\n    forced_unlock = 0;\n  }","  unlink(lname);"),
 V("dotlock.c","        unlink(tname);\n        exit(1);\n      } else {","        unlink(tname);\n        unlink(lname);\n        exit(1);\n      } else {"),
 V("dotlock.c","  lock_file_name = lname;\n","","dotlock.c",'  sprintf(lname, "%s.lock", path);\n','  sprintf(lname, "%s.lock", path);\n  lock_file_name = lname;\n'),
 V("dotlock.c","        unlink(tname);\n        exit(1);\n      } else {","        unlink(tname);\n        return;\n      } else {"),
 V("dotlock.c",'sprintf(lname, "%s.lock", path)','sprintf(lname, "%s", "/tmp/mairix.lock")',"dotlock.c","  len = 1 + strlen(path) + 5;","  len = 64 + strlen(path);"),
 V("dotlock.c",'sprintf(tname, "%s.%d.%s", lname, pid, uu.nodename)','sprintf(tname, "%s.%s", lname, uu.nodename)'),
 V("dotlock.c",'in = fopen(lname, "r")','in = fopen(lname, "w+")'),
 V("mairix.c","lock_database(database_path, do_forced_unlock)","lock_database(database_path, do_purge || do_forced_unlock)"),
 V("mairix.c","lock_database(database_path, do_forced_unlock)","lock_database(folder_base, do_forced_unlock)"),
 V("dotlock.c","if (stat(tname, &sb) < 0)","if (stat(lname, &sb) < 0)"),
 V("dotlock.c","          fclose(in);\n        } else","          fclose(in);\n          if (atoi(line) && kill(atoi(line), 0) < 0) {\n            unlink(lname);\n            if (!link(tname, lname)) goto got;\n          }\n        } else","dotlock.c","  lock_file_name = lname;\n","got:\n  lock_file_name = lname;\n","dotlock.c","#include <unistd.h>","#include <unistd.h>\n#include <signal.h>") ,
 V("dotlock.c",LK,"  if (link(tname, lname) < 0 && errno != EEXIST) {\n","dotlock.c",'#include "mairix.h"','#include "mairix.h"\n#include <errno.h>'),
 V("dotlock.c",LK,"  if (access(lname, F_OK) == 0) {\n    link(tname, lname);\n"),
 V("dotlock.c","    lock_file_name = NULL;\n    sigprocmask","    sigprocmask"),
 V("dotlock.c","    unlink(lock_file_name);\n","    if (access(lock_file_name, W_OK) == 0) unlink(lock_file_name);\n"),
 V("dotlock.c","    hold_signals(&old);\n    unlink(lock_file_name);","    unlink(lock_file_name);\n    hold_signals(&old);"),
 V("dotlock.c",CREATE,CREATE.replace("fopen(tname","fopen(lname")),
 V("dotlock.c",CREATE+"\n"+LK,'  if (stat(lname, &sb) == 0) exit(1);\n'+CREATE.replace("tname","lname")+"\n  if (0) {\n"),
 V("dotlock.c",'      fprintf(stderr, "Could not stat the lock file\\n");\n      unlink(tname);\n      exit(1);','      fprintf(stderr, "Could not stat the lock file\\n");\n      unlink(tname);'),
 V("dotlock.c",'    fprintf(stderr, "Cannot open lock file %s for writing\\n", tname);\n    exit(1);','    fprintf(stderr, "Cannot open lock file %s for writing\\n", tname);\n    return;'),
 V("mairix.c","      do_forced_unlock = 1;","      do_forced_unlock = 1;","mairix.c","  lock_database(database_path","  if (do_search) do_forced_unlock = 1;\n  lock_database(database_path"),
 # quiet
 Q("dotlock.c",HEAD,"static int try_link(const char *t, const char *l)\n{\n  struct stat sb;\n  if (link(t, l) == 0) return 1;\n  return stat(t, &sb) == 0 && sb.st_nlink == 2;\n}\n"+HEAD,"dotlock.c",LK+"    /* check if link count==2 */\n    if (stat(tname, &sb) < 0) {","  if (!try_link(tname, lname)) {\n    if (stat(tname, &sb) < 0) {","dotlock.c","if (sb.st_nlink != 2) {","{","dotlock.c","      } else {\n        /* lock succeeded apparently */\n      }\n","      }\n"),
 Q("dotlock.c",HEAD,"static char *lock_name(const char *path)\n{\n  char *r = new_array(char, 6 + strlen(path));\n  sprintf(r, \"%s.lock\", path);\n  return r;\n}\n"+HEAD,"dotlock.c",'  lname = new_array(char, len);\n  sprintf(lname, "%s.lock", path);\n',"  lname = lock_name(path);\n"),
 Q("dotlock.c",'  sprintf(lname, "%s.lock", path);\n','  strcpy(lname, path);\n  strcat(lname, ".lock");\n'),
 Q("dotlock.c",'  sprintf(tname, "%s.%d.%s", lname, pid, uu.nodename);\n','  {\n    char num[16];\n    sprintf(num, ".%d.", pid);\n    strcpy(tname, lname);\n    strcat(tname, num);\n    strcat(tname, uu.nodename);\n  }\n'),
 Q("dotlock.c",'  sprintf(tname, "%s.%d.%s", lname, pid, uu.nodename);\n','  snprintf(tname, len, "%s.%d.%s", lname, pid, uu.nodename);\n'),
 Q("dotlock.c",HEAD,"static void write_owner(const char *tname, int pid, const char *node, const char *user)\n{\n"+CREATE.replace("uu.nodename, pw->pw_name","node, user").replace("  out = fopen","  FILE *out = fopen")+"}\n"+HEAD,"dotlock.c","  len += (10 + 2);\n","  len += (10 + 2);\n","dotlock.c","  FILE *out;\n","","dotlock.c",'pid, uu.nodename);\n  hold_signals(&old);\n'+CREATE,'pid, uu.nodename);\n  hold_signals(&old);\n  write_owner(tname, pid, uu.nodename, pw->pw_name);\n'),
 Q("dotlock.c","  if (forced_unlock) {\n    unlink(lname);\n    forced_unlock = 0;\n  }","  if (forced_unlock)\n    remove(lname);"),
 Q("dotlock.c",HEAD,"static void give_up(char *tname)\n{\n  unlink(tname);\n  exit(1);\n}\n"+HEAD,"dotlock.c","        unlink(tname);\n        exit(1);\n      } else {","        give_up(tname);\n      } else {","dotlock.c",'file\\n");\n      unlink(tname);\n      exit(1);','file\\n");\n      give_up(tname);'),
 Q("dotlock.c","  if (lock_file_name) {\n    sigset_t old;\n    hold_signals(&old);\n    unlink(lock_file_name);","  char *l = lock_file_name;\n  if (l) {\n    sigset_t old;\n    hold_signals(&old);\n    unlink(l);"),
]
