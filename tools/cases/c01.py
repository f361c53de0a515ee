def V(*a): return ("C01","V")+a
def Q(*a): return ("C01","Q")+a
SIG="  signal(SIGHUP, handlesig);\n  signal(SIGINT, handlesig);\n  signal(SIGQUIT, handlesig);\n  signal(SIGPIPE, handlesig);\n  signal(SIGTERM, handlesig);\n"
UX="  unlock_database();\n  exit(code);\n"
MAINH="int main (int argc, char **argv)/*{{{*/\n"
CASES = [
 V("mairix.c","  signal(SIGQUIT, handlesig);\n",""),
 V("mairix.c","static void handlesig(int signo)/*{{{*/\n{\n  unlock_and_exit(7);","static void handlesig(int signo)/*{{{*/\n{\n  exit(7);"),
 V("mairix.c","static void handlesig(int signo)/*{{{*/\n{\n  unlock_and_exit(7);","static void handlesig(int signo)/*{{{*/\n{\n  unlock_database();"),
 V("dotlock.c",UX,"  exit(code);\n"),
 V("dotlock.c",UX,"  if (code != 2) unlock_database();\n  exit(code);\n"),
 V("mairix.c","  unlock_database();\n\n  return result;","  return result;"),
 V("mairix.c","  unlock_database();\n\n  return result;","  if (!result) unlock_database();\n\n  return result;"),
 V("mairix.c",'your \'folders\' setting\\n");\n      unlock_and_exit(2);','your \'folders\' setting\\n");\n      exit(2);'),
 V("mairix.c",'your \'folders\' setting\\n");\n      unlock_and_exit(2);','your \'folders\' setting\\n");\n      return 2;'),
 V("mairix.c","    result = search_top(","    unlock_database();\n    result = search_top("),
 V("mairix.c","  lock_database(database_path, do_forced_unlock);\n\n  if (do_dump) {\n    dump","  if (!do_dump) lock_database(database_path, do_forced_unlock);\n\n  if (do_dump) {\n    dump"),
 V("dotlock.c","  lock_file_name = lname;\n",""),
 V("dotlock.c","  lock_file_name = lname;\n  unlink(tname);\n","  lock_file_name = lname;\n"),
 V("dotlock.c","        unlink(tname);\n        exit(1);\n      } else {","        exit(1);\n      } else {"),
 V("mairix.c",SIG,"","mairix.c","  lock_database(database_path, do_forced_unlock);\n","  lock_database(database_path, do_forced_unlock);\n"+SIG),
 V("imap.c",'\tclose(r[1]);\n\tclose(w[0]);\n\n\tll = malloc','\tsignal(SIGPIPE, SIG_DFL);\n\tclose(r[1]);\n\tclose(w[0]);\n\n\tll = malloc'),
 V("mairix.c",'size %d bytes)\\n"',"size %d bytes)\\n\"") if 0 else V("mairix.c","void out_of_mem(char *file, int line, size_t size)/*{{{*/\n{","void out_of_mem(char *file, int line, size_t size)/*{{{*/\n{\n  if (size > 65536) exit(2);"),
 V("dotlock.c","    unlink(lock_file_name);\n    /* From here on the file is somebody else's, if it exists. */\n    lock_file_name = NULL;\n","    lock_file_name = NULL;\n    unlink(lock_file_name);\n"),
 V("dotlock.c","  hold_signals(&old);\n  out = ","  out = "),
 V("dotlock.c","  lock_file_name = lname;\n  unlink(tname);\n  sigprocmask(SIG_SETMASK, &old, NULL);\n","  sigprocmask(SIG_SETMASK, &old, NULL);\n  lock_file_name = lname;\n  unlink(tname);\n"),
 V("mairix.c","  signal(SIGABRT, handleabort);\n",""),
 V("mairix.c","    dump_database(database_path);\n    result","    unlock_database();\n    dump_database(database_path);\n    result"),
 V("search.c",'    fprintf(stderr, "Could not create directory %s\\n", path);\n    unlock_and_exit(2);','    fprintf(stderr, "Could not create directory %s\\n", path);\n    _exit(2);'),
 V("search.c",'    fprintf(stderr, "Could not create directory %s\\n", path);\n    unlock_and_exit(2);','    fprintf(stderr, "Could not create directory %s\\n", path);\n    signal(SIGABRT, SIG_DFL);\n    abort();',"search.c",'#include "mairix.h"','#include <signal.h>\n#include "mairix.h"'),
 V("imap.c",'\t\tfprintf(stderr, "fork failed\\n");\n\t\treturn NULL;','\t\tfprintf(stderr, "fork failed\\n");\n\t\t_exit(1);'),
 V("mairix.c","  signal(SIGTERM, handlesig);\n","  signal(SIGTERM, SIG_IGN);\n") if 0 else V("mairix.c","  signal(SIGTERM, handlesig);\n","  signal(SIGTERM, handlesig);\n  signal(SIGHUP, SIG_DFL);\n"),
 V("mairix.c","    result = search_top(","    signal(SIGINT, SIG_DFL);\n    result = search_top("),
 V("search.c","  result = do_search(db, argv, complete_mfolder","  unlock_database();\n  result = do_search(db, argv, complete_mfolder"),
 V("mairix.c","  if (do_dump) {\n    dump_database(database_path);\n    result = 0;\n","  if (do_dump) {\n    dump_database(database_path);\n    result = 0;\n    return result;\n"),
 # quiet
 Q("mairix.c",SIG,"  {\n    static const int sigs[] = { SIGHUP, SIGINT, SIGQUIT, SIGPIPE, SIGTERM };\n    size_t k;\n    for (k = 0; k < sizeof(sigs)/sizeof(sigs[0]); k++) signal(sigs[k], handlesig);\n  }\n"),
 Q("mairix.c",MAINH,"static void catch_signals(void)\n{\n"+SIG+"}\n"+MAINH,"mairix.c","result;\n"+SIG if 0 else "  signal(SIGABRT, handleabort);\n\n  lock","  catch_signals();\n  signal(SIGABRT, handleabort);\n  lock","mairix.c","concurrent searching and indexing. */\n\n"+SIG,"concurrent searching and indexing. */\n"),
 Q("mairix.c",SIG,"  {\n    struct sigaction sa;\n    memset(&sa, 0, sizeof(sa));\n    sa.sa_handler = handlesig;\n    sigemptyset(&sa.sa_mask);\n    sigaction(SIGHUP, &sa, NULL);\n    sigaction(SIGINT, &sa, NULL);\n    sigaction(SIGQUIT, &sa, NULL);\n    sigaction(SIGPIPE, &sa, NULL);\n    sigaction(SIGTERM, &sa, NULL);\n  }\n"),
 Q("dotlock.c","  if (lock_file_name) {\n    sigset_t old;\n    hold_signals(&old);\n    unlink(lock_file_name);","  char *l = lock_file_name;\n  if (l) {\n    sigset_t old;\n    hold_signals(&old);\n    unlink(l);"),
 Q("mairix.c","  unlock_database();\n\n  return result;","  unlock_and_exit(result);\n  return result;"),
 Q("dotlock.c","void lock_database(char *path, int forced_unlock)","static void lock_failed(char *tname)\n{\n  unlink(tname);\n  exit(1);\n}\nvoid lock_database(char *path, int forced_unlock)","dotlock.c","        unlink(tname);\n        exit(1);\n      } else {","        lock_failed(tname);\n      } else {"),
 Q("mairix.c",MAINH,"static int do_index(void);\nstatic int finish(int result)\n{\n  unlock_database();\n  return result;\n}\n"+MAINH,"mairix.c","  unlock_database();\n\n  return result;","  return finish(result);","mairix.c","static int do_index(void);\n",""),
 Q("mairix.c","    dump_database(database_path);\n    result = 0;\n","    dump_database(database_path);\n    unlock_database();\n    return 0;\n"),
]
