def V(*a): return ("C03","V")+a
def Q(*a): return ("C03","Q")+a
TC='    unlink(target_path);\n    out = fopen(target_path, "wb");\n'
WF='  unlink((char *)arg);\n  if (!(fp = fopen((char *)arg, "w"))) {'
CASES = [
 V("rfc822.c","  fd = open(filename, O_RDONLY);","  fd = open(filename, O_RDWR);"),
 V("rfc822.c","  *data = (unsigned char *) mmap(0, *len, PROT_READ, MAP_SHARED, fd, 0);","  *data = (unsigned char *) mmap(0, *len, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);"),
 V("rfc822.c","mmap(0, len, PROT_READ, MAP_SHARED, fd, 0);","mmap(0, len, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);"),
 V("search.c",TC,TC.split("\n",1)[1]),
 V("search.c",WF,WF.split("\n",1)[1]),
 V("search.c",TC,'    out = fopen(target_path, "r+b");\n    if (!out) out = fopen(target_path, "wb");\n'),
 V("search.c",TC,TC.replace("unlink(target_path)","unlink(db->data + db->mbox_paths_table[mbi])")),
 V("search.c",'        out = fopen(output_path, "ab");','        out = fopen(db->data + db->mbox_paths_table[0], "ab");'),
 V("writer.c","  fd = open(filename, O_RDWR | O_CREAT, 0600);","  { char t[4096]; sprintf(t, \"%s.bak\", getenv(\"HOME\")); rename(filename, t); }\n  fd = open(filename, O_RDWR | O_CREAT, 0600);"),
 V("search.c","  unlink(path);\n","  truncate(path, 0);\n") if 0 else V("mbox.c","    n_matches = 0;","    n_matches = 0;") if 0 else V("search.c","static void create_symlink(char *link_target, char *new_link)/*{{{*/\n{","static void create_symlink(char *link_target, char *new_link)/*{{{*/\n{\n  if (rename(link_target, new_link) == 0) return;"),
 V("search.c","static void create_symlink(char *link_target, char *new_link)/*{{{*/\n{","static void create_symlink(char *link_target, char *new_link)/*{{{*/\n{\n  chmod(link_target, 0600);"),
 V("search.c","symlink(link_target, new_link)","symlink(new_link, link_target)"),
 V("search.c","static void create_symlink(char *link_target, char *new_link)/*{{{*/\n{","static void create_symlink(char *link_target, char *new_link)/*{{{*/\n{\n  utime(link_target, NULL);","search.c",'#include "mairix.h"','#include <utime.h>\n#include "mairix.h"'),
 V("rfc822.c","xx_zopen(filename, \"rb\");","xx_zopen(filename, \"rb\"); { char t[4096]; snprintf(t, sizeof t, \"%s.tmp\", filename); FILE *o = fopen(t, \"w\"); if (o) fclose(o); }"),
 V("search.c",TC,'    out = fopen(target_path, "ab");\n'),
 V("search.c",TC,'    if (access(target_path, F_OK) == 0 && !do_hardlinks) unlink(target_path);\n    out = fopen(target_path, "wb");\n'),
 V("search.c",TC,'    out = fopen(target_path, "wb");\n    unlink(target_path);\n'),
 V("search.c",WF,'  int fd;\n  if ((fd = open((char *)arg, O_WRONLY|O_CREAT|O_TRUNC, 0600)) < 0 || !(fp = fdopen(fd, "w"))) {',"search.c",'#include "mairix.h"','#include <fcntl.h>\n#include "mairix.h"'),
 # quiet
 Q("search.c","static void try_copy_to_path(","static FILE *open_result(const char *name)\n{\n  unlink(name);\n  return fopen(name, \"wb\");\n}\nstatic void try_copy_to_path(","search.c",TC,"    out = open_result(target_path);\n"),
 Q("search.c","static void try_copy_to_path(","static void remove_old(const char *name)\n{\n  unlink(name);\n}\nstatic void try_copy_to_path(","search.c",TC,'    remove_old(target_path);\n    out = fopen(target_path, "wb");\n'),
 Q("search.c",TC,'    if (unlink(target_path) < 0 && errno != ENOENT)\n      fprintf(stderr, "Cannot remove %s\\n", target_path);\n    out = fopen(target_path, "wb");\n'),
 Q("search.c",WF,'  int fd;\n  unlink((char *)arg);\n  if ((fd = open((char *)arg, O_WRONLY|O_CREAT|O_EXCL, 0600)) < 0 || !(fp = fdopen(fd, "w"))) {',"search.c",'#include "mairix.h"','#include <fcntl.h>\n#include "mairix.h"'),
 Q("search.c",'        out = fopen(output_path, "ab");','        out = fopen(output_path, "a");'),
 Q("rfc822.c","  fd = open(filename, O_RDONLY);","  fd = open(filename, O_RDONLY | O_CLOEXEC);"),
 Q("rfc822.c","  *data = (unsigned char *) mmap(0, *len, PROT_READ, MAP_SHARED, fd, 0);","  *data = (unsigned char *) mmap(0, *len, PROT_READ, MAP_PRIVATE, fd, 0);"),
]
