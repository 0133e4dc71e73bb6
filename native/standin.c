/* A scripted interop implementation: standin LOG PLAN NAME [extra...] JSON
 * Appends one record of netstrings to LOG: number, name, arguments after NAME, tree of ./keys, action, text printed.
 * PLAN has lines "<number of the call> <action> [argument]"; actions: exit, signal, garbage, empty, noise. */
#define _XOPEN_SOURCE 700
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

static FILE *rec;
static char *tree;
static size_t tree_len;
static FILE *tree_f;

static void field(const char *s, size_t n) {
  fprintf(rec, "%zu:", n);
  fwrite(s, 1, n, rec);
  fputc(',', rec);
}

static int visit(const char *p, const struct stat *st, int t, struct FTW *f) {
  fprintf(tree_f, "%c%s\n", t == FTW_D || t == FTW_DNR ? 'd' : t == FTW_SL || t == FTW_SLN ? 'l' : S_ISREG(st->st_mode) ? 'f' : 'o', p);
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 5) return 99;
  char path[4096], line[256], action[32] = "ok", buf[64], out[512] = "";
  int arg = 0;
  snprintf(path, sizeof path, "%s.n", argv[1]);
  int fd = open(path, O_RDWR | O_CREAT, 0666);
  if (fd < 0) return 98;
  flock(fd, LOCK_EX);
  memset(buf, 0, sizeof buf);
  if (read(fd, buf, 32) < 0) return 97;
  long n = atol(buf);
  lseek(fd, 0, SEEK_SET);
  snprintf(buf, sizeof buf, "%ld", n + 1);
  if (write(fd, buf, strlen(buf)) < 0) return 96;
  FILE *plan = fopen(argv[2], "r");
  while (plan && fgets(line, sizeof line, plan)) {
    long k; char a[32]; int v = 0;
    if (sscanf(line, "%ld %31s %d", &k, a, &v) >= 2 && k == n) { strcpy(action, a); arg = v; }
  }
  int gen = strstr(argv[argc - 1], "\"generate\"") && !strstr(argv[argc - 1], "\"test\"");
  if (gen || strcmp(action, "noise") == 0)
    switch (n % 6) {
      case 0: snprintf(out, sizeof out, "{\"output\": \"o%ld\"}\n", n); break;
      case 1: snprintf(out, sizeof out, "{\"sessionMaterial\": \"m%ld-_\", \"output\": \"o%ld\\u00e9\\\"\\\\ '$x' %%s\"}", n, n); break;
      case 2: snprintf(out, sizeof out, "\n {\"output\": {\"a\": [%ld, null, true, 1.5, \"\"]}}  \n\n", n); break;
      case 3: snprintf(out, sizeof out, "{\"output\": \"o%ld\",\n\n \"z\": \"line\\nbreak\\ttab\"}\n", n); break;
      case 4: snprintf(out, sizeof out, "{\"output\": \"\", \"n\": %ld}", n); break;
      case 5: snprintf(out, sizeof out, "{\"output\": \"o%ld\xc3\xa9\xe2\x82\xac\"}\n", n); break;
    }
  if (strcmp(action, "garbage") == 0) snprintf(out, sizeof out, "Exception in thread main: call %ld", n);
  if (strcmp(action, "empty") == 0) out[0] = 0;
  tree_f = open_memstream(&tree, &tree_len);
  nftw("keys", visit, 16, FTW_PHYS);
  fclose(tree_f);
  char *text; size_t text_len;
  rec = open_memstream(&text, &text_len);
  snprintf(buf, sizeof buf, "%ld", n);
  field(buf, strlen(buf));
  field(argv[3], strlen(argv[3]));
  snprintf(buf, sizeof buf, "%d", argc - 4);
  field(buf, strlen(buf));
  for (int i = 4; i < argc; i++) field(argv[i], strlen(argv[i]));
  field(tree, tree_len);
  field(action, strlen(action));
  field(out, strlen(out));
  fclose(rec);
  int log = open(argv[1], O_WRONLY | O_APPEND | O_CREAT, 0666);
  if (write(log, text, text_len) != (ssize_t)text_len) return 95;
  close(log);
  flock(fd, LOCK_UN);
  close(fd);
  fputs(out, stdout);
  fflush(stdout);
  if (strcmp(action, "exit") == 0) return arg;
  if (strcmp(action, "signal") == 0) { signal(arg, SIG_DFL); raise(arg); }
  return 0;
}
