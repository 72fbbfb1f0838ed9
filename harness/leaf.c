/* A stage whose output depends on its name, arguments and input only. */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char *out; static size_t n, cap;
static void put(const char *s, size_t l) {
  while (n + l > cap) out = realloc(out, cap = cap ? 2 * cap : 65536);
  memcpy(out + n, s, l); n += l;
}
static void lines(int fd, const char *tag, const char *sep) {
  size_t l = 0, c = 65536, start; char *b = malloc(c); ssize_t r;
  while ((r = read(fd, b + l, c - l)) > 0) { l += r; if (l == c) b = realloc(b, c *= 2); }
  if (r < 0) { put("cannot read\n", 12); return; }
  for (start = 0; start < l; ) {
    char *e = memchr(b + start, '\n', l - start);
    size_t m = e ? e - (b + start) : l - start;
    put(tag, strlen(tag)); put(sep, 1); put(b + start, m); put("\n", 1);
    start += m + 1;
  }
  free(b);
}
int main(int argc, char **argv) {
  char line[4200], *tag = strrchr(argv[0], '/'); int i, fd;
  tag = tag ? tag + 1 : argv[0];
  snprintf(line, sizeof line, "%s %d\n", tag, getpid());
  fd = open(getenv("PVLOG"), O_WRONLY | O_APPEND | O_CREAT, 0600);
  write(fd, line, strlen(line)); close(fd);
  write(2, line, strlen(line));
  put(tag, strlen(tag));
  for (i = 1; i < argc; i++) { put(" ", 1); if (!strncmp(argv[i], "/dev/fd/", 8)) put("@", 1); else put(argv[i], strlen(argv[i])); }
  put("\n", 1);
  for (i = 1; i < argc; i++)
    if (!strncmp(argv[i], "/dev/fd/", 8)) { fd = open(argv[i], O_RDONLY); lines(fd, tag, "@"); close(fd); }
  if (tag[0] == 'f') lines(0, tag, ":");
  for (i = 0; i < n; ) { ssize_t w = write(1, out + i, n - i); if (w < 0) return 9; i += w; }
  return tag[strlen(tag) - 1] == '3' ? 3 : 0;
}
