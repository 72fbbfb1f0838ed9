/* A stage of a pipeline under remote control.
 *
 * It reports how it was started (argv, environment, directory, descriptors,
 * signal state) to the unix socket "ctl.sock" in the directory its executable
 * lies in, and then does exactly what it is told, one line at a time.  Run
 * through a name starting with "dump", it reports and exits (with the status
 * in the file "status" there, if any).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;
static char *out; static size_t outlen, outcap;
static void put(const char *s, size_t n) {
  if (outlen + n + 1 > outcap) { outcap = (outlen + n + 1) * 2; out = realloc(out, outcap); }
  memcpy(out + outlen, s, n); outlen += n; out[outlen] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void hex(const unsigned char *s, size_t n) {
  static const char d[] = "0123456789abcdef"; char b[2];
  for (size_t i = 0; i < n; i++) { b[0] = d[s[i] >> 4]; b[1] = d[s[i] & 15]; put(b, 2); }
}
static void fmt(const char *f, ...) {
  char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); puts_(b);
}
static int ctl = -1;
static void flush_(void) {
  size_t o = 0;
  while (o < outlen) { ssize_t n = send(ctl, out + o, outlen - o, MSG_NOSIGNAL); if (n <= 0) _exit(99); o += n; }
  outlen = 0;
}
static void reply(const char *f, ...) {
  char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  puts_(b); puts_("\n"); flush_();
}
static int unhex(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static void report(int argc, char **argv) {
  char b[8192]; ssize_t n;
  fmt("H %d %d\n", (int)getpid(), (int)getppid());
  for (int i = 0; i < argc; i++) { puts_("A "); hex((unsigned char *)argv[i], strlen(argv[i])); puts_("\n"); }
  for (char **e = environ; *e; e++) { puts_("E "); hex((unsigned char *)*e, strlen(*e)); puts_("\n"); }
  if (getcwd(b, sizeof b)) { puts_("D "); hex((unsigned char *)b, strlen(b)); puts_("\n"); }
  for (int fd = 0; fd < 4096; fd++) {
    struct stat st; char p[64];
    if (fstat(fd, &st) < 0) continue;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    n = readlink(p, b, sizeof b - 1); if (n < 0) n = 0;
    fmt("F %d %d %llu %llu %o %lld ", fd, fcntl(fd, F_GETFL), (unsigned long long)st.st_dev,
        (unsigned long long)st.st_ino, st.st_mode, (long long)lseek(fd, 0, SEEK_CUR));
    hex((unsigned char *)b, n); puts_("\n");
  }
  sigset_t m; sigprocmask(SIG_BLOCK, NULL, &m);
  for (int s = 1; s < 32; s++) {
    struct sigaction sa; int ign = sigaction(s, NULL, &sa) == 0 && sa.sa_handler == SIG_IGN;
    if (ign || sigismember(&m, s) == 1) fmt("S %d %d %d\n", s, ign, sigismember(&m, s));
  }
  puts_(".\n");
}

static char dir[4096], path[4200], *base;
static ssize_t n;
static void say_hello(int argc, char **argv) {
  report(argc, argv);
  n = readlink("/proc/self/exe", dir, sizeof dir - 1);
  if (n <= 0) _exit(97);
  dir[n] = 0;
  char *slash = strrchr(dir, '/'); base = slash + 1; *slash = 0;
  int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (s < 0) _exit(98);
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  snprintf(path, sizeof path, "%s/ctl.sock", dir);
  strncpy(a.sun_path, path, sizeof a.sun_path - 1);
  if (connect(s, (struct sockaddr *)&a, sizeof a) < 0) _exit(96);
  for (ctl = 230; ctl > 3; ctl--) if (fcntl(ctl, F_GETFD) < 0 && dup3(s, ctl, O_CLOEXEC) >= 0) break;
  close(s);
  struct linger lg = {0, 0}; (void)lg;
  flush_();
}

int main(int argc, char **argv) {
  say_hello(argc, argv);
  if (!strncmp(base, "dump", 4)) {
    int code = 0;
    snprintf(path, sizeof path, "%s/status", dir);
    FILE *f = fopen(path, "r"); if (f) { if (fscanf(f, "%d", &code) != 1) code = 0; fclose(f); }
    /* wait until the driver has seen the report */
    char c; while (read(ctl, &c, 1) == 1 && c != '\n');
    _exit(code);
  }
  signal(SIGPIPE, SIG_IGN);
  char *line = NULL; size_t cap = 0; FILE *in = fdopen(ctl, "r");
  static unsigned char buf[1 << 20];
  while (getline(&line, &cap, in) > 0) {
    char *arg = line + 1; int fd = 0; long k = 0;
    switch (line[0]) {
    case 'R': /* read at most k bytes */
      fd = strtol(arg, &arg, 10); k = strtol(arg, &arg, 10); if (k > (long)sizeof buf) k = sizeof buf;
      do n = read(fd, buf, k); while (n < 0 && errno == EINTR);
      if (n < 0) reply("X %d", errno); else { puts_("D "); hex(buf, n); reply(""); }
      break;
    case 'L': { /* read one line, byte by byte so as to leave the rest */
      fd = strtol(arg, &arg, 10); size_t got = 0; int err = 0;
      while (got < sizeof buf) {
        n = read(fd, buf + got, 1);
        if (n < 0 && errno == EINTR) continue;
        if (n < 0) err = errno;
        if (n <= 0) break;
        if (buf[got++] == '\n') break;
      }
      if (err) reply("X %d", err); else { puts_("D "); hex(buf, got); reply(""); }
      break; }
    case 'Z': { /* read to the end, report all of it */
      fd = strtol(arg, &arg, 10); int err = 0; puts_("D ");
      for (;;) { n = read(fd, buf, 65536); if (n < 0 && errno == EINTR) continue;
        if (n < 0) err = errno; if (n <= 0) break; hex(buf, n); }
      if (err) { outlen = 0; reply("X %d", err); } else reply("");
      break; }
    case 'W': { /* write all of it */
      fd = strtol(arg, &arg, 10); while (*arg == ' ') arg++;
      size_t len = strcspn(arg, "\n") / 2, o = 0; int err = 0;
      unsigned char *d = malloc(len + 1);
      for (size_t i = 0; i < len; i++) d[i] = unhex(arg[2 * i]) << 4 | unhex(arg[2 * i + 1]);
      while (o < len) { n = write(fd, d + o, len - o); if (n < 0 && errno == EINTR) continue;
        if (n < 0) { err = errno; break; } o += n; }
      free(d);
      if (err) reply("X %d %zu", err, o); else reply("W %zu", o);
      break; }
    case 'w': { /* write as much of k bytes as fits right now */
      fd = strtol(arg, &arg, 10); k = strtol(arg, &arg, 10); long o = 0; int err = 0;
      memset(buf, 'x', sizeof buf);
      struct pollfd p = {fd, POLLOUT, 0};
      while (o < k && poll(&p, 1, 0) == 1 && (p.revents & POLLOUT)) {
        long m = k - o > 4096 ? 4096 : k - o; n = write(fd, buf, m); if (n < 0) { err = errno; break; } o += n; }
      if (err) reply("X %d %ld", err, o); else reply("W %ld", o);
      break; }
    case 'p': { /* poll right now */
      fd = strtol(arg, &arg, 10); k = strtol(arg, &arg, 10);
      struct pollfd p = {fd, k, 0}; poll(&p, 1, 0); int av = 0; ioctl(fd, FIONREAD, &av);
      reply("P %d %d", p.revents, av);
      break; }
    case 'C': fd = strtol(arg, &arg, 10); reply("C %d", close(fd) < 0 ? errno : 0); break;
    case 'O': { /* open path (hex) with flags */
      k = strtol(arg, &arg, 10); while (*arg == ' ') arg++;
      size_t len = strcspn(arg, "\n") / 2; char *d = malloc(len + 1);
      for (size_t i = 0; i < len; i++) d[i] = unhex(arg[2 * i]) << 4 | unhex(arg[2 * i + 1]);
      d[len] = 0; fd = open(d, k | O_CLOEXEC); free(d);
      if (fd < 0) reply("X %d", errno); else reply("O %d", fd);
      break; }
    case 'G': { /* let a child of ours write, and wait for it */
      fd = strtol(arg, &arg, 10); while (*arg == ' ') arg++;
      size_t len = strcspn(arg, "\n") / 2; unsigned char *d = malloc(len + 1);
      for (size_t i = 0; i < len; i++) d[i] = unhex(arg[2 * i]) << 4 | unhex(arg[2 * i + 1]);
      pid_t c = fork(); if (c == 0) { n = write(fd, d, len); _exit(0); }
      waitpid(c, NULL, 0); free(d); reply("W %zu", len);
      break; }
    case 'F': { /* a child that is told itself what to do */
      while (*arg == ' ') arg++;
      arg[strcspn(arg, "\n")] = 0;
      pid_t c = fork();
      if (c == 0) {
        char *a[] = {argv[0], strdup(arg), NULL};
        int old = ctl; say_hello(2, a); close(old);
        line = NULL; cap = 0; in = fdopen(ctl, "r");
      } else reply("F %d", (int)c);
      break; }
    case 'X': { /* become another program: path, name and arguments (hex) */
      char *a[16]; int m = 0;
      for (char *w = strtok(arg, " \n"); w && m < 15; w = strtok(NULL, " \n")) {
        size_t len = *w == '-' ? 0 : strlen(w) / 2; char *d = malloc(len + 1);
        for (size_t i = 0; i < len; i++) d[i] = unhex(w[2 * i]) << 4 | unhex(w[2 * i + 1]);
        d[len] = 0; a[m++] = d;
      }
      a[m] = NULL; signal(SIGPIPE, SIG_DFL); execv(a[0], a + 1); reply("X %d", errno);
      break; }
    case 'Y': k = strtol(arg, &arg, 10); reply("Y %d", (int)waitpid(k, NULL, 0)); break;
    case 'Q': k = strtol(arg, &arg, 10); reply("Q"); _exit(k);
    case 'K': { k = strtol(arg, &arg, 10); signal(k, SIG_DFL);
      sigset_t m; sigemptyset(&m); sigaddset(&m, k); sigprocmask(SIG_UNBLOCK, &m, NULL);
      /* those that dump core do so, in a directory of the driver's */
      struct rlimit rl; snprintf(path, sizeof path, "%s/cores", dir);
      if ((k == SIGSEGV || k == SIGABRT || k == SIGQUIT) && (mkdir(path, 0700) == 0 || errno == EEXIST) && chdir(path) == 0
          && getrlimit(RLIMIT_CORE, &rl) == 0) { rl.rlim_cur = 8 << 20; if (rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_CORE, &rl); }
      reply("K"); kill(getpid(), k); for (;;) pause(); }
    default: reply("?");
    }
  }
  _exit(95);
}
