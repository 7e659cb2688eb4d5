/* batch N MEMGB < jobs: run many short commands, N at a time.
 * job line: outprefix \t timeout_s \t merged \t argv0 \t argv1 ...
 * writes outprefix.o (and .e unless merged); prints "lineno status timedout" */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#define MAXW 64
static struct { pid_t pid; long job; double dl; int to; } w[MAXW];
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv) {
  int n = atoi(argv[1]);
  double mem = atof(argv[2]);
  char* line = NULL;
  size_t cap = 0;
  long job = 0;
  int hurry = argc > 3 && atoi(argv[3]), timeouts = 0; /* hurry: after many runs that hang, the rest gets less time */
  int running = 0, eof = 0;
  sigset_t s;
  sigemptyset(&s); sigaddset(&s, SIGCHLD);
  sigprocmask(SIG_BLOCK, &s, NULL);
  if (n > MAXW) n = MAXW;
  for (;;) {
    while (!eof && running < n) {
      ssize_t l = getline(&line, &cap, stdin);
      if (l < 0) { eof = 1; break; }
      if (l && line[l - 1] == '\n') line[--l] = 0;
      char* f[64]; int k = 0;
      for (char* p = line; p && k < 63;) { f[k++] = p; p = strchr(p, '\t'); if (p) *p++ = 0; }
      f[k] = NULL;
      int slot = 0; while (w[slot].pid) ++slot;
      pid_t c = fork();
      if (c == 0) {
        char o[4096];
        sigprocmask(SIG_UNBLOCK, &s, NULL);
        setpgid(0, 0);
        if (mem > 0) { struct rlimit r; r.rlim_cur = r.rlim_max = (rlim_t)(mem * 1073741824.0); setrlimit(RLIMIT_AS, &r); }
        struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
        struct rlimit fz = {256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &fz);
        snprintf(o, sizeof o, "%s.o", f[0]);
        int fd = open(o, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 1);
        if (f[2][0] == '1') dup2(fd, 2);
        else { snprintf(o, sizeof o, "%s.e", f[0]); int e = open(o, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2); close(e); }
        close(fd);
        int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
        char** v = f + 3;
        while (*v && **v == '@') putenv(*v++ + 1);   /* @VAR=value before the command */
        execv(*v, v);
        _exit(127);
      }
      w[slot].pid = c; w[slot].job = job++; w[slot].dl = now() + (hurry && timeouts >= 16 ? (atof(f[1]) > 20 ? atof(f[1]) / 10 : 2) : atof(f[1])); w[slot].to = 0; ++running;
    }
    if (!running) break;
    struct timespec ts = {0, 50000000};
    sigtimedwait(&s, NULL, &ts);
    int st; pid_t p;
    while ((p = waitpid(-1, &st, WNOHANG)) > 0)
      for (int i = 0; i < MAXW; ++i) if (w[i].pid == p) {
        kill(-p, SIGKILL);
        printf("%ld %d %d\n", w[i].job, st, w[i].to); w[i].pid = 0; --running;
      }
    double t = now();
    for (int i = 0; i < MAXW; ++i) if (w[i].pid && !w[i].to && t > w[i].dl) { w[i].to = 1; ++timeouts; kill(-w[i].pid, SIGKILL); kill(w[i].pid, SIGKILL); }
  }
  return 0;
}
