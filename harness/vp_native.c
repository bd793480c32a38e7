// Native driver: replays a vector of input values or searches with pseudo-random ones.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <setjmp.h>

#ifndef VP_BATCH
#define VP_BATCH 300
#endif
void VP_ENTRY(void);
const char * vp_alphabet = "aab/._{}=:;\\xA0 %";
static uint64_t * vec;
static size_t nvec, ivec;
static uint64_t rng;
static int fuzz;
static int logfd = -1;

// Many cases run in one child: the program's own data segment is put back before each of them.
extern char __data_start[], _end[];
static char * snap;
static struct shared {volatile long at, ran, discarded; volatile int on;} * sh;
static jmp_buf back;
__attribute__((no_sanitize("address", "undefined"), optimize("no-tree-loop-distribute-patterns")))
static void copy_words(char * d, const char * s, size_t n)
{
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {*(volatile uint64_t *)(d + i) = *(const uint64_t *)(s + i);}
  for (; i < n; ++i) {((volatile char *)d)[i] = s[i];}
}

static uint64_t rnd(void)
{
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1DULL;
}
int vp_fuzzing(void) {return fuzz;}
void vp_discard_(void)
{
  if (sh != NULL && sh->on) {longjmp(back, 1);}
  _exit(77);
}
void vp_check_(int c, const char * msg, const char * file, int line)
{
  if (!c) {
    fprintf(stderr, "VP-FAIL: %s (%s:%d)\n", msg, file, line);
    fflush(stderr);
    _exit(99);
  }
}
uint64_t vp_nd(uint64_t max)
{
  uint64_t v;
  if (fuzz) {
    uint64_t r = rnd();
    if (max == UINT64_MAX) {
      switch (r & 7) {
        case 0: v = rnd() & 15; break;
        case 1: v = 0 - (rnd() & 15); break;
        case 2: v = (1ULL << (rnd() & 63)) + (rnd() & 3) - 1; break;
        default: v = rnd() >> (rnd() & 63);
      }
    } else if (max <= 300) {
      v = (rnd() >> 11) % (max + 1);
    } else {
      switch (r & 7) {
        case 0: v = rnd() & 7; break;
        case 1: v = max - (rnd() & 7); break;
        case 2: v = rnd() & 63; break;
        default: v = (rnd() >> (rnd() & 63));
      }
      if (v > max) {v %= max + 1;}
    }
    if (logfd >= 0) {
      char b[32];
      int n = snprintf(b, sizeof b, "%llu\n", (unsigned long long)v);
      if (write(logfd, b, (size_t)n) != n) {_exit(98);}
    }
    return v;
  }
  v = ivec < nvec ? vec[ivec] : 0;
  ivec++;
  if (v > max) {vp_discard_();}
  return v;
}

int main(int argc, char ** argv)
{
  signal(SIGPIPE, SIG_IGN);
  if (argc >= 3 && 0 == strcmp(argv[1], "replay")) {
    vec = malloc(65536 * sizeof(uint64_t));
    FILE * f = fopen(argv[2], "r");
    unsigned long long v;
    if (!f) {return 98;}
    while (nvec < 65536 && 1 == fscanf(f, "%llu", &v)) {vec[nvec++] = v;}
    fclose(f);
    alarm(20);
    VP_ENTRY();
    return 0;
  }
  if (argc >= 6 && 0 == strcmp(argv[1], "fuzz")) {
    // fuzz SEED MAXCASES SECONDS OUTVECTOR
    uint64_t seed = strtoull(argv[2], 0, 10);
    long cases = atol(argv[3]);
    double secs = atof(argv[4]);
    struct timespec t0, t1;
    long ran = 0, discarded = 0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) {return 98;}
    long i = 0;
    while (i < cases) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      double left = secs - ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec));
      if (left <= 0) {break;}
      fflush(NULL);
      sh->at = i; sh->ran = 0; sh->discarded = 0;
      pid_t pid = fork();
      if (pid == 0) {
        if (!freopen("/dev/null", "w", stderr)) {_exit(98);}
        if (!freopen("/dev/null", "w", stdout)) {_exit(98);}
        fuzz = 1;
        sh->on = 1;
        size_t n = (size_t)(_end - __data_start);
        snap = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (snap == MAP_FAILED) {_exit(98);}
        copy_words(snap, __data_start, n);
        volatile long end = i + VP_BATCH < cases ? i + VP_BATCH : cases;
        while (sh->at < end) {
          rng = ((seed + 1) * 0x9E3779B97F4A7C15ULL + (uint64_t)(sh->at + 1) * 0xD1B54A32D192ED03ULL) | 1;
          rnd(); rnd();
          alarm(20);
          if (setjmp(back) == 0) {
            VP_ENTRY();
            sh->ran++;
          } else {
            sh->discarded++;
          }
          sh->at++;
          char * keep = snap;
          copy_words(__data_start, keep, n);
          snap = keep;
          clock_gettime(CLOCK_MONOTONIC, &t1);
          if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) {break;}
        }
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      ran += sh->ran;
      discarded += sh->discarded;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {i = sh->at; continue;}
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {++discarded; i = sh->at + 1; continue;}
      // the case that ended the batch is run again on its own, recording its inputs
      i = sh->at;
      sh->on = 0;
      pid = fork();
      if (pid == 0) {
        fuzz = 1;
        rng = ((seed + 1) * 0x9E3779B97F4A7C15ULL + (uint64_t)(i + 1) * 0xD1B54A32D192ED03ULL) | 1;
        rnd(); rnd();
        FILE * f = fopen(argv[5], "w");
        logfd = f ? fileno(f) : -1;
        alarm(20);
        VP_ENTRY();
        _exit(0);
      }
      waitpid(pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {++ran;} else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {++discarded;} else {
        printf("FUZZ-FAIL case=%ld ran=%ld status=%d\n", i, ran, st);
        return 99;
      }
      ++i;
    }
    printf("FUZZ-OK ran=%ld discarded=%ld\n", ran, discarded);
    return 0;
  }
  return 98;
}
