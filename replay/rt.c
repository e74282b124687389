/* Native replay of one scheduled path: the module's own code, with the executor's scheduling points as calls into
 * this file. One thread runs at a time; the recorded schedule says which one goes on at each choice.
 * The rules mirror `runnable`, `choose`, `spin` and `wake` in engine/src/exec.rs. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

enum { RUN, FUTEX, SLEEP, JOIN, DONE };
typedef struct { int stat; uint64_t addr, until; int timed; int join; int naps; int timeout; pthread_cond_t go; void *(*f)(void *); void *arg; } thr;
#define MAX 64
static thr T[MAX];
static int nt = 1, cur = 0, max_preempt = 2, max_naps = 2, punctual = 0, preempts = 0;
static uint64_t now = 1000000000, ticks = 0;
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static __thread int me = 0;
static unsigned *S; static size_t ns, is;
static unsigned char **D; static size_t *L; static size_t nd_, id_;
static char key;

static void die(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static int runnable(int *r) {
    uint64_t due = UINT64_MAX;
    if (punctual) {
        for (int i = 0; i < nt; i++)
            if ((T[i].stat == SLEEP || T[i].stat == FUTEX && T[i].timed) && T[i].until < due) due = T[i].until;
    }
    for (int free_ = 0; free_ < 2; free_++) {
        int n = 0;
        for (int i = 0; i < nt; i++) {
            int ok = 0;
            switch (T[i].stat) {
                case RUN: ok = 1; break;
                case FUTEX: ok = T[i].timed && T[i].until <= due && (free_ || T[i].naps < max_naps); break;
                case SLEEP: ok = T[i].until <= due && (free_ || T[i].naps < max_naps); break;
                case JOIN: ok = T[T[i].join].stat == DONE; break;
            }
            if (ok) r[n++] = i;
        }
        if (n) return n;
    }
    return 0;
}
static void wake_(void) {
    thr *t = &T[cur];
    t->timeout = 0;
    if (t->stat == SLEEP || t->stat == FUTEX && t->timed) {
        if (t->until > now) now = t->until;
        t->naps++;
        t->timeout = t->stat == FUTEX;
        t->stat = RUN;
        if (t->naps > 120) { fprintf(stderr, "CHECK-FAILED: a thread sleeps and wakes for ever (livelock)\n"); die(101); }
    } else t->stat = RUN;
}
static void choose(int yielding, int *r, int n) {
    if (n == 0) { fprintf(stderr, "CHECK-FAILED: all threads are blocked (deadlock)\n"); die(101); }
    if (n == 1) { cur = r[0]; wake_(); return; }
    int ok = 0;
    for (int i = 0; i < n; i++) ok |= r[i] == cur;
    if (!(yielding || !ok || preempts < max_preempt)) return;
    unsigned k = is < ns ? S[is++] : 0;
    if (k >= (unsigned)n) { fprintf(stderr, "REPLAY-MISMATCH: choice %u of %d\n", k, n); die(3); }
    if (!yielding && ok && r[k] != cur) preempts++;
    cur = r[k];
    wake_();
}
/* hand over to `cur` and wait for one's turn */
static void pass(int gone) {
    if (cur == me && !gone) return;
    pthread_cond_signal(&T[cur].go);
    if (gone) return;
    while (cur != me) pthread_cond_wait(&T[me].go, &M);
}
static void resched(int yielding) { if (yielding) ticks = 0; int r[MAX]; int n = runnable(r); choose(yielding, r, n); pass(0); }

void __rt_point(void) { if (nt > 1) resched(0); }
void __rt_pause(void) {
    if (nt <= 1) return;
    int r[MAX], n = runnable(r), k = 0;
    if (n > 1) { for (int i = 0; i < n; i++) if (r[i] != cur) r[k++] = r[i]; n = k; }
    choose(1, r, n);
    pass(0);
}
static void *body(void *p) {
    thr *t = p;
    me = t - T;
    pthread_mutex_lock(&M);
    while (cur != me) pthread_cond_wait(&t->go, &M);
    t->f(t->arg);
    t->stat = DONE;
    ticks = 0;
    int r[MAX], n = runnable(r);
    choose(1, r, n);
    pass(1);
    pthread_mutex_unlock(&M);
    return 0;
}
int rt_pthread_create(uint64_t *id, void *attr, void *(*f)(void *), void *arg) {
    if (nt == MAX) die(3);
    thr *t = &T[nt];
    pthread_cond_init(&t->go, 0);
    t->f = f; t->arg = arg; t->stat = RUN;
    *id = nt;
    nt++;
    pthread_t h;
    if (pthread_create(&h, 0, body, t)) die(3);
    pthread_detach(h);
    resched(0);
    return 0;
}
int rt_pthread_join(uint64_t id, void **r) {
    if (T[id].stat != DONE) { T[me].stat = JOIN; T[me].join = id; resched(1); }
    return 0;
}
uint64_t rt_pthread_self(void) { return me + 1; }
int rt_gettid(void) { return me + 1; }
static uint64_t ns_of(const struct timespec *t) { return t->tv_sec * 1000000000ull + t->tv_nsec; }
static int nap(uint64_t until) { T[me].stat = SLEEP; T[me].until = until; resched(1); return 0; }
int rt_nanosleep(const struct timespec *t, void *x) { return nap(now + ns_of(t)); }
int rt_clock_nanosleep(int c, int flags, const struct timespec *t, void *x) { return nap(flags == 1 ? ns_of(t) : now + ns_of(t)); }
int rt_sched_yield(void) { resched(1); return 0; }
int rt_clock_gettime(int c, struct timespec *t) {
    if (++ticks % 64 == 0) now += 1000000;
    t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000;
    __rt_point();
    return 0;
}
static void some(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = i * 37 + 11; }
long rt_getrandom(unsigned char *p, size_t n, unsigned f) { some(p, n); return n; }
long rt_syscall(long n, ...) {
    va_list v; va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long);
    va_end(v);
    if (n == 318) { some((void *)a, b); return b; }
    if (n != 202) { fprintf(stderr, "REPLAY-MISMATCH: syscall %ld\n", n); die(3); }
    int op = b & 0x7f;
    if (op == 0 || op == 9) {
        if (*(volatile uint32_t *)a != (uint32_t)c) { errno = EAGAIN; return -1; }
        T[me].stat = FUTEX; T[me].addr = a; T[me].timed = d != 0;
        if (d) T[me].until = op == 9 ? ns_of((void *)d) : now + ns_of((void *)d);
        resched(1);
        if (T[me].timeout) { T[me].timeout = 0; errno = ETIMEDOUT; return -1; }
        return 0;
    }
    long woke = 0;
    for (int i = 0; i < nt; i++)
        if (T[i].stat == FUTEX && T[i].addr == (uint64_t)a && woke < (c & 0xffffffff)) { T[i].stat = RUN; T[i].timeout = 0; woke++; }
    resched(0);
    return woke;
}
int rt_pthread_key_create(unsigned *k, void *d) { *k = ++key; return 0; }
char *rt_getenv(const char *n) { return 0; }
int rt_zero(void) { return 0; }
long rt_sysconf(int n) { return 4096; }
void *rt_dlsym(void *h, const char *n) { return 0; }

/* what the harnesses use */
void __sx_bytes(unsigned char *p, size_t n) {
    if (id_ == nd_) { memset(p, 0, n); return; }
    if (L[id_] != n) { fprintf(stderr, "REPLAY-MISMATCH: recorded value has %zu bytes, %zu expected\n", L[id_], n); die(3); }
    memcpy(p, D[id_++], n);
}
void __sx_assume(uint8_t c) { if (!(c & 1)) { fprintf(stderr, "REPLAY-ASSUME: an assumption of the harness does not hold on the replayed values\n"); die(3); } }
void __sx_check(uint8_t c, const char *p, size_t n) { if (!(c & 1)) { fprintf(stderr, "CHECK-FAILED: %.*s\n", (int)n, p); die(101); } }
void __sx_cover(uint8_t c, const char *p, size_t n) {
    printf("OUT ");
    for (size_t i = 0; i < n; i++) putchar(p[i] == ' ' ? '_' : p[i]);
    printf(" %02x\n", c & 1);
}
uint64_t __sx_conc(uint64_t v) { return v; }
void __sx_end(void) { die(0); }
void __sx_limit(uint64_t n) {}
void __sx_cut(uint64_t n) {}
uint8_t __sx_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
void __sx_note(const char *p, size_t n) { fprintf(stderr, "note: %.*s\n", (int)n, p); }
void __sx_yield(void) { resched(1); }
uint64_t __sx_choose(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t k = is < ns ? S[is++] : 0;
    if (k >= n) { fprintf(stderr, "REPLAY-MISMATCH: choice %lu of %lu\n", k, n); die(3); }
    return k;
}
void __sx_out(const unsigned char *p, size_t n) { printf("OUT out "); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }

/* replay HARNESS FILE: `# bounds: PREEMPT NAPS PUNCTUAL`, `# schedule: ...`, then one value per line in hex */
int main(int argc, char **argv) {
    void (*h)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "REPLAY-MISMATCH: no harness %s\n", argv[1]); return 3; }
    FILE *f = argc > 2 ? fopen(argv[2], "r") : 0;
    char *l = 0; size_t cap = 0; ssize_t n;
    while (f && (n = getline(&l, &cap, f)) >= 0) {
        while (n && (l[n - 1] == '\n' || l[n - 1] == '\r')) l[--n] = 0;
        if (!strncmp(l, "# bounds:", 9)) sscanf(l + 9, "%d %d %d", &max_preempt, &max_naps, &punctual);
        if (!strncmp(l, "# schedule:", 11)) {
            char *p = l + 11, *e;
            for (;;) { unsigned long k = strtoul(p, &e, 10); if (e == p) break; S = realloc(S, (ns + 1) * sizeof *S); S[ns++] = k; p = e; }
        }
        if (l[0] == '#') continue;
        D = realloc(D, (nd_ + 1) * sizeof *D); L = realloc(L, (nd_ + 1) * sizeof *L);
        D[nd_] = malloc(n / 2 + 1); L[nd_] = n / 2;
        for (ssize_t i = 0; i + 1 < n; i += 2) { unsigned x; sscanf(l + i, "%2x", &x); D[nd_][i / 2] = x; }
        nd_++;
    }
    pthread_cond_init(&T[0].go, 0);
    pthread_mutex_lock(&M);
    h();
    printf("REPLAY-END\n");
    die(0);
}
