/* Seams of a simulated compiler process: randomness, time, process id, the layout of its memory.
   Everything is derived from the environment variable EXPAND_SEED. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static uint64_t state, seed;
static int faults;

static uint64_t next(void) {
    uint64_t z = (state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("EXPAND_SEED"), *f = getenv("EXPAND_FAULTS");
    seed = s ? strtoull(s, 0, 10) : 0;
    faults = f ? atoi(f) : 0;
    unsetenv("EXPAND_SEED");
    unsetenv("EXPAND_FAULTS");
    unsetenv("LD_PRELOAD");
    state = seed;
    /* shift whatever is mapped or allocated later */
    size_t pages = next() % 4096;
    mmap(0, (pages + 1) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = next() % 32; i > 0; i--) {
        void *volatile p = malloc(16 + next() % 5000);
        (void)p;
    }
}

static ssize_t random_bytes(void *buf, size_t n) {
    if (faults & 1 && next() % 3 == 0) {
        errno = EINTR;
        return -1;
    }
    if (faults & 2 && n > 1 && next() % 3 == 0) n = 1 + next() % (n - 1);
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) b[i] = next();
    return n;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) { return random_bytes(buf, n); }

long syscall(long nr, ...) {
    static long (*real)(long, ...);
    long a[6];
    va_list v;
    va_start(v, nr);
    for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    if (nr == SYS_getrandom) return random_bytes((void *)a[0], a[1]);
    if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

/* a clock that stands still between two readings and starts where the seed says */
int clock_gettime(clockid_t id, struct timespec *t) {
    static uint64_t now;
    now += 1000;
    t->tv_sec = 1000000000 + (seed * 7919) % 500000000;
    t->tv_nsec = now % 1000000000;
    return 0;
}
pid_t getpid(void) { return 1000 + seed % 30000; }

/* the environment as the macros see it: some variables that they ask for are set to anything */
extern char **environ;
static unsigned env_faults;
char *getenv(const char *name) {
    static char *values[] = {0, "", "0", "1", "x", "true", "/"};
    size_t n = strlen(name);
    char *real = 0;
    for (char **e = environ; e && *e && !real; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') real = *e + n + 1;
    Dl_info i;
    if (!seed || !strncmp(name, "RUST_", 5)) return real;
    if (!dladdr(__builtin_return_address(0), &i) || !i.dli_fname || !strstr(i.dli_fname, "sscanf_macro")) return real;
    if (!env_faults++) (void)!write(2, "asked for its environment\n", 26);
    uint64_t h = seed;
    for (size_t k = 0; k < n; k++) h = (h ^ (unsigned char)name[k]) * 0x100000001b3ull;
    h ^= h >> 29;
    return h % 2 ? real : values[h / 2 % 7];
}
