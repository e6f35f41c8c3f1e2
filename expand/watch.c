/* What a macro has no business doing: the ways of libc to affect anything outside of the process, or
   to read files. Calls that come from the library of the macros (the standard library is linked into
   it) are reported on the standard error stream, and none of them is carried out. */
typedef struct {
    const char *fname;
    void *fbase;
    const char *sname;
    void *saddr;
} info;
extern int dladdr(const void *, info *);
extern void *dlsym(void *, const char *);
extern char *strstr(const char *, const char *);
extern int strncmp(const char *, const char *, unsigned long);
extern long syscall(long, ...);
extern int unsetenv(const char *);
extern int *__errno_location(void);
extern char **environ;
#define FROM __builtin_return_address(0)
static int watching;

__attribute__((constructor)) static void init(void) {
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "EXPAND_WATCH=", 13)) watching = 1;
    if (watching) unsetenv("EXPAND_WATCH");
}
/* does the macro do this? */
static int ours(const void *from, const char *what) {
    info i;
    if (!watching || !dladdr(from, &i) || !i.fname || !strstr(i.fname, "sscanf_macro")) return 0;
    char line[100];
    long n = 0;
    for (const char *p = "EFFECT "; *p; p++) line[n++] = *p;
    for (const char *p = what; *p && n < 90; p++) line[n++] = *p;
    line[n++] = '\n';
    syscall(1, 2, line, n);
    *__errno_location() = 5;
    return 1;
}
#define WATCH(name) \
    long name(long a, long b, long c, long d, long e, long f) { \
        static long (*real)(long, long, long, long, long, long); \
        if (watching && ours(FROM, #name)) return -1; \
        if (!real) real = (long (*)(long, long, long, long, long, long))dlsym((void *)-1, #name); \
        return real(a, b, c, d, e, f); \
    }
WATCH(open) WATCH(open64) WATCH(openat) WATCH(openat64) WATCH(creat) WATCH(socket) WATCH(connect) WATCH(sendto) WATCH(pipe2)
WATCH(dup2) WATCH(unlink) WATCH(unlinkat) WATCH(rename) WATCH(mkdir) WATCH(rmdir) WATCH(fork) WATCH(execvp) WATCH(execve)
WATCH(posix_spawnp) WATCH(posix_spawn) WATCH(kill) WATCH(pthread_create) WATCH(setenv) WATCH(chdir) WATCH(sigaction)
WATCH(signal) WATCH(ftruncate64) WATCH(chmod) WATCH(symlink) WATCH(link) WATCH(flock)
WATCH(stat) WATCH(stat64) WATCH(lstat64) WATCH(fstat64) WATCH(statx) WATCH(access) WATCH(readlink) WATCH(realpath) WATCH(getcwd)
WATCH(opendir) WATCH(nanosleep) WATCH(clock_nanosleep) WATCH(exit) WATCH(_exit) WATCH(read) WATCH(readv)
WATCH(gethostname) WATCH(uname) WATCH(getrusage) WATCH(sched_yield)
long write(long fd, const void *p, long n) {
    if (watching && ours(FROM, "write")) return n;
    return syscall(1, fd, p, n);
}
long writev(long fd, const long (*v)[2], long n) {
    if (watching && ours(FROM, "writev")) {
        long all = 0;
        for (long i = 0; i < n; i++) all += v[i][1];
        return all;
    }
    return syscall(20, fd, v, n);
}
