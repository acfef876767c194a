/*
 * LD_PRELOAD stand-in between detox and the C library.
 *
 *  - records every call that changes the file system, with the identity of
 *    the directories involved, and performs only renames inside DSHIM_ROOT;
 *  - moves the system-wide configuration and table paths into a scratch
 *    directory (DSHIM_SYS);
 *  - chooses the order in which directories are listed, and optionally lists
 *    entries again that were renamed while the directory was being read;
 *  - makes chosen rename() and opendir() calls fail, directory listings and
 *    files break off, and output not fit on the device;
 *  - optionally makes name lookups ignore case;
 *  - ends the program at a chosen call, and plays other programs that change
 *    the tree at chosen moments.
 *
 * It knows nothing about detox: everything is keyed on names and paths.
 */
#define _GNU_SOURCE
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <utime.h>
#include <sys/time.h>

static int logfd = -1, ci, relist, dtunk, order, ready;
static unsigned seed;
static char *root, *sysroot, *fault, *rfail, *outmax, *others;
static int killat, ticks, dirfds[8], ndirfds;
static void tick(void);
static void others_do(const char *when, unsigned long long k);

static int rstat(int at, const char *path, struct stat *st, int flags);
static void *real(const char *name)
{
    void *p = dlsym(RTLD_NEXT, name);
    return p;
}

static void init(void)
{
    char *p;
    if (ready) return;
    ready = 1;
    root = getenv("DSHIM_ROOT");
    sysroot = getenv("DSHIM_SYS");
    fault = getenv("DSHIM_FAULT");
    rfail = getenv("DSHIM_RFAIL");
    outmax = getenv("DSHIM_OUTMAX");
    ci = getenv("DSHIM_CI") != NULL;
    relist = getenv("DSHIM_RELIST") != NULL;
    dtunk = getenv("DSHIM_DTUNK") != NULL;
    if ((p = getenv("DSHIM_ORDER"))) order = atoi(p);
    if ((p = getenv("DSHIM_SEED"))) seed = (unsigned) atoi(p);
    if ((p = getenv("DSHIM_KILL"))) killat = atoi(p);
    if ((others = getenv("DSHIM_OTHERS"))) {
        char *l = strdup(getenv("DSHIM_DIRS")), *x;
        for (x = strtok(l, ":"); x && ndirfds < 8; x = strtok(NULL, ":")) {
            int fd = syscall(SYS_openat, AT_FDCWD, x, O_PATH | O_DIRECTORY | O_CLOEXEC, 0);
            dirfds[ndirfds++] = fcntl(fd, F_DUPFD_CLOEXEC, 310);
            close(fd);
        }
        free(l);
    }
    if ((p = getenv("DSHIM_LOG"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND | O_CREAT, 0666);
        if (fd >= 0) {
            logfd = fcntl(fd, F_DUPFD_CLOEXEC, 300);
            if (logfd < 0) logfd = fd; else close(fd);
        }
    }
}

static void breakin(void);
__attribute__((constructor)) static void ctor(void)
{
    struct rlimit l = { 300, 300 };
    prctl(PR_SET_PDEATHSIG, SIGKILL);   /* a run ends with the check that started it */
    setrlimit(RLIMIT_CPU, &l);
    init();
    if (outmax) {   /* no file grows beyond this (stdout is the only one that is written, and the log) */
        signal(SIGXFSZ, SIG_IGN);
        l.rlim_cur = atoi(outmax); l.rlim_max = RLIM_INFINITY;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    breakin();
}

static void emit(const char *line, size_t n)
{
    int e = errno;
    struct rlimit was, l;
    if (outmax) { getrlimit(RLIMIT_FSIZE, &was); l = was; l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_FSIZE, &l); }
    if (logfd >= 0) { ssize_t r = write(logfd, line, n); (void) r; }
    if (outmax) setrlimit(RLIMIT_FSIZE, &was);
    errno = e;
}

static char *hex(char *o, const char *s)
{
    static const char d[] = "0123456789abcdef";
    if (!*s) *o++ = '-';
    for (; *s; s++) { *o++ = d[(unsigned char) *s >> 4]; *o++ = d[*s & 15]; }
    return o;
}

/* DSHIM_KILL=k: the program ends abruptly at call k; DSHIM_OTHERS: what other programs do meanwhile, a list of
   t<call>:<from>:<name>:<to>:<name>  or  l<inode of the directory just listed>:..., where from and to are indices into DSHIM_DIRS */
static void unhexed(const char *h, size_t n, char *o)
{
    for (; n > 1 && *h != '-'; h += 2, n -= 2) sscanf(h, "%2hhx", (unsigned char *) o++);
    *o = 0;
}
static void others_do(const char *when, unsigned long long k)
{
    char *p, line[8 * 256 + 256], a[512], b[512], *o;
    unsigned long long n;
    for (p = others; p && *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL) {
        int from, to, l1, l2, l3;
        struct stat s1, s2;
        if (*p != *when || sscanf(p + 1, "%llu:%d:%n%*[0-9a-f]%n:%d:%n", &n, &from, &l1, &l2, &to, &l3) < 3 || n != k) continue;
        unhexed(p + 1 + l1, l2 - l1, a);
        unhexed(p + 1 + l3, strcspn(p + 1 + l3, ","), b);
        rstat(dirfds[from], "", &s1, AT_EMPTY_PATH);
        rstat(dirfds[to], "", &s2, AT_EMPTY_PATH);
        if (syscall(SYS_renameat2, dirfds[from], a, dirfds[to], b, 1 /* RENAME_NOREPLACE */) != 0) continue;
        o = line + sprintf(line, "%c %llu %llu ", *when == 't' ? 'V' : 'E', k, (unsigned long long) s1.st_ino);
        o = hex(o, a); o += sprintf(o, " %llu ", (unsigned long long) s2.st_ino); o = hex(o, b); *o++ = '\n';
        emit(line, o - line);
    }
}
static void tick(void)
{
    int e = errno;
    init();
    ticks++;
    if (killat && ticks == killat) { emit("K\n", 2); kill(getpid(), SIGKILL); }
    if (others) others_do("t", ticks);
    errno = e;
}

/* split path into directory and last component (trailing slashes dropped) */
static void split(const char *path, char *dir, char *base)
{
    size_t n = strlen(path);
    const char *e = path + n, *b;
    while (e > path + 1 && e[-1] == '/') e--;
    b = e;
    while (b > path && b[-1] != '/') b--;
    snprintf(base, PATH_MAX, "%.*s", (int) (e - b), b);
    if (b == path) strcpy(dir, "."); else snprintf(dir, PATH_MAX, "%.*s", (int) (b - path), path);
}

static int rstat(int at, const char *path, struct stat *st, int flags)
{
    return syscall(SYS_newfstatat, at, path, st, flags);
}

static int inside(int at, const char *dir)
{
    char buf[PATH_MAX], link[64], full[PATH_MAX];
    size_t n;
    int fd;
    if (!root) return 0;
    fd = syscall(SYS_openat, at, dir, O_PATH | O_DIRECTORY | O_CLOEXEC, 0);
    if (fd < 0) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(link, full, sizeof full - 1);
    close(fd);
    if (r < 0) return 0;
    full[r] = 0;
    (void) buf;
    n = strlen(root);
    return strncmp(full, root, n) == 0 && (full[n] == 0 || full[n] == '/');
}

/* system-wide locations live under DSHIM_SYS */
static const char *map(const char *path, char *buf)
{
    static const char *pre[] = { "/dsys/", "/etc/detoxrc", "/usr/local/", "/usr/share/detox", NULL };
    int i;
    init();
    if (!sysroot || !path) return path;
    for (i = 0; pre[i]; i++)
        if (strncmp(path, pre[i], strlen(pre[i])) == 0) {
            snprintf(buf, PATH_MAX, "%s%s", sysroot, path);
            return buf;
        }
    return path;
}

/* case-insensitive lookup of the last component */
static const char *fold(int at, const char *path, char *buf)
{
    char dir[PATH_MAX], base[PATH_MAX];
    struct stat st;
    int fd, e = errno;
    DIR *d;
    struct dirent *de;
    DIR *(*r_fdopendir)(int);
    struct dirent *(*r_readdir)(DIR *);
    int (*r_closedir)(DIR *);
    if (!ci || rstat(at, path, &st, AT_SYMLINK_NOFOLLOW) == 0) { errno = e; return path; }
    split(path, dir, base);
    fd = syscall(SYS_openat, at, dir, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    if (fd < 0) { errno = e; return path; }
    r_fdopendir = real("fdopendir"); r_readdir = real("readdir"); r_closedir = real("closedir");
    d = r_fdopendir(fd);
    while (d && (de = r_readdir(d)))
        if (strcasecmp(de->d_name, base) == 0) {
            if (strcmp(dir, ".") == 0 && strncmp(path, "./", 2)) snprintf(buf, PATH_MAX, "%s", de->d_name);
            else snprintf(buf, PATH_MAX, "%s%s%s", dir, dir[strlen(dir) - 1] == '/' ? "" : "/", de->d_name);
            r_closedir(d);
            errno = e;
            return buf;
        }
    if (d) r_closedir(d);
    errno = e;
    return path;
}

/* DSHIM_FAULT is a list of kind:hexname:errno separated by commas */
static int faulty(const char *kind, const char *base)
{
    char h[2 * PATH_MAX], want[2 * PATH_MAX + 64];
    char *p, *o;
    if (!fault) return 0;
    o = hex(h, base); *o = 0;
    snprintf(want, sizeof want, "%s:%s:", kind, h);
    for (p = fault; p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL)
        if (strncmp(p, want, strlen(want)) == 0) return atoi(p + strlen(want));
    return 0;
}

static int do_rename(int a1, const char *o, int a2, const char *n, unsigned flags)
{
    char d1[PATH_MAX], b1[PATH_MAX], d2[PATH_MAX], b2[PATH_MAX], fo[PATH_MAX], fn[PATH_MAX];
    char line[5 * PATH_MAX], *p = line;
    struct stat s1, s2;
    unsigned long long i1 = 0, i2 = 0;
    int r, e;
    tick();
    split(o, d1, b1); split(n, d2, b2);
    if (rstat(a1, d1, &s1, 0) == 0 && inside(a1, d1)) i1 = s1.st_ino;
    if (rstat(a2, d2, &s2, 0) == 0 && inside(a2, d2)) i2 = s2.st_ino;
    if (i1 == 0 || i2 == 0) {
        struct stat s;
        /* keep the errno a caller would see for paths that cannot work anyway */
        if (*o == 0 || *n == 0 || rstat(a1, o, &s, AT_SYMLINK_NOFOLLOW) != 0) e = ENOENT; else e = EPERM;
    } else if ((e = faulty("rename", b1)) == 0) {
        const char *ro = fold(a1, o, fo), *rn = n;
        if (ci) {
            const char *m = fold(a2, n, fn);
            struct stat x, y;
            if (m != n && rstat(a1, ro, &x, AT_SYMLINK_NOFOLLOW) == 0 && rstat(a2, m, &y, AT_SYMLINK_NOFOLLOW) == 0
                && (x.st_ino != y.st_ino)) rn = m;
        }
        r = syscall(SYS_renameat2, a1, ro, a2, rn, flags);
        e = r == 0 ? 0 : errno;
    }
    p += sprintf(p, "R %llu ", i1); p = hex(p, b1);
    p += sprintf(p, " %llu ", i2); p = hex(p, b2);
    p += sprintf(p, " %d\n", e);
    emit(line, p - line);
    tick();
    if (e) { errno = e; return -1; }
    return 0;
}

int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int a, const char *o, int b, const char *n) { return do_rename(a, o, b, n, 0); }
int renameat2(int a, const char *o, int b, const char *n, unsigned f) { return do_rename(a, o, b, n, f); }

/* anything else that changes the file system is recorded and refused */
static int refuse(const char *what, const char *path)
{
    char line[3 * PATH_MAX], *p = line;
    init();
    p += sprintf(p, "M %s ", what);
    p = hex(p, path ? path : "");
    *p++ = '\n';
    emit(line, p - line);
    errno = EPERM;
    return -1;
}
int unlink(const char *p) { return refuse("unlink", p); }
int unlinkat(int a, const char *p, int f) { (void) a; (void) f; return refuse("unlinkat", p); }
int rmdir(const char *p) { return refuse("rmdir", p); }
int remove(const char *p) { return refuse("remove", p); }
int link(const char *o, const char *n) { (void) o; return refuse("link", n); }
int linkat(int a, const char *o, int b, const char *n, int f) { (void) a; (void) o; (void) b; (void) f; return refuse("linkat", n); }
int symlink(const char *o, const char *n) { (void) o; return refuse("symlink", n); }
int symlinkat(const char *o, int a, const char *n) { (void) o; (void) a; return refuse("symlinkat", n); }
int mkdir(const char *p, mode_t m) { (void) m; return refuse("mkdir", p); }
int mkdirat(int a, const char *p, mode_t m) { (void) a; (void) m; return refuse("mkdirat", p); }
int mkfifo(const char *p, mode_t m) { (void) m; return refuse("mkfifo", p); }
int mknod(const char *p, mode_t m, dev_t d) { (void) m; (void) d; return refuse("mknod", p); }
int chmod(const char *p, mode_t m) { (void) m; return refuse("chmod", p); }
int fchmodat(int a, const char *p, mode_t m, int f) { (void) a; (void) m; (void) f; return refuse("fchmodat", p); }
int fchmod(int a, mode_t m) { (void) a; (void) m; return refuse("fchmod", ""); }
int chown(const char *p, uid_t u, gid_t g) { (void) u; (void) g; return refuse("chown", p); }
int lchown(const char *p, uid_t u, gid_t g) { (void) u; (void) g; return refuse("lchown", p); }
int truncate(const char *p, off_t l) { (void) l; return refuse("truncate", p); }
int ftruncate(int fd, off_t l) { (void) fd; (void) l; return refuse("ftruncate", ""); }
int utime(const char *p, const struct utimbuf *t) { (void) t; return refuse("utime", p); }
int utimes(const char *p, const struct timeval t[2]) { (void) t; return refuse("utimes", p); }
int utimensat(int a, const char *p, const struct timespec t[2], int f) { (void) a; (void) t; (void) f; return refuse("utimensat", p); }

/* opening files */
static int writes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static int harmless(const char *p) { return strcmp(p, "/dev/null") == 0 || strcmp(p, "/dev/stdout") == 0 || strcmp(p, "/dev/stderr") == 0; }

static int open_listing(int at, const char *path, int flags);
static int do_open(int at, const char *path, int flags, mode_t mode)
{
    char buf[PATH_MAX];
    init();
    if (writes(flags) && !harmless(path)) return refuse("open", path);
    if ((flags & O_DIRECTORY) && !(flags & O_PATH)) return open_listing(at, path, flags);
    return syscall(SYS_openat, at, map(path, buf), flags, mode);
}
#define MODE va_list ap; mode_t m = 0; va_start(ap, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, m); }
int openat64(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* DSHIM_RFAIL=after:errno:hexname: the file of that name (- for stdin) can be read up to there */
struct broken { int fd, left, err, told; unsigned long long ino; char path[PATH_MAX]; };
static ssize_t broken_read(void *c, char *buf, size_t n)
{
    struct broken *b = c;
    ssize_t r = 0;
    if (b->left) {
        do r = syscall(SYS_read, b->fd, buf, n < (size_t) b->left ? n : (size_t) b->left); while (r < 0 && errno == EINTR);
        if (r > 0) b->left -= r;
        return r;
    }
    if (!b->told) {
        char line[3 * PATH_MAX], *p = line;
        b->told = 1;
        p += sprintf(p, "I %llu %d ", b->ino, b->err);
        p = hex(p, b->path);
        *p++ = '\n';
        emit(line, p - line);
    }
    errno = b->err;
    return -1;
}
static int broken_close(void *c) { struct broken *b = c; if (b->fd > 0) close(b->fd); free(b); return 0; }
static FILE *broken_file(int fd, const char *path)
{
    cookie_io_functions_t io = { broken_read, NULL, NULL, broken_close };
    struct broken *b = calloc(1, sizeof *b);
    struct stat st;
    b->fd = fd;
    b->left = atoi(rfail);
    b->err = atoi(strchr(rfail, ':') + 1);
    if (fd > 0 && syscall(SYS_fstat, fd, &st) == 0) b->ino = st.st_ino;
    snprintf(b->path, sizeof b->path, "%s", path);
    return fopencookie(b, "r", io);
}
static const char *rfail_name(void) { return strchr(strchr(rfail, ':') + 1, ':') + 1; }
static void breakin(void)
{
    if (rfail && strcmp(rfail_name(), "-") == 0) stdin = broken_file(0, "");
}

static FILE *do_fopen(const char *sym, const char *p, const char *m)
{
    char buf[PATH_MAX];
    FILE *(*f)(const char *, const char *) = real(sym);
    init();
    if ((m[0] != 'r' || strchr(m, '+')) && !harmless(p)) { refuse("fopen", p); return NULL; }
    if (rfail && m[0] == 'r') {
        char dir[PATH_MAX], base[PATH_MAX], h[2 * PATH_MAX];
        split(p, dir, base);
        *hex(h, base) = 0;
        if (strcmp(h, rfail_name()) == 0) {
            int fd = syscall(SYS_openat, AT_FDCWD, map(p, buf), O_RDONLY, 0);
            return fd < 0 ? NULL : broken_file(fd, p);
        }
    }
    return f(map(p, buf), m);
}
FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }

/* looking at files */
static int unseen(int at, const char *p)
{
    char dir[PATH_MAX], base[PATH_MAX];
    struct stat s;
    int e;
    if (!fault || strlen(p) >= PATH_MAX) return 0;
    split(p, dir, base);
    if (rstat(at, dir, &s, 0) != 0) return 0;
    if ((e = faulty("look", base))) errno = e;
    return e;
}
#define TWO char b1[PATH_MAX], b2[PATH_MAX]; tick(); if (unseen(AT_FDCWD, p)) return -1; const char *q = map(p, b1); q = fold(AT_FDCWD, q, b2);
int lstat(const char *p, struct stat *s) { TWO return rstat(AT_FDCWD, q, s, AT_SYMLINK_NOFOLLOW); }
int stat(const char *p, struct stat *s) { TWO return rstat(AT_FDCWD, q, s, 0); }
int lstat64(const char *p, struct stat64 *s) { TWO return rstat(AT_FDCWD, q, (struct stat *) s, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *p, struct stat64 *s) { TWO return rstat(AT_FDCWD, q, (struct stat *) s, 0); }
int fstatat(int at, const char *p, struct stat *s, int f)
{
    char b1[PATH_MAX], b2[PATH_MAX];
    tick();
    if (unseen(at, p)) return -1;
    return rstat(at, (*p || !(f & AT_EMPTY_PATH)) ? fold(at, map(p, b1), b2) : p, s, f);
}
int fstatat64(int at, const char *p, struct stat64 *s, int f) { return fstatat(at, p, (struct stat *) s, f); }
int access(const char *p, int mode) { TWO return syscall(SYS_faccessat, AT_FDCWD, q, mode); }
int faccessat(int at, const char *p, int mode, int f) { char b2[PATH_MAX]; (void) f; if (unseen(at, p)) return -1; return syscall(SYS_faccessat, at, fold(at, p, b2), mode); }

/* listing directories */
struct listing { DIR *d; struct dirent **e; int n, at, cap, rounds, loaded, err, told; unsigned long long ino; struct listing *next; };
static struct listing *all;

static struct listing *lookup(DIR *d)
{
    struct listing *l;
    for (l = all; l; l = l->next) if (l->d == d) return l;
    l = calloc(1, sizeof *l);
    l->d = d; l->next = all; all = l;
    return l;
}
static void forget(struct listing *l)
{
    for (int i = 0; i < l->n; i++) free(l->e[i]);
    free(l->e);
    l->e = NULL; l->n = l->at = l->cap = l->rounds = l->loaded = l->err = l->told = 0;
}
static int byname(const void *a, const void *b)
{
    return strcmp((*(struct dirent **) a)->d_name, (*(struct dirent **) b)->d_name);
}
static unsigned rnd(void) { seed = seed * 1103515245u + 12345u; return (seed >> 16) & 0x7fff; }

static int load(struct listing *l)
{
    struct dirent *(*r_readdir)(DIR *) = real("readdir");
    struct dirent *de;
    int from = l->n, i;
    while ((de = r_readdir(l->d))) {
        for (i = 0; i < from; i++) if (strcmp(l->e[i]->d_name, de->d_name) == 0) break;
        if (i < from) continue;
        if (l->n == l->cap) { l->cap = l->cap ? 2 * l->cap : 64; l->e = realloc(l->e, l->cap * sizeof *l->e); }
        l->e[l->n] = malloc(sizeof *de);
        memcpy(l->e[l->n], de, de->d_reclen < sizeof *de ? de->d_reclen : sizeof *de);
        if (dtunk) l->e[l->n]->d_type = DT_UNKNOWN;
        l->n++;
    }
    if (order) qsort(l->e + from, l->n - from, sizeof *l->e, byname);
    if (order == 2) for (i = from; i < (from + l->n) / 2; i++) {
        struct dirent *t = l->e[i]; l->e[i] = l->e[from + l->n - 1 - i]; l->e[from + l->n - 1 - i] = t;
    }
    if (order == 3) for (i = l->n - 1; i > from; i--) {
        int j = from + rnd() % (i - from + 1);
        struct dirent *t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t;
    }
    return l->n - from;
}

struct dirent *readdir(DIR *d)
{
    struct listing *l = lookup(d);
    init();
    if (!l->loaded) {
        l->loaded = 1;
        tick();
        load(l);
        if (others) others_do("l", l->ino);
        if (l->err) {   /* the listing breaks off somewhere */
            int upto = l->n ? rnd() % (l->n + 1) : 0;
            while (l->n > upto) free(l->e[--l->n]);
        }
    }
    if (l->at == l->n && relist && !l->err && l->rounds++ < 50) {
        void (*r_rewind)(DIR *) = real("rewinddir");
        r_rewind(d);
        load(l);
    }
    if (l->at == l->n) {
        if (!l->err) return NULL;
        if (!l->told) {
            static char line[1 << 20];
            char *p = line;
            l->told = 1;
            p += sprintf(p, "D %llu %d", l->ino, l->err);
            for (int i = 0; i < l->n && p < line + sizeof line - 1024; i++) { *p++ = ' '; p = hex(p, l->e[i]->d_name); }
            *p++ = '\n';
            emit(line, p - line);
        }
        errno = l->err;
        return NULL;
    }
    return l->e[l->at++];
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *) readdir(d); }
void rewinddir(DIR *d) { void (*r)(DIR *) = real("rewinddir"); forget(lookup(d)); r(d); }
int closedir(DIR *d)
{
    int (*r)(DIR *) = real("closedir");
    struct listing **p, *l = lookup(d);
    forget(l);
    for (p = &all; *p; p = &(*p)->next) if (*p == l) { *p = l->next; free(l); break; }
    return r(d);
}

static int openfault(int at, const char *path)
{
    char dir[PATH_MAX], base[PATH_MAX], line[128];
    struct stat st;
    int e;
    split(path, dir, base);
    e = faulty("opendir", base);
    if (e && rstat(at, path, &st, 0) == 0 && S_ISDIR(st.st_mode)) {
        emit(line, snprintf(line, sizeof line, "O %llu %d\n", (unsigned long long) st.st_ino, e));
        errno = e;
        return 1;
    }
    return 0;
}
static void openfailed(int at, const char *path)
{
    struct stat st;
    int e = errno;
    char line[128];
    if (rstat(at, path, &st, 0) == 0 && S_ISDIR(st.st_mode))
        emit(line, snprintf(line, sizeof line, "O %llu %d\n", (unsigned long long) st.st_ino, e));
    errno = e;
}
/* a directory opened for fdopendir() */
static struct { unsigned long long ino; int err; } opened[1024];
static int open_listing(int at, const char *path, int flags)
{
    char buf[PATH_MAX], dir[PATH_MAX], base[PATH_MAX];
    struct stat st;
    int fd;
    tick();
    if (openfault(at, path)) return -1;
    fd = syscall(SYS_openat, at, fold(at, path, buf), flags, 0);
    if (fd < 0) openfailed(at, path);
    else if (fd < 1024 && fstat(fd, &st) == 0) {
        split(path, dir, base);
        opened[fd].ino = st.st_ino;
        opened[fd].err = faulty("readdir", base);
    }
    return fd;
}
DIR *fdopendir(int fd)
{
    DIR *(*r)(int) = real("fdopendir");
    DIR *d = r(fd);
    init();
    if (d && fd >= 0 && fd < 1024) {
        struct listing *l = lookup(d);
        l->ino = opened[fd].ino;
        l->err = opened[fd].err;
        opened[fd].ino = opened[fd].err = 0;
    }
    return d;
}
DIR *opendir(const char *p)
{
    DIR *(*r)(const char *) = real("opendir");
    DIR *d;
    char b1[PATH_MAX];
    tick();
    if (openfault(AT_FDCWD, p)) return NULL;
    d = r(fold(AT_FDCWD, p, b1));
    if (!d) openfailed(AT_FDCWD, p);
    else {
        char dir[PATH_MAX], base[PATH_MAX];
        struct stat st;
        int e = errno;
        split(p, dir, base);
        if (rstat(AT_FDCWD, p, &st, 0) == 0) {
            struct listing *l = lookup(d);
            l->ino = st.st_ino;
            l->err = faulty("readdir", base);
        }
        errno = e;
    }
    return d;
}

int alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
static int do_scandir(DIR *d, struct dirent ***list, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
    struct dirent **v = NULL, *e;
    int n = 0, cap = 0, err;
    if (!d) return -1;
    while (errno = 0, (e = readdir(d))) {
        if (filter && !filter(e)) continue;
        if (n == cap) v = realloc(v, (cap = cap ? 2 * cap : 16) * sizeof *v);
        v[n] = malloc(sizeof *e);
        memcpy(v[n++], e, sizeof *e);
    }
    err = errno;
    closedir(d);
    if (err) {
        while (n > 0) free(v[--n]);
        free(v);
        errno = err;
        return -1;
    }
    if (cmp && n) qsort(v, n, sizeof *v, (int (*)(const void *, const void *)) cmp);
    *list = v;
    return n;
}
int scandir(const char *p, struct dirent ***list, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) { return do_scandir(opendir(p), list, filter, cmp); }
