/* simio: the simulator's storage, randomness and stderr.
 *
 * Owns open/open64/openat, read, close, fstat/statx, lseek, getrandom and write(1|2) for simulated
 * paths ("/simfs/..."), driven by a plan that contains every decision.  The same source is linked
 * into the simulator (which loads plans with simio_load) and built as a shared object that is
 * preloaded under the real `rng` program (SIMIO_PLAN names the plan, SIMIO_LOG the event log).
 *
 * Plan format (binary, little endian; u32 lengths):
 *   'S' u64                      seed for getrandom
 *   'F' str path, bytes data     a file (repeat for further versions of the same path: 'V')
 *   'D' str path                 a directory
 *   'X' str path, u8 op, u32 nth, u8 effect, i64 arg    a fault at the nth (0-based) op on path
 *   'C' str path, u32 chunk      reads on path return at most chunk bytes
 *   'O'                          capture fd 2, discard fd 1 (in-process)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 0, OP_READ = 1, OP_STAT = 2, OP_SEEK = 3, OP_CLOSE = 4, OP_WRITE = 5, OP_OUT = 6 };
enum { EF_ERRNO = 0, EF_SHORT = 1, EF_EOF = 2, EF_FLIP = 3, EF_SIZE = 4, EF_VERSION = 5, EF_AT = 6 };

#define MAXF 1024
#define MAXV 4
#define MAXX 4096
#define MAXFD 4096

typedef struct { char *path; unsigned char *data[MAXV]; size_t len[MAXV]; int nver; int ver; int isdir; uint32_t chunk; uint32_t count[7]; } vfile;
typedef struct { int file; int op; uint32_t nth; int effect; int64_t arg; int fired; } vfault;
typedef struct { int used; int file; int ver; size_t pos; } vfd;

static vfile files[MAXF]; static int nfiles;
static vfault faults[MAXX]; static int nfaults;
static vfd fds[MAXFD];
static int active;            /* a plan is loaded */
static int capture;           /* capture writes to fd 2, discard those to fd 1 */
static uint64_t rng_state; static int rng_on;
static int log_fd = -1;
static char *logbuf; static size_t loglen, logcap;
static char *outbuf; static size_t outlen, outcap;
static uint32_t werr_count, wout_count;   /* writes seen on fd 2 and 1 */
static void (*op_cb)(int op, const char *path);

#define PREFIX "/simfs/"

/* not malloc: this may run in a signal handler that interrupted malloc (Rust reporting a stack overflow) */
static void buf_add(char **b, size_t *l, size_t *c, const char *s, size_t n) {
    if (*l + n + 1 > *c) {
        size_t nc = (*c ? *c * 2 : 65536);
        while (nc < *l + n + 1) nc *= 2;
        char *nb = (char *)syscall(SYS_mmap, NULL, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (nb == MAP_FAILED) _exit(99);
        if (*c) { memcpy(nb, *b, *l); syscall(SYS_munmap, *b, *c); }
        *b = nb; *c = nc;
    }
    memcpy(*b + *l, s, n); *l += n; (*b)[*l] = 0;
}
static void logf_(const char *fmt, ...) {
    char t[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof t) n = sizeof t - 1;
    if (log_fd >= 0) { syscall(SYS_write, log_fd, t, (size_t)n); }
    else buf_add(&logbuf, &loglen, &logcap, t, (size_t)n);
}

#define FIRE(x) do { (x)->fired++; logf_("fault %d\n", (int)((x) - faults)); } while (0)

static int find(const char *p) { for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].path, p)) return i; return -1; }
/* lexical normalisation: "//", "." and ".." (the simulated tree has no links) */
static void norm(const char *in, char *out, size_t cap) {
    size_t st[256]; int d = 0; size_t o = 0;
    const char *p = in;
    if (*in != '/') { memcpy(out, "/simfs/p", 8); o = 8; st[d++] = 0; st[d++] = 6; }
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        const char *e = p; while (*e && *e != '/') e++;
        size_t n = (size_t)(e - p);
        if (n == 1 && p[0] == '.') { }
        else if (n == 2 && p[0] == '.' && p[1] == '.') { if (d) o = st[--d]; }
        else if (o + n + 2 < cap && d < 256) { st[d++] = o; out[o++] = '/'; memcpy(out + o, p, n); o += n; }
        p = e;
    }
    if (!o) out[o++] = '/';
    out[o] = 0;
}
/* relative names belong to the simulated current directory */
static int is_sim(const char *p) { return active && p && *p && (*p != '/' || !strncmp(p, PREFIX, strlen(PREFIX))); }

static vfault *fault_for(int file, int op, uint32_t nth) {
    for (int i = 0; i < nfaults; i++) if (faults[i].file == file && faults[i].op == op && faults[i].nth == nth) return &faults[i];
    return NULL;
}

static int real_close(int fd) { return (int)syscall(SYS_close, fd); }

static int sim_open(const char *path) {
    char np[4200];
    if (strlen(path) >= 4096) { logf_("open <too long> ENAMETOOLONG\n"); errno = ENAMETOOLONG; return -1; }
    norm(path, np, sizeof np);
    if (op_cb) op_cb(OP_OPEN, np);
    int f = find(np);
    uint32_t nth = f >= 0 ? files[f].count[OP_OPEN]++ : 0;
    vfault *x = f >= 0 ? fault_for(f, OP_OPEN, nth) : NULL;
    if (x) {
        FIRE(x);
        if (x->effect == EF_ERRNO) { logf_("open %s -> errno %d\n", np, (int)x->arg); errno = (int)x->arg; return -1; }
        if (x->effect == EF_VERSION) { if (x->arg < files[f].nver) files[f].ver = (int)x->arg; }
    }
    if (f < 0 || (files[f].nver == 0 && !files[f].isdir)) { logf_("open %s -> errno %d\n", np, ENOENT); errno = ENOENT; return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0 || fd >= MAXFD) { if (fd >= 0) real_close(fd); errno = EMFILE; return -1; }
    fds[fd].used = 1; fds[fd].file = f; fds[fd].ver = files[f].ver; fds[fd].pos = 0;
    logf_("open %s -> ok\n", np);
    return fd;
}

static int real_open(const char *path, int flags, mode_t mode) { return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode); }

int open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); if (is_sim(path)) return sim_open(path); return real_open(path, flags, m); }
int open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); if (is_sim(path)) return sim_open(path); return real_open(path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); if (is_sim(path)) return sim_open(path); return (int)syscall(SYS_openat, d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); if (is_sim(path)) return sim_open(path); return (int)syscall(SYS_openat, d, path, flags, m); }

static vfd *vf(int fd) { return (active && fd >= 0 && fd < MAXFD && fds[fd].used) ? &fds[fd] : NULL; }

static ssize_t sim_read(vfd *v, void *buf, size_t n, int64_t at) {
    vfile *f = &files[v->file];
    if (op_cb) op_cb(OP_READ, f->path);
    uint32_t nth = f->count[OP_READ]++;
    vfault *x = fault_for(v->file, OP_READ, nth);
    size_t pos = at >= 0 ? (size_t)at : v->pos;
    if (f->isdir) { logf_("read %s -> errno %d\n", f->path, EISDIR); errno = EISDIR; return -1; }
    size_t len = f->len[v->ver];
    size_t left = pos < len ? len - pos : 0;
    size_t k = n < left ? n : left;
    if (f->chunk && k > f->chunk) k = f->chunk;
    int64_t flip = -1;
    if (x) {
        switch (x->effect) {
        case EF_ERRNO: FIRE(x); logf_("read %s -> errno %d\n", f->path, (int)x->arg); errno = (int)x->arg; return -1;
        case EF_SHORT: if (k > (size_t)x->arg && x->arg > 0) { k = (size_t)x->arg; FIRE(x); } break;
        case EF_EOF: if (left) { FIRE(x); logf_("read %s -> early eof\n", f->path); } return 0;
        case EF_FLIP: if (k) { FIRE(x); flip = x->arg; } break;
        default: break;
        }
    }
    memcpy(buf, f->data[v->ver] + pos, k);
    if (flip >= 0) ((unsigned char *)buf)[(size_t)(flip >> 8) % k] ^= (unsigned char)(flip & 0xff);
    /* bytes that are wrong on the medium, whoever reads them */
    for (int i = 0; i < nfaults; i++)
        if (faults[i].file == v->file && faults[i].effect == EF_AT) {
            size_t off = (size_t)(faults[i].arg >> 8);
            if (off >= pos && off < pos + k) { FIRE(&faults[i]); ((unsigned char *)buf)[off - pos] ^= (unsigned char)(faults[i].arg & 0xff); }
        }
    if (at < 0) v->pos += k;
    logf_("read %s @%zu -> %zu\n", f->path, pos, k);
    return (ssize_t)k;
}

ssize_t read(int fd, void *buf, size_t n) { vfd *v = vf(fd); if (v) return sim_read(v, buf, n, -1); return syscall(SYS_read, fd, buf, n); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { vfd *v = vf(fd); if (v) return sim_read(v, buf, n, (int64_t)o); return syscall(SYS_pread64, fd, buf, n, o); }
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    vfd *v = vf(fd);
    if (v) { for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return sim_read(v, iov[i].iov_base, iov[i].iov_len, -1); return 0; }
    return syscall(SYS_readv, fd, iov, cnt);
}

/* what a write to fd 1 or 2 meets: -1 with errno, or the number of bytes it may take */
static ssize_t out_fault(int fd, size_t n) {
    int op = fd == 2 ? OP_WRITE : OP_OUT;
    uint32_t nth = fd == 2 ? werr_count++ : wout_count++;
    vfault *x = fault_for(-1, op, nth);
    if (!x) x = fault_for(-1, op, 0xffffffffu); /* every write */
    if (x && x->effect == EF_ERRNO) { FIRE(x); logf_("write %s -> errno %d\n", fd == 2 ? "stderr" : "stdout", (int)x->arg); errno = (int)x->arg; return -1; }
    if (x && x->effect == EF_SHORT && n > (size_t)x->arg && x->arg > 0) { FIRE(x); n = (size_t)x->arg; }
    return (ssize_t)n;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (active && (fd == 1 || fd == 2) && (capture || nfaults)) {
        ssize_t k = out_fault(fd, n);
        if (k < 0) return -1;
        n = (size_t)k;
        if (capture) { if (fd == 2) buf_add(&outbuf, &outlen, &outcap, buf, n); return (ssize_t)n; }
    }
    return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (active && (fd == 1 || fd == 2)) {
        for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

int close(int fd) {
    vfd *v = vf(fd);
    if (v) {
        vfile *f = &files[v->file];
        uint32_t nth = f->count[OP_CLOSE]++;
        vfault *x = fault_for(v->file, OP_CLOSE, nth);
        logf_("close %s\n", f->path);
        v->used = 0; real_close(fd);
        if (x && x->effect == EF_ERRNO) { FIRE(x); logf_("close %s -> errno %d\n", f->path, (int)x->arg); errno = (int)x->arg; return -1; }
        return 0;
    }
    return real_close(fd);
}

static int stat_ver, stat_file;   /* what was asked for last; each version has its own inode and time */
static int sim_stat_common(int file, int ver, uint64_t *size, int *isdir) {
    vfile *f = &files[file];
    uint32_t nth = f->count[OP_STAT]++;
    stat_file = file; stat_ver = ver;
    vfault *x = fault_for(file, OP_STAT, nth);
    *size = f->len[ver]; *isdir = f->isdir;
    if (x) {
        if (x->effect == EF_ERRNO) { FIRE(x); logf_("stat %s -> errno %d\n", f->path, (int)x->arg); errno = (int)x->arg; return -1; }
        if (x->effect == EF_SIZE) { FIRE(x); *size = (uint64_t)x->arg; logf_("stat %s -> size %llu (fault)\n", f->path, (unsigned long long)*size); return 0; }
    }
    logf_("stat %s\n", f->path);
    return 0;
}
static int stat_path(const char *path, uint64_t *size, int *isdir) {
    char np[4200]; if (strlen(path) >= 4096) { errno = ENAMETOOLONG; return -1; }
    norm(path, np, sizeof np);
    int f = find(np);
    if (f < 0 || (files[f].nver == 0 && !files[f].isdir)) { errno = ENOENT; return -1; }
    /* a file that is replaced before it is opened again, has been replaced by now */
    int ver = files[f].ver;
    vfault *x = fault_for(f, OP_OPEN, files[f].count[OP_OPEN]);
    if (x && x->effect == EF_VERSION && x->arg < files[f].nver) ver = (int)x->arg;
    return sim_stat_common(f, ver, size, isdir);
}
static void fill_stat(struct stat *st, uint64_t size, int isdir) {
    memset(st, 0, sizeof *st); st->st_mode = isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = (off_t)size; st->st_nlink = 1; st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((size + 511) / 512);
    st->st_ino = (ino_t)(1000 + stat_file * MAXV + stat_ver); st->st_dev = 77; st->st_mtim.tv_sec = 1700000000 + stat_ver; st->st_ctim = st->st_mtim;
}
static void fill_statx(struct statx *sx, uint64_t size, int isdir) {
    memset(sx, 0, sizeof *sx); sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644); sx->stx_size = size; sx->stx_nlink = 1; sx->stx_blksize = 4096; sx->stx_blocks = (size + 511) / 512;
    sx->stx_ino = (uint64_t)(1000 + stat_file * MAXV + stat_ver); sx->stx_dev_minor = 77; sx->stx_mtime.tv_sec = 1700000000 + stat_ver; sx->stx_ctime = sx->stx_mtime;
}
int fstat(int fd, struct stat *st) {
    vfd *v = vf(fd); uint64_t s; int d;
    if (v) { if (sim_stat_common(v->file, v->ver, &s, &d) < 0) return -1; fill_stat(st, s, d); return 0; }
    return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) {
    if (is_sim(p)) { uint64_t s; int d; if (stat_path(p, &s, &d) < 0) return -1; fill_stat(st, s, d); return 0; }
    return (int)syscall(SYS_stat, p, st);
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) { if (is_sim(p)) return stat(p, st); return (int)syscall(SYS_lstat, p, st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int statx(int dfd, const char *p, int flags, unsigned mask, struct statx *sx) {
    uint64_t s; int d;
    vfd *v = vf(dfd);
    if (v && p && !*p && (flags & AT_EMPTY_PATH)) { if (sim_stat_common(v->file, v->ver, &s, &d) < 0) return -1; fill_statx(sx, s, d); return 0; }
    if (is_sim(p)) { if (stat_path(p, &s, &d) < 0) return -1; fill_statx(sx, s, d); return 0; }
    return (int)syscall(SYS_statx, dfd, p, flags, mask, sx);
}
off64_t lseek64(int fd, off64_t off, int whence) {
    vfd *v = vf(fd);
    if (v) {
        vfile *f = &files[v->file];
        uint32_t nth = f->count[OP_SEEK]++;
        vfault *x = fault_for(v->file, OP_SEEK, nth);
        if (x && x->effect == EF_ERRNO) { FIRE(x); logf_("lseek %s -> errno %d\n", f->path, (int)x->arg); errno = (int)x->arg; return -1; }
        int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)v->pos : (int64_t)f->len[v->ver];
        if (base + off < 0) { errno = EINVAL; return -1; }
        v->pos = (size_t)(base + off);
        return base + off;
    }
    return syscall(SYS_lseek, fd, off, whence);
}
off_t lseek(int fd, off_t off, int whence) { return lseek64(fd, off, whence); }
/* realpath/readlink of simulated paths: there are no links */
char *realpath(const char *p, char *out) {
    static char *(*real)(const char *, char *);
    if (is_sim(p)) {
        uint64_t s; int d; if (stat_path(p, &s, &d) < 0) return NULL;
        char np[4200]; norm(p, np, sizeof np);
        if (!out) return strdup(np);
        strcpy(out, np); return out;
    }
    if (!real) real = dlsym(RTLD_NEXT, "realpath");
    return real(p, out);
}

char *getcwd(char *buf, size_t n) {
    if (active) {
        if (!buf) return strdup("/simfs/p");
        if (n < 9) { errno = ERANGE; return NULL; }
        return strcpy(buf, "/simfs/p");
    }
    long k = syscall(SYS_getcwd, buf, n);
    return k < 0 ? NULL : buf;
}

static uint64_t next_u64(void) { uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!rng_on) return syscall(SYS_getrandom, buf, n, flags);
    unsigned char *b = buf; size_t i = 0;
    while (i < n) { uint64_t r = next_u64(); size_t k = n - i < 8 ? n - i : 8; memcpy(b + i, &r, k); i += k; }
    logf_("getrandom %zu\n", n);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

/* ---- control ---- */
void simio_reset(void) {
    for (int i = 0; i < nfiles; i++) { free(files[i].path); for (int v = 0; v < files[i].nver; v++) free(files[i].data[v]); }
    memset(files, 0, sizeof files); nfiles = 0; memset(faults, 0, sizeof faults); nfaults = 0;
    for (int i = 0; i < MAXFD; i++) if (fds[i].used) { real_close(i); fds[i].used = 0; }
    active = 0; capture = 0; rng_on = 0; werr_count = wout_count = 0; loglen = 0; outlen = 0; op_cb = 0;
    if (logbuf) logbuf[0] = 0;
    if (outbuf) outbuf[0] = 0;
}
static const unsigned char *g32(const unsigned char *p, uint32_t *v) { memcpy(v, p, 4); return p + 4; }
int simio_load(const unsigned char *p, size_t n) {
    const unsigned char *e = p + n; uint32_t l;
    simio_reset();
    while (p < e) {
        int t = *p++;
        if (t == 'S') { memcpy(&rng_state, p, 8); p += 8; rng_on = 1; continue; }
        if (t == 'O') { capture = 1; continue; }
        p = g32(p, &l); char *path = malloc(l + 1); if (!path) return -1; memcpy(path, p, l); path[l] = 0; p += l;
        int f = find(path);
        if (f < 0 && strcmp(path, "<stderr>")) { if (nfiles >= MAXF) { free(path); return -1; } f = nfiles++; files[f].path = path; }
        else { if (!strcmp(path, "<stderr>")) f = -1; free(path); }
        if (t == 'F' || t == 'V') {
            p = g32(p, &l); if (f < 0 || files[f].nver >= MAXV) return -1;
            unsigned char *d = malloc(l ? l : 1); if (!d) return -1; memcpy(d, p, l); p += l;
            files[f].data[files[f].nver] = d; files[f].len[files[f].nver] = l; files[f].nver++;
        } else if (t == 'D') { files[f].isdir = 1; }
        else if (t == 'C') { p = g32(p, &l); files[f].chunk = l; }
        else if (t == 'X') {
            if (nfaults >= MAXX) return -1;
            vfault *x = &faults[nfaults++]; x->file = f; x->op = *p++; p = g32(p, &x->nth); x->effect = *p++; memcpy(&x->arg, p, 8); p += 8; x->fired = 0;
        } else return -1;
    }
    active = 1;
    return 0;
}
void simio_set_cb(void (*cb)(int, const char *)) { op_cb = cb; }
const char *simio_log(size_t *n) { *n = loglen; return logbuf ? logbuf : ""; }
const char *simio_out(size_t *n) { *n = outlen; return outbuf ? outbuf : ""; }
void simio_clear_out(void) { outlen = 0; }
void simio_seed(uint64_t s) { rng_state = s; rng_on = 1; }
void simio_noseed(void) { rng_on = 0; }
int simio_fired(int i) { return i >= 0 && i < nfaults ? faults[i].fired : 0; }
int simio_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fds[i].used; return n; }

#ifdef SIMIO_PRELOAD
__attribute__((constructor)) static void boot(void) {
    const char *plan = getenv("SIMIO_PLAN"), *lg = getenv("SIMIO_LOG");
    if (!plan) return;
    int fd = real_open(plan, O_RDONLY | O_CLOEXEC, 0); if (fd < 0) _exit(98);
    size_t cap = 1 << 16, n = 0; unsigned char *b = malloc(cap); if (!b) _exit(98);
    for (;;) { if (n == cap) { cap *= 2; b = realloc(b, cap); if (!b) _exit(98); } ssize_t k = syscall(SYS_read, fd, b + n, cap - n); if (k < 0) _exit(98); if (k == 0) break; n += (size_t)k; }
    real_close(fd);
    if (simio_load(b, n) < 0) _exit(98);
    free(b);
    if (lg) { log_fd = real_open(lg, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644); }
}
#endif
