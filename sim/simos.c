/* libsimos.so: the simulated operating system under CleverCSV.
 *
 * Preloaded into the processes that run the code under test.  Every libc entry
 * point CPython uses for file I/O, clocks and randomness goes through here.
 * For files below the scratch root the calls are counted, logged, and may be
 * failed, shortened, interrupted, delayed or turned into a crash as the plan in
 * shared memory says.  The calls are then executed for real on the scratch
 * directory, so all code above libc is the real thing.
 *
 * While armed, operations that would change files outside the scratch root are
 * refused (EACCES) and recorded: the simulator is its own containment.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_CLOSE, K_FSYNC, K_RENAME, K_UNLINK, K_LINK,
       K_SYMLINK, K_TRUNC, K_CHMOD, K_MKDIR, K_RMDIR, K_UTIME, K_COPY, K_ESCAPE, K_CHOWN };

enum { F_NONE, F_ERR, F_SHORT, F_EINTR, F_SIGINT, F_CRASH, F_CRASH_AFTER, F_TORN,
       F_SIGINT_AFTER, F_CLOCKJUMP, F_LATENCY };

#define MAXOPS 16384
#define MAXFAULTS 64
#define PATHLEN 224
#define BLOBMAX (24u << 20)
#define MAXINO 4096
#define MAXFD 1024
#define MAXPROC 8
#define MAXTURN 65536

typedef struct {
	int32_t kind, ino, ino2, fd, err, flags, fault, proc;
	int64_t off, len, ret, data, t;
	char path[PATHLEN], path2[PATHLEN];
} Op;

typedef struct {
	int64_t k;       /* index of the operation, or first operation if sticky;
	                    -n: the n-th operation that matches */
	int64_t seen;
	int32_t mask;    /* bit per kind; 0 = any kind */
	int32_t type;
	int64_t arg;
	int32_t sticky;  /* apply to every matching operation from k on */
	int32_t proc;    /* -1 any; else only this process (k counts its own operations) */
	int32_t fired;
	char match[64];  /* substring of the path, empty = any */
} Fault;

typedef struct {
	int32_t armed, nops, nfaults, overflow;
	int32_t clock_on, turn_on, nproc, escapes;
	int64_t capacity;          /* bytes that may still be written, -1 unlimited */
	int64_t rd_max, wr_max;    /* transfer size limits, 0 = none (size drawn from rng) */
	uint64_t rng;
	int64_t tjump_at, tjump;   /* set the clock at the n-th reading */
	int64_t real_ns, cpu_ns, mono_ns, tick_ns, op_ns;
	int64_t bloblen;
	int32_t nino, crashed, cap_fired, short_fired;
	struct { uint64_t dev, ino; } inos[MAXINO];
	Fault faults[MAXFAULTS];
	char root[PATHLEN];
	int32_t procops[MAXPROC];
	/* turn taking between processes */
	sem_t go[MAXPROC], report;
	int32_t pstate[MAXPROC];   /* 0 running, 1 waiting at an operation, 2 finished */
	int32_t pwant[MAXPROC];    /* kind of the operation it waits for */
	int32_t same_random, same_pid; /* processes draw the same numbers, have the same id */
	int64_t note;              /* progress mark that survives a crash of the run */
	Op ops[MAXOPS];
	char blob[BLOBMAX];
} Shared;

static Shared *S;
static int fdino[MAXFD];           /* 0 = untracked, else inode id */
static char fdpath[MAXFD][PATHLEN];
int sim_proc = 0;
static __thread int inside;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
#define GET(name) do { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); } while (0)

REAL(FILE *, fopen64, const char *, const char *);

/* ---------------------------------------------------------------- helpers */

static uint64_t rnd(void)
{
	uint64_t z = (S->rng += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static void norm(char *out, const char *path, int dirfd)
{
	/* lexical absolute path, good enough for scratch files */
	char buf[PATH_MAX * 2];
	if (path[0] == '/') {
		snprintf(buf, sizeof buf, "%s", path);
	} else if (dirfd >= 0 && dirfd < MAXFD && fdino[dirfd]) {
		snprintf(buf, sizeof buf, "%s/%s", fdpath[dirfd], path);
	} else {
		char cwd[PATH_MAX];
		if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0)
			strcpy(cwd, "/");
		snprintf(buf, sizeof buf, "%s/%s", cwd, path);
	}
	/* collapse // /./ /../ */
	char res[PATH_MAX * 2];
	size_t n = 0;
	char *save = NULL;
	res[0] = 0;
	for (char *p = strtok_r(buf, "/", &save); p; p = strtok_r(NULL, "/", &save)) {
		if (!strcmp(p, "."))
			continue;
		if (!strcmp(p, "..")) {
			while (n > 0 && res[--n] != '/')
				;
			res[n] = 0;
			continue;
		}
		n += sprintf(res + n, "/%s", p);
	}
	if (n == 0)
		strcpy(res, "/");
	snprintf(out, PATHLEN, "%.*s", PATHLEN - 1, res);
}

static int in_root(const char *p)
{
	if (!S || !S->root[0])
		return 0;
	size_t n = strlen(S->root);
	return !strncmp(p, S->root, n) && (p[n] == '/' || p[n] == 0);
}

static int fsid(const char *p)
{
	/* <root>/fs0/... and <root>/fs1/... behave like two mounted file systems */
	const char *q = p + strlen(S->root);
	if (!strncmp(q, "/fs1", 4))
		return 1;
	return 0;
}

static int armed(void) { return S && S->armed && !inside; }

static int ino_of_stat(const struct stat *st)
{
	for (int i = 0; i < S->nino; i++)
		if (S->inos[i].dev == st->st_dev && S->inos[i].ino == st->st_ino)
			return i + 1;
	if (S->nino >= MAXINO) {
		S->overflow = 1;
		return MAXINO;
	}
	S->inos[S->nino].dev = st->st_dev;
	S->inos[S->nino].ino = st->st_ino;
	return ++S->nino;
}

static int ino_of_path(const char *p)
{
	struct stat st;
	if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) < 0)
		return 0;
	return ino_of_stat(&st);
}

static int ino_of_fd(int fd)
{
	struct stat st;
	if (syscall(SYS_fstat, fd, &st) < 0)
		return 0;
	return ino_of_stat(&st);
}

static int64_t fdoff(int fd) { return syscall(SYS_lseek, fd, 0, SEEK_CUR); }
static int64_t fdsize(int fd)
{
	struct stat st;
	if (syscall(SYS_fstat, fd, &st) < 0)
		return 0;
	return st.st_size;
}

static void wait_turn(int kind)
{
	if (!S->turn_on || sim_proc < 0)
		return;
	S->pwant[sim_proc] = kind;
	S->pstate[sim_proc] = 1;
	sem_post(&S->report);
	while (sem_wait(&S->go[sim_proc]) < 0)
		;
	S->pstate[sim_proc] = 0;
}

static Op *begin(int kind, const char *path, int fd)
{
	wait_turn(kind);
	if (S->nops >= MAXOPS) {
		S->overflow = 1;
		S->nops = MAXOPS - 1;
	}
	Op *o = &S->ops[S->nops++];
	memset(o, 0, sizeof *o);
	o->kind = kind;
	o->fd = fd;
	o->proc = sim_proc;
	o->data = -1;
	o->t = S->mono_ns;
	if (path)
		snprintf(o->path, PATHLEN, "%s", path);
	S->mono_ns += S->op_ns;
	S->real_ns += S->op_ns;
	S->procops[sim_proc & 7]++;
	return o;
}

static void die(void)
{
	S->crashed = 1;
	if (S->turn_on) {
		S->pstate[sim_proc] = 2;
		sem_post(&S->report);
	}
	syscall(SYS_exit_group, 77);
}

/* Applies the plan to the operation.  Returns 1 if the call must return -1 with
 * errno set, 0 to go on.  *shortn is reduced for short transfers; *post gets a
 * fault to apply after the operation. */
static int plan(Op *o, int64_t *shortn, Fault **post)
{
	int64_t k = o - S->ops;
	int64_t pk = S->procops[sim_proc & 7] - 1;
	*post = NULL;
	for (int i = 0; i < S->nfaults; i++) {
		Fault *f = &S->faults[i];
		int64_t kk = f->proc >= 0 ? pk : k;
		if (f->proc >= 0 && f->proc != sim_proc)
			continue;
		if (f->k >= 0 && (f->sticky ? kk < f->k : kk != f->k))
			continue;
		if (f->mask && !(f->mask & (1 << o->kind)))
			continue;
		if (f->match[0] && !strstr(o->path, f->match) && !strstr(o->path2, f->match))
			continue;
		if (f->k < 0) {
			f->seen++;
			if (f->sticky ? f->seen < -f->k : f->seen != -f->k)
				continue;
		}
		switch (f->type) {
		case F_ERR:
			f->fired++;
			o->fault = f->type;
			o->err = (int)f->arg;
			o->ret = -1;
			errno = (int)f->arg;
			return 1;
		case F_SHORT:
			if (shortn && *shortn > f->arg && f->arg > 0) {
				f->fired++;
				o->fault = f->type;
				*shortn = f->arg;
			}
			break;
		case F_EINTR:
		case F_SIGINT:
			if (o->kind != K_READ && o->kind != K_WRITE && o->kind != K_OPEN)
				break;
			if (f->sticky && f->fired >= (f->arg ? f->arg : 1))
				break;
			f->fired++;
			o->fault = f->type;
			if (f->type == F_SIGINT)
				raise(SIGINT);
			o->err = EINTR;
			o->ret = -1;
			errno = EINTR;
			return 1;
		case F_CRASH:
			f->fired++;
			o->fault = f->type;
			o->ret = -1;
			die();
			break;
		case F_TORN:
			if (shortn && (o->kind == K_WRITE || o->kind == K_COPY)) {
				if (*shortn > f->arg)
					*shortn = f->arg;
			}
			/* fallthru */
		case F_CRASH_AFTER:
		case F_SIGINT_AFTER:
			if (f->type == F_SIGINT_AFTER && o->kind != K_READ && o->kind != K_WRITE)
				break;
			f->fired++;
			o->fault = f->type;
			*post = f;
			break;
		case F_CLOCKJUMP:
			f->fired++;
			S->real_ns += f->arg;
			break;
		case F_LATENCY:
			f->fired++;
			S->real_ns += f->arg;
			S->mono_ns += f->arg;
			break;
		}
	}
	return 0;
}

static void finish(Op *o, Fault *post)
{
	if (!post)
		return;
	if (post->type == F_CRASH_AFTER || post->type == F_TORN) {
		die();
	} else if (post->type == F_SIGINT_AFTER) {
		int e = errno;
		raise(SIGINT);
		errno = e;
	}
}

static void keep(Op *o, const void *data, int64_t n)
{
	if (n <= 0)
		return;
	if (S->bloblen + n > BLOBMAX) {
		S->overflow = 1;
		return;
	}
	memcpy(S->blob + S->bloblen, data, n);
	o->data = S->bloblen;
	S->bloblen += n;
}

static int escape(const char *path, const char *what)
{
	/* a change outside the scratch root */
	if (!strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/self/", 11))
		return 0;
	S->escapes++;
	Op *o = begin(K_ESCAPE, path, -1);
	snprintf(o->path2, PATHLEN, "%s", what);
	errno = EACCES;
	return 1;
}

static void track(int fd, const char *path)
{
	if (fd < 0 || fd >= MAXFD)
		return;
	fdino[fd] = ino_of_fd(fd);
	snprintf(fdpath[fd], PATHLEN, "%s", path);
}

static int tracked(int fd) { return S && fd >= 0 && fd < MAXFD && fdino[fd]; }

/* -------------------------------------------------------------------- open */

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
	char p[PATHLEN];
	if (!S || inside)
		return syscall(SYS_openat, dirfd, path, flags, mode);
	norm(p, path, dirfd);
	if (!in_root(p)) {
		if (S->armed && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))))
			if (escape(p, "open"))
				return -1;
		return syscall(SYS_openat, dirfd, path, flags, mode);
	}
	if (!S->armed) {
		int fd = syscall(SYS_openat, dirfd, path, flags, mode);
		if (fd >= 0)
			track(fd, p);
		return fd;
	}
	Fault *post;
	Op *o = begin(K_OPEN, p, -1);
	o->flags = flags;
	o->off = mode;
	if (plan(o, NULL, &post))
		return -1;
	int existed = ino_of_path(p);
	int fd = syscall(SYS_openat, dirfd, path, flags, mode);
	o->ret = fd < 0 ? -1 : 0;
	o->err = fd < 0 ? errno : 0;
	o->fd = fd;
	if (fd >= 0) {
		int e = errno;
		track(fd, p);
		errno = e;
		o->ino = fdino[fd < MAXFD ? fd : 0];
		o->len = existed ? 0 : 1; /* created */
	}
	finish(o, post);
	return fd;
}

#define MODEARG mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODEARG return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODEARG return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODEARG return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODEARG return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

FILE *fopen64(const char *path, const char *m)
{
	GET(fopen64);
	if (armed() && strpbrk(m, "wa+")) {
		char p[PATHLEN];
		norm(p, path, AT_FDCWD);
		if (!in_root(p) && escape(p, "fopen"))
			return NULL;
	}
	return real_fopen64(path, m);
}
FILE *fopen(const char *path, const char *m) { return fopen64(path, m); }

/* -------------------------------------------------------------- read/write */

ssize_t read(int fd, void *buf, size_t n)
{
	if (!armed() || !tracked(fd))
		return syscall(SYS_read, fd, buf, n);
	Fault *post;
	Op *o = begin(K_READ, fdpath[fd], fd);
	int64_t want = (int64_t)n;
	o->ino = fdino[fd];
	o->len = n;
	o->off = fdoff(fd);
	if (plan(o, &want, &post))
		return -1;
	if (S->rd_max > 0 && want > 1) {
		int64_t m = 1 + (int64_t)(rnd() % (uint64_t)S->rd_max);
		if (m < want) {
			want = m;
			S->short_fired++;
		}
	}
	ssize_t r = syscall(SYS_read, fd, buf, (size_t)want);
	o->ret = r;
	o->err = r < 0 ? errno : 0;
	finish(o, post);
	return r;
}

static int write_pre(Op *o, int64_t *want, Fault **post)
{
	if (plan(o, want, post))
		return 1;
	if (S->wr_max > 0 && *want > 1) {
		int64_t m = 1 + (int64_t)(rnd() % (uint64_t)S->wr_max);
		if (m < *want) {
			*want = m;
			S->short_fired++;
		}
	}
	if (S->capacity >= 0 && *want > 0) {
		if (S->capacity == 0) {
			S->cap_fired++;
			o->err = ENOSPC;
			o->ret = -1;
			errno = ENOSPC;
			return 1;
		}
		if (*want > S->capacity)
			*want = S->capacity;
		S->capacity -= *want;
	}
	return 0;
}

ssize_t write(int fd, const void *buf, size_t n)
{
	if (!armed() || !tracked(fd))
		return syscall(SYS_write, fd, buf, n);
	Fault *post;
	Op *o = begin(K_WRITE, fdpath[fd], fd);
	int64_t want = (int64_t)n;
	o->ino = fdino[fd];
	o->len = n;
	int fl = syscall(SYS_fcntl, fd, F_GETFL);
	o->off = (fl & O_APPEND) ? fdsize(fd) : fdoff(fd);
	if (write_pre(o, &want, &post))
		return -1;
	ssize_t r = syscall(SYS_write, fd, buf, (size_t)want);
	o->ret = r;
	o->err = r < 0 ? errno : 0;
	keep(o, buf, r);
	finish(o, post);
	return r;
}

ssize_t pread64(int fd, void *buf, size_t n, off64_t off)
{
	if (!armed() || !tracked(fd))
		return syscall(SYS_pread64, fd, buf, n, off);
	Fault *post;
	Op *o = begin(K_READ, fdpath[fd], fd);
	int64_t want = (int64_t)n;
	o->ino = fdino[fd];
	o->len = n;
	o->off = off;
	if (plan(o, &want, &post))
		return -1;
	ssize_t r = syscall(SYS_pread64, fd, buf, (size_t)want, off);
	o->ret = r;
	finish(o, post);
	return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
	if (!armed() || !tracked(fd))
		return syscall(SYS_pwrite64, fd, buf, n, off);
	Fault *post;
	Op *o = begin(K_WRITE, fdpath[fd], fd);
	int64_t want = (int64_t)n;
	o->ino = fdino[fd];
	o->len = n;
	o->off = off;
	if (write_pre(o, &want, &post))
		return -1;
	ssize_t r = syscall(SYS_pwrite64, fd, buf, (size_t)want, off);
	o->ret = r;
	keep(o, buf, r);
	finish(o, post);
	return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }

ssize_t readv(int fd, const struct iovec *iov, int c)
{
	if (!armed() || !tracked(fd) || c < 1)
		return syscall(SYS_readv, fd, iov, c);
	return read(fd, iov[0].iov_base, iov[0].iov_len); /* a legal short transfer */
}
ssize_t writev(int fd, const struct iovec *iov, int c)
{
	if (!armed() || !tracked(fd) || c < 1)
		return syscall(SYS_writev, fd, iov, c);
	return write(fd, iov[0].iov_base, iov[0].iov_len);
}

static ssize_t copy_via_buffer(int out, int in, off64_t *offin, off64_t *offout, size_t n)
{
	Fault *post;
	Op *o = begin(K_COPY, tracked(out) ? fdpath[out] : "", out);
	int64_t want = (int64_t)n;
	if (want > (1 << 20))
		want = 1 << 20;
	o->ino = tracked(out) ? fdino[out] : 0;
	o->len = n;
	o->off = offout ? *offout : fdoff(out);
	if (write_pre(o, &want, &post))
		return -1;
	char *buf = malloc(want ? want : 1);
	ssize_t r = offin ? syscall(SYS_pread64, in, buf, (size_t)want, *offin)
			  : syscall(SYS_read, in, buf, (size_t)want);
	ssize_t w = r;
	if (r > 0) {
		w = offout ? syscall(SYS_pwrite64, out, buf, (size_t)r, *offout)
			   : syscall(SYS_write, out, buf, (size_t)r);
		if (w > 0) {
			keep(o, buf, w);
			if (offin)
				*offin += w;
			if (offout)
				*offout += w;
		}
	}
	free(buf);
	o->ret = w;
	finish(o, post);
	return w;
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
	if (!armed() || (!tracked(out) && !tracked(in)))
		return syscall(SYS_sendfile, out, in, off, n);
	return copy_via_buffer(out, in, off, NULL, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
	if (!armed() || (!tracked(out) && !tracked(in)))
		return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
	return copy_via_buffer(out, in, oi, oo, n);
}

int close(int fd)
{
	if (!tracked(fd))
		return syscall(SYS_close, fd);
	if (!armed()) {
		fdino[fd] = 0;
		return syscall(SYS_close, fd);
	}
	Fault *post;
	Op *o = begin(K_CLOSE, fdpath[fd], fd);
	o->ino = fdino[fd];
	if (plan(o, NULL, &post)) {
		/* as on Linux: the descriptor is gone even if close reports an error */
		int e = errno;
		fdino[fd] = 0;
		syscall(SYS_close, fd);
		errno = e;
		return -1;
	}
	fdino[fd] = 0;
	int r = syscall(SYS_close, fd);
	o->ret = r;
	finish(o, post);
	return r;
}

static int do_sync(int fd, long nr)
{
	if (!armed() || !tracked(fd))
		return syscall(nr, fd);
	Fault *post;
	Op *o = begin(K_FSYNC, fdpath[fd], fd);
	o->ino = fdino[fd];
	if (plan(o, NULL, &post))
		return -1;
	o->ret = 0; /* durability is modelled from the log */
	finish(o, post);
	return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

int ftruncate64(int fd, off64_t len)
{
	if (!armed() || !tracked(fd))
		return syscall(SYS_ftruncate, fd, len);
	Fault *post;
	Op *o = begin(K_TRUNC, fdpath[fd], fd);
	o->ino = fdino[fd];
	o->len = len;
	if (plan(o, NULL, &post))
		return -1;
	int r = syscall(SYS_ftruncate, fd, len);
	o->ret = r;
	finish(o, post);
	return r;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }

/* --------------------------------------------------------------- namespace */

/* one-path operations: returns 1 if the call was refused */
#define ONEPATH(KIND, dirfd, path, what, CALL) \
	char p[PATHLEN]; \
	if (!armed()) return CALL; \
	norm(p, path, dirfd); \
	if (!in_root(p)) { if (escape(p, what)) return -1; return CALL; } \
	Fault *post; \
	Op *o = begin(KIND, p, -1); \
	o->ino = ino_of_path(p); \
	if (plan(o, NULL, &post)) return -1; \
	int r = CALL; \
	o->ret = r; o->err = r < 0 ? errno : 0; \
	if (!o->ino && r == 0) o->ino = ino_of_path(p); \
	finish(o, post); \
	return r;

#define TWOPATH(KIND, d1, a, d2, b, what, XDEV, CALL) \
	char p[PATHLEN], q[PATHLEN]; \
	if (!armed()) return CALL; \
	norm(p, a, d1); norm(q, b, d2); \
	if (!in_root(p) || !in_root(q)) { if (escape(in_root(p) ? q : p, what)) return -1; return CALL; } \
	Fault *post; \
	Op *o = begin(KIND, p, -1); \
	snprintf(o->path2, PATHLEN, "%s", q); \
	o->ino = ino_of_path(p); o->ino2 = ino_of_path(q); \
	if (plan(o, NULL, &post)) return -1; \
	if (XDEV && fsid(p) != fsid(q)) { o->ret = -1; o->err = errno = EXDEV; return -1; } \
	int r = CALL; \
	o->ret = r; o->err = r < 0 ? errno : 0; \
	finish(o, post); \
	return r;

int rename(const char *a, const char *b)
{ TWOPATH(K_RENAME, AT_FDCWD, a, AT_FDCWD, b, "rename", 1, syscall(SYS_rename, a, b)) }
int renameat(int d1, const char *a, int d2, const char *b)
{ TWOPATH(K_RENAME, d1, a, d2, b, "rename", 1, syscall(SYS_renameat, d1, a, d2, b)) }
int link(const char *a, const char *b)
{ TWOPATH(K_LINK, AT_FDCWD, a, AT_FDCWD, b, "link", 1, syscall(SYS_link, a, b)) }
int linkat(int d1, const char *a, int d2, const char *b, int f)
{ TWOPATH(K_LINK, d1, a, d2, b, "link", 1, syscall(SYS_linkat, d1, a, d2, b, f)) }
int unlink(const char *a) { ONEPATH(K_UNLINK, AT_FDCWD, a, "unlink", syscall(SYS_unlink, a)) }
int unlinkat(int d, const char *a, int f) { ONEPATH((f & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, d, a, "unlink", syscall(SYS_unlinkat, d, a, f)) }
int rmdir(const char *a) { ONEPATH(K_RMDIR, AT_FDCWD, a, "rmdir", syscall(SYS_rmdir, a)) }
int mkdir(const char *a, mode_t m) { ONEPATH(K_MKDIR, AT_FDCWD, a, "mkdir", syscall(SYS_mkdir, a, m)) }
int mkdirat(int d, const char *a, mode_t m) { ONEPATH(K_MKDIR, d, a, "mkdir", syscall(SYS_mkdirat, d, a, m)) }
int symlinkat(const char *t, int d, const char *a) { ONEPATH(K_SYMLINK, d, a, "symlink", syscall(SYS_symlinkat, t, d, a)) }
int symlink(const char *t, const char *a) { ONEPATH(K_SYMLINK, AT_FDCWD, a, "symlink", syscall(SYS_symlink, t, a)) }
int chmod(const char *a, mode_t m) { ONEPATH(K_CHMOD, AT_FDCWD, a, "chmod", syscall(SYS_chmod, a, m)) }
int fchmodat(int d, const char *a, mode_t m, int f) { (void)f; ONEPATH(K_CHMOD, d, a, "chmod", syscall(SYS_fchmodat, d, a, m)) }
int chown(const char *a, uid_t u, gid_t g) { ONEPATH(K_CHOWN, AT_FDCWD, a, "chown", syscall(SYS_chown, a, u, g)) }
int lchown(const char *a, uid_t u, gid_t g) { ONEPATH(K_CHOWN, AT_FDCWD, a, "chown", syscall(SYS_lchown, a, u, g)) }
int truncate64(const char *a, off64_t l)
{
	char p[PATHLEN];
	if (!armed())
		return syscall(SYS_truncate, a, l);
	norm(p, a, AT_FDCWD);
	if (!in_root(p)) {
		if (escape(p, "truncate"))
			return -1;
		return syscall(SYS_truncate, a, l);
	}
	Fault *post;
	Op *o = begin(K_TRUNC, p, -1);
	o->ino = ino_of_path(p);
	o->len = l;
	if (plan(o, NULL, &post))
		return -1;
	int r = syscall(SYS_truncate, a, l);
	o->ret = r;
	finish(o, post);
	return r;
}
int truncate(const char *a, off_t l) { return truncate64(a, l); }
int utimensat(int d, const char *a, const struct timespec ts[2], int f)
{
	ONEPATH(K_UTIME, d, a, "utime", syscall(SYS_utimensat, d, a, ts, f))
}
int fchmod(int fd, mode_t m)
{
	if (!armed() || !tracked(fd))
		return syscall(SYS_fchmod, fd, m);
	Fault *post;
	Op *o = begin(K_CHMOD, fdpath[fd], fd);
	o->ino = fdino[fd];
	if (plan(o, NULL, &post))
		return -1;
	int r = syscall(SYS_fchmod, fd, m);
	o->ret = r;
	finish(o, post);
	return r;
}

int dup(int fd)
{
	int r = syscall(SYS_dup, fd);
	if (r >= 0 && r < MAXFD && tracked(fd)) {
		fdino[r] = fdino[fd];
		memcpy(fdpath[r], fdpath[fd], PATHLEN);
	}
	return r;
}
int dup2(int fd, int n)
{
	int r = syscall(SYS_dup2, fd, n);
	if (r >= 0 && r < MAXFD && r != fd) {
		fdino[r] = tracked(fd) ? fdino[fd] : 0;
		if (fdino[r])
			memcpy(fdpath[r], fdpath[fd], PATHLEN);
	}
	return r;
}
int dup3(int fd, int n, int fl)
{
	int r = syscall(SYS_dup3, fd, n, fl);
	if (r >= 0 && r < MAXFD && r != fd) {
		fdino[r] = tracked(fd) ? fdino[fd] : 0;
		if (fdino[r])
			memcpy(fdpath[r], fdpath[fd], PATHLEN);
	}
	return r;
}

/* -------------------------------------------------- clocks and randomness */

static int armed_here;	/* in this process, not in the one watching it */
static int clock_sim(void) { return S && S->armed && S->clock_on && armed_here; }

static void tick(void)
{
	S->mono_ns += S->tick_ns;
	S->real_ns += S->tick_ns;
	S->cpu_ns += S->tick_ns;
	if (S->tjump_at > 0 && --S->tjump_at == 0)
		S->real_ns += S->tjump;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
	if (!clock_sim())
		return syscall(SYS_clock_gettime, id, ts);
	tick();
	int64_t t = S->mono_ns;
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
		t = S->real_ns;
	else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)
		t = S->cpu_ns;		/* waiting uses no processor time */
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
clock_t times(struct tms *b)
{
	if (!clock_sim())
		return syscall(SYS_times, b);
	tick();
	long hz = sysconf(_SC_CLK_TCK);
	if (b) {
		memset(b, 0, sizeof *b);
		b->tms_utime = S->cpu_ns / (1000000000 / hz);
	}
	return S->mono_ns / (1000000000 / hz);
}
int getrusage(__rusage_who_t who, struct rusage *u)
{
	int r = syscall(SYS_getrusage, who, u);
	if (r == 0 && clock_sim()) {
		tick();
		u->ru_utime.tv_sec = S->cpu_ns / 1000000000;
		u->ru_utime.tv_usec = S->cpu_ns % 1000000000 / 1000;
		u->ru_stime.tv_sec = u->ru_stime.tv_usec = 0;
	}
	return r;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b)
{
	if (!clock_sim()) {
		long r = syscall(SYS_clock_nanosleep, id, fl, a, b);
		return r < 0 ? errno : 0;
	}
	int64_t t = a->tv_sec * 1000000000ll + a->tv_nsec;
	int64_t d = (fl & TIMER_ABSTIME) ? t - S->mono_ns : t;
	if (d > 0) {
		S->mono_ns += d;
		S->real_ns += d;
	}
	return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
	int r = clock_nanosleep(CLOCK_MONOTONIC, 0, a, b);
	if (r) {
		errno = r;
		return -1;
	}
	return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl)
{
	if (!(S && S->armed && armed_here))
		return syscall(SYS_getrandom, buf, n, fl);
	unsigned char *p = buf;
	uint64_t keep = S->rng;
	static uint64_t own;	/* this process's position in the common sequence */
	if (S->same_random)
		S->rng = own;
	for (size_t i = 0; i < n; i++)
		p[i] = (unsigned char)(rnd() >> 13);
	if (S->same_random) {
		own = S->rng;
		S->rng = keep;
	}
	return n;
}
pid_t getpid(void)
{
	if (S && S->armed && armed_here && S->same_pid)
		return 4242;
	return syscall(SYS_getpid);
}

/* ------------------------------------------------------- allocation faults */

/* private to the process that arms them */
static int64_t al_count, al_fail_at, al_fail_n, al_failed;
static int al_on;

static int alloc_fails_any(void)
{
	if (!al_on)
		return 0;
	int64_t c = al_count++;
	if (al_fail_at >= 0 && c >= al_fail_at && c < al_fail_at + al_fail_n) {
		al_failed++;
		return 1;
	}
	return 0;
}

/* al_on: 1 every allocation counts, 2 only those the extensions make with malloc */
static int alloc_fails(void) { return al_on == 1 && alloc_fails_any(); }

/* plain malloc used by the extension modules (linked with --wrap) */
static int64_t ext_live;	/* blocks the extensions allocated and have not freed */
void *__wrap_malloc(size_t n)
{
	void *p = alloc_fails_any() ? NULL : malloc(n);
	ext_live += p != NULL;
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p = alloc_fails_any() ? NULL : calloc(a, b);
	ext_live += p != NULL;
	return p;
}
void *__wrap_realloc(void *p, size_t n)
{
	void *q = alloc_fails_any() ? NULL : realloc(p, n);
	ext_live += p == NULL && q != NULL;
	return q;
}
void __wrap_free(void *p)
{
	ext_live -= p != NULL;
	free(p);
}
int64_t sim_alloc_live(void) { return ext_live; }

typedef struct {
	void *ctx;
	void *(*malloc)(void *, size_t);
	void *(*calloc)(void *, size_t, size_t);
	void *(*realloc)(void *, void *, size_t);
	void (*free)(void *, void *);
} PyAlloc;
static PyAlloc orig_alloc[3];
static int64_t py_live;	/* blocks allocated since the hooks were installed, less those freed */
static void *h_malloc(void *c, size_t n)
{
	PyAlloc *a = c;
	void *p = alloc_fails() ? NULL : a->malloc(a->ctx, n);
	py_live += p != NULL;
	return p;
}
static void *h_calloc(void *c, size_t m, size_t n)
{
	PyAlloc *a = c;
	void *p = alloc_fails() ? NULL : a->calloc(a->ctx, m, n);
	py_live += p != NULL;
	return p;
}
static void *h_realloc(void *c, void *p, size_t n)
{
	PyAlloc *a = c;
	void *q = alloc_fails() ? NULL : a->realloc(a->ctx, p, n);
	py_live += p == NULL && q != NULL;
	return q;
}
static void h_free(void *c, void *p)
{
	PyAlloc *a = c;
	py_live -= p != NULL;
	a->free(a->ctx, p);
}
int64_t sim_alloc_pylive(void) { return py_live; }

int sim_alloc_install(void)
{
	void (*get)(int, PyAlloc *) = dlsym(RTLD_DEFAULT, "PyMem_GetAllocator");
	void (*set)(int, PyAlloc *) = dlsym(RTLD_DEFAULT, "PyMem_SetAllocator");
	if (!get || !set)
		return -1;
	for (int d = 1; d <= 2; d++) { /* PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ */
		get(d, &orig_alloc[d]);
		PyAlloc a = { &orig_alloc[d], h_malloc, h_calloc, h_realloc, h_free };
		set(d, &a);
	}
	return 0;
}
void sim_alloc_arm(int64_t at, int64_t n)
{
	al_count = 0;
	al_failed = 0;
	al_fail_at = at;
	al_fail_n = n;
	al_on = 1;
}
void sim_alloc_arm_ext(int64_t at, int64_t n)
{
	sim_alloc_arm(at, n);
	al_on = 2;
}
int64_t sim_alloc_disarm(void)
{
	al_on = 0;
	return al_count;
}
int64_t sim_alloc_failed(void) { return al_failed; }

/* ------------------------------------------------------------ control API */

int sim_init(const char *root)
{
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED) {
		S = NULL;
		return -1;
	}
	snprintf(S->root, PATHLEN, "%s", root);
	S->capacity = -1;
	return 0;
}
void sim_reset(uint64_t seed)
{
	int n = S->nops;
	S->armed = 0;
	memset(S->ops, 0, sizeof(Op) * (n < MAXOPS ? n + 1 : MAXOPS));
	S->nops = S->nfaults = S->overflow = S->escapes = 0;
	S->tjump_at = S->tjump = 0;
	S->cpu_ns = 0;
	S->clock_on = S->turn_on = S->nproc = 0;
	S->same_random = S->same_pid = 0;
	S->capacity = -1;
	S->rd_max = S->wr_max = 0;
	S->rng = seed;
	S->real_ns = 1700000000ll * 1000000000ll;
	S->mono_ns = 5000ll * 1000000000ll;
	S->tick_ns = 1000;
	S->op_ns = 100000;
	S->bloblen = 0;
	S->nino = S->crashed = S->cap_fired = S->short_fired = 0;
	al_on = 0;
	memset(S->procops, 0, sizeof S->procops);
	memset(S->pstate, 0, sizeof S->pstate);
}
void sim_arm(int on) { if (S) S->armed = on; armed_here = on; }
void sim_knob(int which, int64_t v)
{
	switch (which) {
	case 0: S->capacity = v; break;
	case 1: S->rd_max = v; break;
	case 2: S->wr_max = v; break;
	case 3: S->clock_on = (int)v; break;
	case 4: S->tick_ns = v; break;
	case 5: S->op_ns = v; break;
	case 6: sim_proc = (int)v; break;
	case 7: S->real_ns += v; break;
	case 8: S->real_ns += v; S->mono_ns += v; break;
	case 9: S->tjump_at = v; break;
	case 10: S->tjump = v; break;
	case 11: S->same_random = (int)v; break;
	case 12: S->same_pid = (int)v; break;
	}
}
int64_t sim_get(int which)
{
	switch (which) {
	case 0: return S->nops;
	case 1: return S->overflow;
	case 2: return S->escapes;
	case 3: return S->crashed;
	case 4: return S->cap_fired;
	case 5: return S->short_fired;
	case 6: return S->mono_ns;
	case 7: return S->real_ns;
	case 8: return S->capacity;
	case 9: return S->tjump_at;
	}
	return -1;
}
int sim_fault(int64_t k, int mask, int type, int64_t arg, int sticky, int proc, const char *match)
{
	if (S->nfaults >= MAXFAULTS)
		return -1;
	Fault *f = &S->faults[S->nfaults];
	memset(f, 0, sizeof *f);
	f->k = k;
	f->mask = mask;
	f->type = type;
	f->arg = arg;
	f->sticky = sticky;
	f->proc = proc;
	snprintf(f->match, sizeof f->match, "%s", match ? match : "");
	return S->nfaults++;
}
int sim_fault_fired(int i) { return S->faults[i].fired; }
Op *sim_op(int i) { return &S->ops[i]; }
char *sim_blob(void) { return S->blob; }
int sim_register(const char *p) { return ino_of_path(p); }
int sim_open_tracked(void)
{
	int n = 0;
	for (int i = 0; i < MAXFD; i++)
		n += fdino[i] != 0;
	return n;
}
const char *sim_fd_path(int fd) { return tracked(fd) ? fdpath[fd] : ""; }

/* turn taking between processes */
void sim_turns(int n)
{
	S->nproc = n;
	sem_init(&S->report, 1, 0);
	for (int i = 0; i < n; i++) {
		sem_init(&S->go[i], 1, 0);
		S->pstate[i] = 0;
	}
	S->turn_on = 1;
}
void sim_turn_finished(void)
{
	S->pstate[sim_proc] = 2;
	sem_post(&S->report);
}
int sim_turn_wait_report(int ms)
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	ts.tv_sec += ms / 1000;
	ts.tv_nsec += (ms % 1000) * 1000000l;
	if (ts.tv_nsec >= 1000000000) {
		ts.tv_sec++;
		ts.tv_nsec -= 1000000000;
	}
	while (sem_timedwait(&S->report, &ts) < 0)
		if (errno != EINTR)
			return -1;
	return 0;
}
void sim_turn_start(void) { wait_turn(0); }
void sim_turn_dead(int i) { S->pstate[i] = 2; }
void sim_turn_mark(int i) { S->pstate[i] = 0; }
void sim_turn_go(int i) { sem_post(&S->go[i]); }
int sim_turn_state(int i) { return S->pstate[i]; }
int sim_turn_want(int i) { return S->pwant[i]; }
void sim_note(int64_t v) { S->note = v; }
int64_t sim_noted(void) { return S->note; }
