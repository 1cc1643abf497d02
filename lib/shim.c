/* LD_PRELOADed into skyd by the checks (lib/faults.py): counts and fails file operations on the database files, tracks how
   much of each file has been synchronised, reports a chosen amount of free memory and makes the clock run faster.

   Only relative paths are touched: that is how skyd names its database files (its working directory is the scratch data
   directory of the check). Everything is controlled through a shared memory file named by SHIM_CTL. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_WRITE, OP_FSYNC, OP_CREATE, OP_OPEN, OP_MKDIR, OP_TRUNC, OP_SEEK, OP_UNLINK, OP_READ, OP_RENAME, NOPS };
#define NRULES 16
#define NFILES 2048
#define PLEN 232

struct rule {
	uint32_t active;   /* 0: unused */
	uint32_t opmask;   /* which operations it concerns */
	uint32_t skip;     /* let this many matching operations pass first */
	uint32_t count;    /* then affect this many */
	int32_t err;       /* errno to fail with (0: only a short write) */
	int32_t keep;      /* >= 0: a write first stores this many bytes (short write), and fails on the next call */
	uint32_t seen;     /* matching operations so far */
	uint32_t hits;     /* operations affected so far */
	uint32_t pend;     /* a short write was made; the next write fails */
	uint32_t pad;
	char sub[88];      /* part of the path ("": any) */
};
struct file {
	char path[PLEN];
	uint64_t synced;   /* size at the last successful sync */
	uint64_t dirty;    /* written or truncated since */
	uint64_t osync;    /* opened so that each write is synchronous */
};
struct ctl {
	uint32_t lock;
	uint32_t enabled;
	uint64_t counts[16];
	uint64_t faults;
	uint32_t nfiles;
	uint32_t overflow;
	struct rule rules[NRULES];
	struct file files[NFILES];
};
static struct ctl *C;
static int speed = 1;
static uint64_t freeram;
static struct timespec base[16];
#define MAXFD 65536
static int fdfile[MAXFD]; /* index + 1 into files */

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_read)(int, void *, size_t);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_close)(int);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_ftruncate)(int, off_t);
static off_t (*r_lseek)(int, off_t, int);
static int (*r_unlink)(const char *);
static int (*r_rename)(const char *, const char *);
static int (*r_clock)(clockid_t, struct timespec *);
static int (*r_epoll)(int, struct epoll_event *, int, int);
static int (*r_sysinfo)(struct sysinfo *);
static int (*r_flock)(int, int);
static int (*r_unlinkat)(int, const char *, int);
static long d_lock, d_unlink, d_unlinked; /* microseconds to wait around the operations on the lock file */

static void init(void) {
	static int done;
	if (done) return;
	done = 1;
	r_open = dlsym(RTLD_NEXT, "open64");
	r_openat = dlsym(RTLD_NEXT, "openat64");
	r_write = dlsym(RTLD_NEXT, "write");
	r_writev = dlsym(RTLD_NEXT, "writev");
	r_read = dlsym(RTLD_NEXT, "read");
	r_fsync = dlsym(RTLD_NEXT, "fsync");
	r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
	r_close = dlsym(RTLD_NEXT, "close");
	r_mkdir = dlsym(RTLD_NEXT, "mkdir");
	r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
	r_lseek = dlsym(RTLD_NEXT, "lseek64");
	r_unlink = dlsym(RTLD_NEXT, "unlink");
	r_rename = dlsym(RTLD_NEXT, "rename");
	r_clock = dlsym(RTLD_NEXT, "clock_gettime");
	r_epoll = dlsym(RTLD_NEXT, "epoll_wait");
	r_sysinfo = dlsym(RTLD_NEXT, "sysinfo");
	r_unlinkat = dlsym(RTLD_NEXT, "unlinkat");
	r_flock = dlsym(RTLD_NEXT, "flock");
	char *s = getenv("SHIM_LOCK");
	if (s) sscanf(s, "%ld,%ld,%ld", &d_lock, &d_unlink, &d_unlinked);
	s = getenv("SHIM_SPEED");
	if (s) speed = atoi(s) > 0 ? atoi(s) : 1;
	s = getenv("SHIM_FREERAM");
	if (s) freeram = strtoull(s, 0, 10);
	for (int i = 0; i < 16; i++) r_clock(i, &base[i]);
	s = getenv("SHIM_CTL");
	if (s) {
		int fd = r_open(s, O_RDWR | O_CLOEXEC);
		if (fd >= 0) {
			void *p = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) C = p;
			r_close(fd);
		}
	}
}
/* SHIM_HEAP=<file>,<offset of mallctl in the executable>: answers, through the file, how many bytes are allocated */
static int (*mallctl_)(const char *, void *, size_t *, void *, size_t);
static volatile uint64_t *heap;
static int first_object(struct dl_phdr_info *i, size_t n, void *p) {
	*(uintptr_t *)p = i->dlpi_addr;
	return 1;
}
static void *heap_thread(void *x) {
	for (;;) {
		struct timespec t = {0, 3000000};
		syscall(SYS_nanosleep, &t, 0);
		uint64_t asked = heap[0];
		if (asked == heap[1]) continue;
		uint64_t e = asked;
		size_t v = 0, n = sizeof v;
		mallctl_("thread.tcache.flush", 0, 0, 0, 0);
		mallctl_("epoch", 0, 0, &e, sizeof e);
		heap[3] = mallctl_("stats.allocated", &v, &n, 0, 0);
		heap[2] = v;
		__atomic_thread_fence(__ATOMIC_SEQ_CST);
		heap[1] = asked;
	}
	return 0;
}
static void heap_start(void) {
	char path[512];
	unsigned long off;
	char *s = getenv("SHIM_HEAP");
	if (!s || sscanf(s, "%511[^,],%lx", path, &off) != 2) return;
	int fd = r_open(path, O_RDWR | O_CLOEXEC);
	if (fd < 0) return;
	void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	r_close(fd);
	if (p == MAP_FAILED) return;
	heap = p;
	uintptr_t base = 0;
	dl_iterate_phdr(first_object, &base);
	mallctl_ = (void *)(base + off);
	pthread_t t;
	pthread_create(&t, 0, heap_thread, 0);
}
__attribute__((constructor)) static void ctor(void) {
	init();
	heap_start();
}

static void lock(void) {
	while (__atomic_exchange_n(&C->lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
}
static void unlock(void) { __atomic_store_n(&C->lock, 0, __ATOMIC_RELEASE); }

static int ours(const char *p) {
	return C && p && p[0] != '/' && strncmp(p, "skyd.log", 8) && strncmp(p, ".sky", 4);
}
static int lookup(const char *p, int add) {
	for (uint32_t i = 0; i < C->nfiles; i++)
		if (!strncmp(C->files[i].path, p, PLEN - 1)) return i;
	if (!add) return -1;
	if (C->nfiles >= NFILES) {
		C->overflow = 1;
		return -1;
	}
	int i = C->nfiles++;
	memset(&C->files[i], 0, sizeof C->files[i]);
	strncpy(C->files[i].path, p, PLEN - 1);
	return i;
}
static const char *fdpath(int fd) {
	if (!C || fd < 0 || fd >= MAXFD || !fdfile[fd]) return 0;
	return C->files[fdfile[fd] - 1].path;
}
/* 0: proceed; >0: fail with this errno; -1-k: store only k bytes */
static long hit(int op, const char *path, size_t n) {
	long ret = 0;
	lock();
	C->counts[op]++;
	if (C->enabled)
		for (int i = 0; i < NRULES; i++) {
			struct rule *r = &C->rules[i];
			if (!r->active || !(r->opmask >> op & 1) || (r->sub[0] && !strstr(path, r->sub))) continue;
			if (r->pend && op == OP_WRITE) {
				r->pend = 0;
				ret = r->err;
				break;
			}
			if (r->seen++ < r->skip || r->hits >= r->count) continue;
			r->hits++;
			C->faults++;
			if (op == OP_WRITE && r->keep >= 0 && (size_t)r->keep < n) {
				if (r->keep > 0) {
					if (r->err) r->pend = 1;
					ret = -1 - (long)r->keep;
				} else
					ret = r->err ? r->err : -2;
			} else if (r->err)
				ret = r->err;
			if (ret) break;
		}
	unlock();
	return ret;
}

static int opened(int fd, const char *path, int flags) {
	if (fd < 0 || fd >= MAXFD) return fd;
	lock();
	int i = lookup(path, 1);
	fdfile[fd] = i + 1;
	if (i >= 0) {
		struct file *f = &C->files[i];
		f->osync = (flags & O_DSYNC) == O_DSYNC;
		if (flags & O_TRUNC) f->dirty = 1, f->synced = 0;
	}
	unlock();
	return fd;
}
static int do_open(int at, const char *path, int flags, mode_t mode) {
	init();
	if (!ours(path) || (flags & O_DIRECTORY) || at != AT_FDCWD) {
		int fd = at == AT_FDCWD ? r_open(path, flags, mode) : r_openat(at, path, flags, mode);
		if (fd >= 0 && fd < MAXFD) fdfile[fd] = 0;
		return fd;
	}
	long e = hit(flags & O_CREAT ? OP_CREATE : OP_OPEN, path, 0);
	if (e > 0) {
		errno = e;
		return -1;
	}
	return opened(r_open(path, flags, mode), path, flags);
}
#define MODE                                      \
	mode_t mode = 0;                          \
	if (flags & (O_CREAT | __O_TMPFILE)) {    \
		va_list ap;                       \
		va_start(ap, flags);              \
		mode = va_arg(ap, mode_t);        \
		va_end(ap);                       \
	}
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags | O_LARGEFILE, mode); }

int close(int fd) {
	init();
	if (fd >= 0 && fd < MAXFD) fdfile[fd] = 0;
	return r_close(fd);
}
static void dirty(int fd) {
	struct stat st;
	lock();
	struct file *f = &C->files[fdfile[fd] - 1];
	f->dirty = 1;
	if (f->osync && !fstat(fd, &st)) f->synced = st.st_size, f->dirty = 0;
	unlock();
}
ssize_t write(int fd, const void *b, size_t n) {
	init();
	const char *p = fdpath(fd);
	if (!p) return r_write(fd, b, n);
	long e = hit(OP_WRITE, p, n);
	if (e > 0) {
		errno = e;
		return -1;
	}
	if (e < 0) n = -1 - e;
	ssize_t r = r_write(fd, b, n);
	if (r > 0) dirty(fd);
	return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
	init();
	const char *p = fdpath(fd);
	if (!p || n < 1) return r_writev(fd, v, n);
	return write(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t read(int fd, void *b, size_t n) {
	init();
	const char *p = fdpath(fd);
	if (p) {
		long e = hit(OP_READ, p, 0);
		if (e > 0) {
			errno = e;
			return -1;
		}
	}
	return r_read(fd, b, n);
}
static int do_sync(int fd, int (*f)(int)) {
	const char *p = fdpath(fd);
	if (!p) return f(fd);
	long e = hit(OP_FSYNC, p, 0);
	if (e > 0) {
		errno = e;
		return -1;
	}
	struct stat st;
	/* what is certain to be on disk afterwards is what the file held when the call began */
	int ok = !fstat(fd, &st);
	lock();
	struct file *x = &C->files[fdfile[fd] - 1];
	x->dirty = 0;
	unlock();
	int r = f(fd);
	if (!r && ok) {
		lock();
		x->synced = st.st_size;
		unlock();
	}
	return r;
}
int fsync(int fd) { init(); return do_sync(fd, r_fsync); }
int fdatasync(int fd) { init(); return do_sync(fd, r_fdatasync); }
int mkdir(const char *path, mode_t m) {
	init();
	if (ours(path)) {
		long e = hit(OP_MKDIR, path, 0);
		if (e > 0) {
			errno = e;
			return -1;
		}
	}
	return r_mkdir(path, m);
}
int ftruncate64(int fd, off_t len) {
	init();
	const char *p = fdpath(fd);
	if (!p) return r_ftruncate(fd, len);
	long e = hit(OP_TRUNC, p, 0);
	if (e > 0) {
		errno = e;
		return -1;
	}
	int r = r_ftruncate(fd, len);
	if (!r) {
		lock();
		struct file *x = &C->files[fdfile[fd] - 1];
		x->dirty = 1;
		if (x->synced > (uint64_t)len) x->synced = len;
		unlock();
	}
	return r;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
off_t lseek64(int fd, off_t o, int w) {
	init();
	const char *p = fdpath(fd);
	if (p) {
		long e = hit(OP_SEEK, p, 0);
		if (e > 0) {
			errno = e;
			return -1;
		}
	}
	return r_lseek(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int unlink(const char *path) {
	init();
	if (ours(path)) {
		long e = hit(OP_UNLINK, path, 0);
		if (e > 0) {
			errno = e;
			return -1;
		}
	}
	int lockfile = path && !strcmp(path, ".sky_pid");
	if (lockfile && d_unlink) usleep(d_unlink);
	int r = r_unlink(path);
	if (lockfile && d_unlinked) usleep(d_unlinked);
	return r;
}
int unlinkat(int d, const char *path, int flags) {
	init();
	if (C && path && path[0] != '/') {
		long e = hit(OP_UNLINK, path, 0);
		if (e > 0) {
			errno = e;
			return -1;
		}
	}
	return r_unlinkat(d, path, flags);
}
int flock(int fd, int op) {
	init();
	if (d_lock && (op & LOCK_EX)) usleep(d_lock);
	return r_flock(fd, op);
}
int rename(const char *a, const char *b) {
	init();
	if (ours(a)) {
		long e = hit(OP_RENAME, a, 0);
		if (e > 0) {
			errno = e;
			return -1;
		}
	}
	return r_rename(a, b);
}

/* ---- clock */
int clock_gettime(clockid_t c, struct timespec *t) {
	init();
	if (!r_clock) return (int)syscall(SYS_clock_gettime, c, t); /* asked for while the symbols are looked up (sanitizers) */
	int r = r_clock(c, t);
	if (!r && speed > 1 && (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW)) {
		struct timespec *b = &base[c];
		__int128 d = ((__int128)(t->tv_sec - b->tv_sec) * 1000000000 + (t->tv_nsec - b->tv_nsec)) * speed;
		d += (__int128)b->tv_sec * 1000000000 + b->tv_nsec;
		t->tv_sec = d / 1000000000;
		t->tv_nsec = d % 1000000000;
	}
	return r;
}
int epoll_wait(int e, struct epoll_event *v, int n, int timeout) {
	init();
	if (timeout > 0 && speed > 1) timeout = (timeout + speed - 1) / speed;
	return r_epoll(e, v, n, timeout);
}
int sysinfo(struct sysinfo *i) {
	init();
	int r = r_sysinfo(i);
	if (!r && freeram) {
		i->freeram = freeram;
		i->mem_unit = 1;
	}
	return r;
}
