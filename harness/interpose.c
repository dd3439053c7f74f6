/* Linked into the instrumented ctrlproxy binary (verification build only).
 *
 * Provides: a virtual clock (offset on top of the real clock, so GLib timers,
 * time() and friends can be moved forward from outside) and a fault plan for
 * socket reads and writes.  Controlled through a shared mapping named by the
 * environment variable VCTL; without it every call is passed through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct vctl {
	int64_t offset_ns;      /* 0: clock offset */
	uint32_t wr_cap;        /* 8: max bytes per socket write */
	uint32_t wr_eagain;     /* 12: one in N socket writes -> EAGAIN */
	uint32_t rd_cap;        /* 16: max bytes per socket read */
	uint32_t rd_eagain;     /* 20: one in N socket reads -> EAGAIN */
	uint32_t file_enospc;   /* 24: nonzero: writes to regular files fail */
	uint32_t wr_block;      /* 28: socket writes -> EAGAIN while set */
	uint64_t n_write;       /* 32 */
	uint64_t n_short_write; /* 40 */
	uint64_t n_eagain;      /* 48 */
	uint64_t n_read;        /* 56 */
	uint64_t n_short_read;  /* 64 */
	uint64_t n_file_fail;   /* 72 */
	uint32_t freeze;        /* 80: freeze real clock component at frozen_ns */
	uint32_t pad;
	int64_t frozen_ns;      /* 88: monotonic base when frozen */
	int64_t frozen_rt_ns;   /* 96: realtime base when frozen */
	uint32_t file_skip;     /* 104: number of regular-file writes that still succeed */
	uint32_t sndbuf;        /* 108: kernel send buffer size of new connections */
	uint64_t heap;          /* 112: bytes allocated when the last connection arrived */
};

static struct vctl *ctl;
/* Never outlive the monitor that started this process. */
static void __attribute__((constructor)) die_with_parent(void)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
}

static int ctl_init;

static struct vctl *get_ctl(void)
{
	if (!ctl_init) {
		const char *p = getenv("VCTL");
		ctl_init = 1;
		if (p) {
			int fd = open(p, O_RDWR);
			if (fd >= 0) {
				void *m = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
				if (m != MAP_FAILED)
					ctl = m;
				close(fd);
			}
		}
	}
	return ctl;
}

static int is_sock(int fd)
{
	struct stat st;
	if (fstat(fd, &st) != 0)
		return 0;
	return S_ISSOCK(st.st_mode);
}

static int is_reg(int fd)
{
	struct stat st;
	if (fstat(fd, &st) != 0)
		return 0;
	return S_ISREG(st.st_mode);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
	struct vctl *c = get_ctl();
	int ret = syscall(SYS_clock_gettime, id, ts);
	if (ret == 0 && c && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC ||
		id == CLOCK_MONOTONIC_COARSE || id == CLOCK_REALTIME_COARSE || id == CLOCK_BOOTTIME)) {
		int64_t ns = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
		if (c->freeze)
			ns = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? c->frozen_rt_ns : c->frozen_ns;
		ns += c->offset_ns;
		ts->tv_sec = ns / 1000000000LL;
		ts->tv_nsec = ns % 1000000000LL;
	}
	return ret;
}

time_t time(time_t *t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts;
	(void)tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

/* Not simply every Nth call: that could starve one connection forever. */
static int one_in(uint32_t n)
{
	static uint32_t x = 2463534242u;
	x ^= x << 13;
	x ^= x >> 17;
	x ^= x << 5;
	return (x >> 8) % n == 0;
}

/* returns allowed length, or -1 with errno set */
static ssize_t wr_gate(int fd, size_t len)
{
	struct vctl *c = get_ctl();
	if (!c)
		return len;
	if (c->wr_cap || c->wr_eagain || c->wr_block) {
		if (is_sock(fd)) {
			c->n_write++;
			if (c->wr_block || (c->wr_eagain && one_in(c->wr_eagain))) {
				c->n_eagain++;
				errno = EAGAIN;
				return -1;
			}
			if (c->wr_cap && len > c->wr_cap) {
				c->n_short_write++;
				return c->wr_cap;
			}
		}
	}
	if (c->file_enospc && fd > 2 && is_reg(fd)) {
		if (c->file_skip > 0) {
			c->file_skip--;
		} else {
			c->n_file_fail++;
			errno = ENOSPC;
			return -1;
		}
	}
	return len;
}

static ssize_t rd_gate(int fd, size_t len)
{
	struct vctl *c = get_ctl();
	if (!c || !(c->rd_cap || c->rd_eagain) || !is_sock(fd))
		return len;
	c->n_read++;
	if (c->rd_eagain && one_in(c->rd_eagain)) {
		c->n_eagain++;
		errno = EAGAIN;
		return -1;
	}
	if (c->rd_cap && len > c->rd_cap) {
		c->n_short_read++;
		return c->rd_cap;
	}
	return len;
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

ssize_t write(int fd, const void *buf, size_t len)
{
	static __typeof__(&write) real;
	ssize_t n = wr_gate(fd, len);
	if (n < 0)
		return -1;
	if (!real)
		real = REAL(write);
	return real(fd, buf, n);
}

ssize_t send(int fd, const void *buf, size_t len, int flags)
{
	static __typeof__(&send) real;
	ssize_t n = wr_gate(fd, len);
	if (n < 0)
		return -1;
	if (!real)
		real = REAL(send);
	return real(fd, buf, n, flags);
}

ssize_t read(int fd, void *buf, size_t len)
{
	static __typeof__(&read) real;
	ssize_t n = rd_gate(fd, len);
	if (n < 0)
		return -1;
	if (!real)
		real = REAL(read);
	return real(fd, buf, n);
}

ssize_t recv(int fd, void *buf, size_t len, int flags)
{
	static __typeof__(&recv) real;
	ssize_t n = rd_gate(fd, len);
	if (n < 0)
		return -1;
	if (!real)
		real = REAL(recv);
	return real(fd, buf, n, flags);
}

/* No Nagle delays between the proxy and the scripted peers, and small kernel
 * buffers on demand. */
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

int accept(int fd, struct sockaddr *restrict sa, socklen_t *restrict len)
{
	static __typeof__(&accept) real;
	int r, one = 1;
	if (!real)
		real = REAL(accept);
	if (get_ctl() && __sanitizer_get_current_allocated_bytes)
		get_ctl()->heap = __sanitizer_get_current_allocated_bytes();
	r = real(fd, sa, len);
	if (r >= 0)
		setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	if (r >= 0 && get_ctl() && get_ctl()->sndbuf)
		setsockopt(r, SOL_SOCKET, SO_SNDBUF, &get_ctl()->sndbuf, sizeof(uint32_t));
	return r;
}

int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	static __typeof__(&connect) real;
	int one = 1, e;
	if (!real)
		real = REAL(connect);
	e = errno;
	setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	if (get_ctl() && get_ctl()->sndbuf)
		setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &get_ctl()->sndbuf, sizeof(uint32_t));
	errno = e;
	return real(fd, sa, len);
}
