/*
 * Driver for lib/dnsthread: runs the real code, with its threads as coroutines
 * under a scheduler, through all schedules with a bounded number of
 * preemptions.  Scheduling points are the calls to the system and, if asked
 * for, every access to memory made by lib/dnsthread (which is compiled with
 * -fsanitize=thread; the __tsan_* functions are here).  Accesses are checked
 * for data races (vector clocks) and for use of freed memory.
 *
 * usage: dnst IN OUT      one script per line: "id bound mem max seed op ..."
 *   bound: preemptions; mem 1: preempt at memory accesses too; max: schedules
 *   at most; seed > 0: random schedules instead of all; seed = -1: the op
 *   words are preceded by the schedule to run, "c1.c2.c3..."
 *   s<slot>            spawn          q<slot><b>   request; then in callback:
 *   k<slot>            kill           r<b>         dnsthread_resolve
 *   e                  run the loop until a callback      f<n>  n-th system
 *   b: n nothing, q request again, k kill, d both         call of next op fails
 *      (requests with odd numbers have no answer)
 */
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "events.h"
#include "sock.h"
#include "sock_internal.h"
#include "dnsthread.h"

#define MAXCH 4000
#define MAXEV 16000
static struct shm {
	int nch;			/* choices made */
	short ch[MAXCH], opt[MAXCH];
	int npre;			/* length of the prefix given */
	int nev;
	char ev[MAXEV];
	int done;
} * X;
static int bound, memmode, rmode, used;
static uint64_t rs;
static uint32_t rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return ((uint32_t)(rs >> 33)); }

static void
ev(const char * fmt, ...)
{
	va_list ap;
	char b[300];
	int n;

	va_start(ap, fmt);
	n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if (X->nev + n + 4 > MAXEV)
		_exit(9);
	X->nev += sprintf(X->ev + X->nev, "%s{%s}", X->nev ? "," : "", b);
}
static void
misuse(const char * what)
{
	ev("\"e\":\"Misuse\",\"what\":\"%s\"", what);
	X->done = 1;
	_exit(0);
}

/* Threads. */
#define NT 24
enum { RUN, MTX, CV, POLL, JOIN, RES, DEAD };
typedef unsigned vc[NT];
static struct th {
	ucontext_t u;
	int st, det, joined, err, who;
	void * on;
	void * (* fn)(void *);
	void * arg;
	vc c;
} T[NT];
static int nt = 1, cur, started;
static vc sockvc[64];
static void
join(vc a, const vc b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }

static struct mx { void * m; int owner, live; vc c; } M[200];
static int nm;
static struct mx *
mx(void * m)
{
	for (int i = nm - 1; i >= 0; i--) if (M[i].m == m) return (&M[i]);
	M[nm].m = m; M[nm].owner = -1; M[nm].live = 0;
	return (&M[nm++]);
}

/* Memory: never reused. */
#define AR (1 << 21)
static uint8_t arena[AR] __attribute__((aligned(16)));
static uint8_t gran[AR / 16];		/* 1 live, 2 freed */
static size_t atop;
static int live, faultn = -1, faulted;
static struct acc { int wt; unsigned wc; unsigned rc[NT]; } * shadow;	/* per byte */

static int
fail(void)
{
	if (cur == 0 && faultn >= 0 && faultn-- == 0) { faulted = 1; return (1); }
	return (0);
}
void *
sim_malloc(size_t n)
{
	size_t a = (n + 31) & ~(size_t)15, i;
	void * p;

	if (fail()) { errno = ENOMEM; return (NULL); }
	if (atop + a > AR) _exit(8);
	p = arena + atop + 16;
	*(size_t *)(arena + atop) = n;
	for (i = 0; i < a / 16 - 1 + (n == 0); i++) gran[atop / 16 + 1 + i] = 1;
	memset(p, 0xd5, n);
	atop += a + 16;
	live++;
	return (p);
}
void
sim_free(void * p)
{
	size_t o, n, i;
	if (p == NULL) return;
	o = (size_t)((uint8_t *)p - arena);
	if (o >= AR) return;
	if (gran[o / 16] != 1) misuse("free of memory not allocated");
	n = *(size_t *)(arena + o - 16);
	for (i = 0; i * 16 < n || i == 0; i++) gran[o / 16 + i] = 2;
	memset(p, 0xdd, n);
	live--;
}
void * sim_calloc(size_t a, size_t b) { void * p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return (p); }
void *
sim_realloc(void * p, size_t n)
{
	void * q;
	size_t o;
	if (p == NULL) return (sim_malloc(n));
	o = *(size_t *)((uint8_t *)p - 16);
	if ((q = sim_malloc(n)) == NULL) return (NULL);
	memcpy(q, p, o < n ? o : n);
	sim_free(p);
	return (q);
}
char * sim_strdup(const char * s) { char * p = sim_malloc(strlen(s) + 1); if (p) strcpy(p, s); return (p); }

/* The scheduler. */
static ucontext_t trash;
static int mainop;		/* 1: thread 0 is inside a request, a kill or a spawn */
static int fdready(void);

static int
choose(int n)
{
	int c;

	if (X->nch >= MAXCH) { X->done = 2; _exit(0); }
	if (X->nch < X->npre) c = X->ch[X->nch];
	else if (rmode && n > 1) c = (int)(rnd() % (unsigned)n);
	else c = 0;
	if (c >= n) c = n - 1;
	X->ch[X->nch] = (short)c;
	X->opt[X->nch++] = (short)n;
	return (c);
}
static int
enabled(int i, int res)
{
	switch (T[i].st) {
	case RUN: return (1);
	case MTX: return (mx(T[i].on)->owner < 0);
	case JOIN: return (T[T[i].who].st == DEAD);
	case POLL: return (fdready());
	case RES: return (res);
	default: return (0);
	}
}
static void
go(int to)
{
	int from = cur;

	if (T[to].st != CV) T[to].st = RUN;
	if (to == from) return;
	T[from].err = errno;
	cur = to;
	swapcontext(&T[from].u, &T[to].u);
	errno = T[from].err;
}
/* Called with the current thread's state set: RUN if it can go on. */
static void
sched(int canpre)
{
	int c[NT], n = 0, i, hard = 0, self = T[cur].st == RUN || (T[cur].st != DEAD && enabled(cur, 0));

	if (self) c[n++] = cur;
	if (!self || !canpre || used < bound || rmode == 1) {
		for (i = 0; i < nt; i++)
			if (i != cur && enabled(i, 0)) { c[n++] = i; hard = 1; }
		if (T[cur].st == RES) c[n++] = cur;
		for (i = 0; i < nt; i++)
			if (i != cur && T[i].st == RES) c[n++] = i;
	}
	if (self) hard = 1;
	if (n == 0) {
		if (T[0].st != DEAD) {
			ev("\"e\":\"Deadlock\"");
			X->done = 1;
			_exit(0);
		}
		/* Thread 0 has finished. */
		swapcontext(&T[cur].u, &trash);
		return;
	}
	if (!hard && mainop && (T[0].st == MTX || T[0].st == CV || T[0].st == JOIN)) {
		ev("\"e\":\"Blocked\"");
		X->done = 1;
		_exit(0);
	}
	i = 0;
	if (n > 1) {
		/* Random schedules mostly let a thread go on. */
		if (rmode && self && canpre && X->nch >= X->npre && rnd() % 4 != 0) {
			if (X->nch >= MAXCH) { X->done = 2; _exit(0); }
			X->ch[X->nch] = 0; X->opt[X->nch++] = (short)n;
		} else
			i = choose(n);
	}
	if (self && canpre && c[i] != cur) used++;
	go(c[i]);
}
static void point(void) { if (started) sched(1); }

static void
th_main(int id)
{
	T[id].fn(T[id].arg);
	T[id].st = DEAD;
	T[id].c[id]++;
	sched(0);
	_exit(6);
}

/* Memory accesses of lib/dnsthread. */
static void
hb(uint8_t * p, int n, int w)
{
	size_t o = (size_t)(p - arena);
	struct acc * a;

	if (o >= AR || !started) return;
	if (memmode) point();
	for (int k = 0; k < n; k++) {
		if (gran[(o + (size_t)k) / 16] != 1) misuse(gran[(o + (size_t)k) / 16] == 2 ? "use of freed memory" : "wild access");
		a = &shadow[o + (size_t)k];
		if (a->wc && a->wc > T[cur].c[a->wt]) misuse("data race");
		if (w) {
			for (int i = 0; i < nt; i++) if (a->rc[i] > T[cur].c[i]) misuse("data race");
			a->wt = cur; a->wc = T[cur].c[cur];
		} else
			a->rc[cur] = T[cur].c[cur];
	}
}
#define RW(n) void __tsan_read##n(void * p) { hb(p, n, 0); } void __tsan_write##n(void * p) { hb(p, n, 1); } \
	void __tsan_unaligned_read##n(void * p) { hb(p, n, 0); } void __tsan_unaligned_write##n(void * p) { hb(p, n, 1); } \
	void __tsan_volatile_read##n(void * p) { hb(p, n, 0); } void __tsan_volatile_write##n(void * p) { hb(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) { hb(p, (int)n, 0); }
void __tsan_write_range(void * p, size_t n) { hb(p, (int)n, 1); }
void __tsan_init(void) { }
void __tsan_func_entry(void * p) { }
void __tsan_func_exit(void) { }
/* Atomics: sequentially consistent, and they order everything. */
static vc atvc;
static void at(void) { point(); join(T[cur].c, atvc); join(atvc, T[cur].c); T[cur].c[cur]++; }
#define AT(b, t) \
	t __tsan_atomic##b##_load(const volatile t * p, int o) { at(); return (*p); } \
	void __tsan_atomic##b##_store(volatile t * p, t v, int o) { at(); *p = v; } \
	t __tsan_atomic##b##_exchange(volatile t * p, t v, int o) { at(); t x = *p; *p = v; return (x); } \
	t __tsan_atomic##b##_fetch_add(volatile t * p, t v, int o) { at(); t x = *p; *p += v; return (x); } \
	t __tsan_atomic##b##_fetch_sub(volatile t * p, t v, int o) { at(); t x = *p; *p -= v; return (x); } \
	t __tsan_atomic##b##_fetch_or(volatile t * p, t v, int o) { at(); t x = *p; *p |= v; return (x); } \
	t __tsan_atomic##b##_fetch_and(volatile t * p, t v, int o) { at(); t x = *p; *p &= v; return (x); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile t * p, t * e, t v, int o, int f) { at(); if (*p == *e) { *p = v; return (1); } *e = *p; return (0); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile t * p, t * e, t v, int o, int f) { at(); if (*p == *e) { *p = v; return (1); } *e = *p; return (0); } \
	t __tsan_atomic##b##_compare_exchange_val(volatile t * p, t e, t v, int o, int f) { at(); t x = *p; if (x == e) *p = v; return (x); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { at(); }
void __tsan_atomic_signal_fence(int o) { }
void * __tsan_memcpy(void * d, const void * s, size_t n) { hb((void *)s, (int)n, 0); hb(d, (int)n, 1); return (memcpy(d, s, n)); }
void * __tsan_memset(void * d, int c, size_t n) { hb(d, (int)n, 1); return (memset(d, c, n)); }
void * __tsan_memmove(void * d, const void * s, size_t n) { hb((void *)s, (int)n, 0); hb(d, (int)n, 1); return (memmove(d, s, n)); }

int
sim_pthread_create(pthread_t * t, const pthread_attr_t * a, void * (* fn)(void *), void * arg)
{
	int i, det = 0;

	point();
	if (fail() || nt >= NT) return (EAGAIN);
	i = nt++;
	memset(&T[i], 0, sizeof(T[i]));
	if (a) pthread_attr_getdetachstate(a, &det);
	T[i].det = a != NULL && det == PTHREAD_CREATE_DETACHED;
	T[i].fn = fn; T[i].arg = arg; T[i].st = RUN;
	getcontext(&T[i].u);
	T[i].u.uc_stack.ss_sp = mmap(NULL, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	T[i].u.uc_stack.ss_size = 1 << 17;
	makecontext(&T[i].u, (void (*)(void))th_main, 1, i);
	T[cur].c[cur]++;
	join(T[i].c, T[cur].c);
	T[i].c[i] = 1;
	*t = (pthread_t)(i + 1000);
	point();
	return (0);
}
static int
tid(pthread_t t)
{
	int i = (int)t - 1000;
	if (i <= 0 || i >= nt) misuse("no such thread");
	return (i);
}
int
sim_pthread_join(pthread_t t, void ** r)
{
	int i = tid(t);

	if (T[i].det || T[i].joined || i == cur) misuse("join");
	point();
	T[cur].st = JOIN; T[cur].who = i;
	sched(0);
	T[i].joined = 1;
	join(T[cur].c, T[i].c);
	if (r) *r = NULL;
	return (0);
}
int
sim_pthread_detach(pthread_t t)
{
	int i = tid(t);
	if (T[i].det || T[i].joined) misuse("detach");
	T[i].det = 1;
	point();
	return (0);
}
pthread_t sim_pthread_self(void) { return ((pthread_t)(cur + 1000)); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return (a == b); }
int sim_pthread_cancel(pthread_t t) { misuse("cancel"); return (0); }
static void
chkmem(void * p, const char * what)
{
	size_t o = (size_t)((uint8_t *)p - arena);
	if (o < AR && gran[o / 16] != 1) misuse(what);
}
int sim_pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) { if (fail()) return (ENOMEM); mx(m)->live = 1; mx(m)->owner = -1; return (0); }
int
sim_pthread_mutex_destroy(pthread_mutex_t * m)
{
	chkmem(m, "mutex in freed memory");
	if (!mx(m)->live || mx(m)->owner >= 0) misuse("mutex destroyed while locked or twice");
	for (int i = 0; i < nt; i++) if (T[i].st == MTX && T[i].on == m) misuse("mutex destroyed while waited for");
	mx(m)->live = 0;
	point();
	return (0);
}
int
sim_pthread_mutex_lock(pthread_mutex_t * m)
{
	point();
	chkmem(m, "mutex in freed memory");
	if (!mx(m)->live) misuse("lock of no mutex");
	if (mx(m)->owner == cur) misuse("lock of own mutex");
	if (mx(m)->owner >= 0) { T[cur].st = MTX; T[cur].on = m; sched(0); }
	chkmem(m, "mutex in freed memory");
	mx(m)->owner = cur;
	join(T[cur].c, mx(m)->c);
	return (0);
}
int
sim_pthread_mutex_trylock(pthread_mutex_t * m)
{
	point();
	chkmem(m, "mutex in freed memory");
	if (mx(m)->owner >= 0) return (EBUSY);
	mx(m)->owner = cur;
	join(T[cur].c, mx(m)->c);
	return (0);
}
static void
unlock(pthread_mutex_t * m)
{
	chkmem(m, "mutex in freed memory");
	if (mx(m)->owner != cur) misuse("unlock of mutex not held");
	mx(m)->owner = -1;
	join(mx(m)->c, T[cur].c);
	T[cur].c[cur]++;
}
int sim_pthread_mutex_unlock(pthread_mutex_t * m) { unlock(m); point(); return (0); }
static struct { void * c; int live; } C[200];
static int nc;
static int
cvx(void * c) { int i; for (i = nc - 1; i >= 0; i--) if (C[i].c == c) return (i); C[nc].c = c; return (nc++); }
int sim_pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) { if (fail()) return (ENOMEM); C[cvx(c)].live = 1; return (0); }
int
sim_pthread_cond_destroy(pthread_cond_t * c)
{
	chkmem(c, "condition in freed memory");
	if (!C[cvx(c)].live) misuse("condition destroyed twice");
	for (int i = 0; i < nt; i++) if (T[i].st == CV && T[i].on == c) misuse("condition destroyed while waited for");
	C[cvx(c)].live = 0;
	return (0);
}
int
sim_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	point();
	chkmem(c, "condition in freed memory");
	if (!C[cvx(c)].live) misuse("wait for no condition");
	unlock(m);
	T[cur].st = CV; T[cur].on = c;
	sched(0);
	/* Woken: get the mutex again. */
	T[cur].st = RUN;
	if (mx(m)->owner >= 0) { T[cur].st = MTX; T[cur].on = m; sched(0); }
	chkmem(m, "mutex in freed memory");
	mx(m)->owner = cur;
	join(T[cur].c, mx(m)->c);
	return (0);
}
int sim_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { return (sim_pthread_cond_wait(c, m)); }
int
sim_pthread_cond_signal(pthread_cond_t * c)
{
	int i, w[NT], n = 0;
	point();
	chkmem(c, "condition in freed memory");
	if (!C[cvx(c)].live) misuse("signal of no condition");
	for (i = 0; i < nt; i++) if (T[i].st == CV && T[i].on == c) w[n++] = i;
	if (n) T[w[n > 1 ? choose(n) : 0]].st = RUN;
	return (0);
}
int
sim_pthread_cond_broadcast(pthread_cond_t * c)
{
	point();
	chkmem(c, "condition in freed memory");
	if (!C[cvx(c)].live) misuse("signal of no condition");
	for (int i = 0; i < nt; i++) if (T[i].st == CV && T[i].on == c) T[i].st = RUN;
	return (0);
}

/* Descriptors: socket pairs, from 40. */
static struct { int open, n; } F[64];
static int nf = 40, fdopen_;
static struct pollfd * pfds;
static nfds_t npfds;
static int
fdready(void)
{
	for (nfds_t i = 0; i < npfds; i++)
		if (pfds[i].fd >= 40 && pfds[i].fd < 64 && (!F[pfds[i].fd].open ||
		    ((pfds[i].events & POLLIN) && (F[pfds[i].fd].n || !F[pfds[i].fd ^ 1].open)))) return (1);
	return (0);
}
static void chkfd(int fd) { if (fd < 40 || fd >= nf || !F[fd].open) misuse("use of closed descriptor"); }
int
sim_socketpair(int d, int t, int p, int sv[2])
{
	if (fail()) { errno = EMFILE; return (-1); }
	if (nf >= 62) _exit(7);
	F[nf].open = F[nf + 1].open = 1;
	sv[0] = nf; sv[1] = nf + 1;
	nf += 2; fdopen_ += 2;
	return (0);
}
int sim_pipe(int sv[2]) { int s[2]; if (sim_socketpair(0, 0, 0, s)) return (-1); sv[0] = s[1]; sv[1] = s[0]; return (0); }
int sim_close(int fd) { point(); chkfd(fd); F[fd].open = 0; fdopen_--; return (0); }
ssize_t
sim_write(int fd, const void * b, size_t n)
{
	point();
	chkfd(fd);
	if (!F[fd ^ 1].open) { errno = EPIPE; return (-1); }
	F[fd ^ 1].n += (int)n;
	join(sockvc[fd ^ 1], T[cur].c);
	T[cur].c[cur]++;
	point();
	return ((ssize_t)n);
}
ssize_t sim_send(int fd, const void * b, size_t n, int f) { return (sim_write(fd, b, n)); }
ssize_t
sim_read(int fd, void * b, size_t n)
{
	point();
	chkfd(fd);
	if (F[fd].n == 0) { if (!F[fd ^ 1].open) return (0); misuse("read which blocks"); }
	if ((int)n > F[fd].n) n = (size_t)F[fd].n;
	F[fd].n -= (int)n;
	memset(b, 0, n);
	join(T[cur].c, sockvc[fd]);
	return ((ssize_t)n);
}
ssize_t sim_recv(int fd, void * b, size_t n, int f) { return (sim_read(fd, b, n)); }
int sim_fcntl(int fd, int c, ...) { return (0); }
int
sim_poll(struct pollfd * f, nfds_t n, int timeout)
{
	int r = 0;

	pfds = f; npfds = n;
	if (timeout != 0 && !fdready()) { T[cur].st = POLL; sched(0); }
	else point();
	for (nfds_t i = 0; i < n; i++) {
		f[i].revents = 0;
		if (f[i].fd < 0) continue;
		chkfd(f[i].fd);
		if ((f[i].events & POLLIN) && F[f[i].fd].n) f[i].revents |= POLLIN;
		if (!F[f[i].fd ^ 1].open) f[i].revents |= POLLHUP;
		if (f[i].events & POLLOUT) f[i].revents |= POLLOUT;
		if (f[i].revents) { r++; if (f[i].revents & (POLLIN | POLLHUP)) join(T[cur].c, sockvc[f[i].fd]); }
	}
	return (r);
}
int sim_clock_gettime(clockid_t c, struct timespec * ts) { ts->tv_sec = 1000; ts->tv_nsec = 0; return (0); }
int sim_gettimeofday(struct timeval * tv, void * z) { tv->tv_sec = 1000; tv->tv_usec = 0; return (0); }
int sim_clock_getres(clockid_t c, struct timespec * ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return (0); }

int
sim_getaddrinfo(const char * h, const char * s, const struct addrinfo * hints, struct addrinfo ** res)
{
	int i = -1, me = cur;
	struct { struct addrinfo a; struct sockaddr_in sin; } * r;

	sscanf(h, "h%d", &i);
	{ size_t o = (size_t)((uint8_t *)h - arena); if (o < AR && gran[o / 16] != 1) misuse("use of freed memory"); }
	if (cur != 0) { T[cur].st = RES; sched(0); }
	ev("\"e\":\"Lookup\",\"thr\":%d,\"i\":%d,\"ok\":%d", me, i, !(i & 1));
	if (i & 1) return (EAI_NONAME);
	r = calloc(1, sizeof(*r));
	r->a.ai_family = AF_INET; r->a.ai_socktype = SOCK_STREAM; r->a.ai_protocol = 6;
	r->a.ai_addrlen = sizeof(r->sin); r->a.ai_addr = (struct sockaddr *)&r->sin;
	r->sin.sin_family = AF_INET; r->sin.sin_port = htons((uint16_t)atoi(s)); r->sin.sin_addr.s_addr = htonl(0x0a000000u + (unsigned)i);
	*res = &r->a;
	return (0);
}
void sim_freeaddrinfo(struct addrinfo * a) { free(a); }
const char * sim_gai_strerror(int e) { return ("no"); }
static void (* atx[10])(void);
static int natx;
int sim_atexit(void (* f)(void)) { atx[natx++] = f; return (0); }
void sim_exit(int rc) { misuse("exit"); _exit(0); }
void sim__exit(int rc) { misuse("exit"); _exit(0); }
void sim_abort(void) { misuse("abort"); _exit(0); }
void sim___assert_fail(const char * a, const char * b, unsigned c, const char * d) { misuse("assertion failed"); _exit(0); }

/* Scripts. */
static DNSTHREAD D[4];
static int alive[4], nreq = 1, nown = 100, pending;
static struct rq { int id, slot; char b; int done; } R[100];
static void request(int, char);
static int thof[4];	/* threads of the slots */
static void
kill_(int s)
{
	int rc;
	if (!alive[s]) return;
	alive[s] = 0;
	for (int i = 0; i < nreq; i++) if (R[i].slot == s && R[i].id && !R[i].done) { R[i].done = 1; pending--; }
	ev("\"e\":\"Begin\",\"op\":\"kill\",\"s\":%d,\"i\":0", s);
	mainop = 1;
	rc = dnsthread_kill(D[s]);
	mainop = 0;
	faultn = -1;
	/* gone: its thread has ended */
	ev("\"e\":\"Kill\",\"s\":%d,\"rc\":%d,\"gone\":%d", s, rc, thof[s] == 0 || T[thof[s]].st == DEAD);
}
static int
cb(void * c, struct sock_addr ** sas)
{
	struct rq * r = c;
	int got = 0;

	if (sas && sas[0]) {
		struct sockaddr_in * sin = (struct sockaddr_in *)sas[0]->name;
		got = sas[1] || ntohs(sin->sin_port) != 77 ? 1000001 : (int)(ntohl(sin->sin_addr.s_addr) - 0x0a000000u);
	}
	ev("\"e\":\"Callback\",\"thr\":%d,\"i\":%d,\"got\":%d", cur, r->id, got);
	if (!r->done) pending--;
	r->done = 1;
	sock_addr_freelist(sas);
	if (r->slot < 4) {
		if (r->b == 'q' || r->b == 'd') request(r->slot, 'n');
		if (r->b == 'k' || r->b == 'd') kill_(r->slot);
	} else if (r->b == 'q')
		request(-1, 'n');
	return (0);
}
static void
request(int s, char b)
{
	struct rq * r = &R[nreq];
	char addr[30];
	int rc;

	r->id = nreq++; r->slot = s; r->b = b; r->done = 1;
	snprintf(addr, sizeof(addr), "h%d:77", r->id);
	ev("\"e\":\"Begin\",\"op\":\"req\",\"s\":%d,\"i\":%d", s < 0 ? nown : s, r->id);
	faulted = 0;
	mainop = 1;
	errno = 0;
	pending++;
	r->done = 0;
	if (s < 0) {
		r->slot = nown++;
		rc = dnsthread_resolve(addr, cb, r);
	} else
		rc = dnsthread_resolveone(D[s], addr, cb, r);
	mainop = 0;
	faultn = -1;
	if (s < 0)
		ev("\"e\":\"Resolve\",\"s\":%d,\"i\":%d,\"ok\":%d,\"flt\":%d", r->slot, r->id, rc == 0, faulted);
	else
		ev("\"e\":\"Req\",\"s\":%d,\"i\":%d,\"res\":\"%s\",\"flt\":%d", s, r->id, rc ? "fail" : errno == EALREADY ? "already" : "ok", faulted);
	if (rc || (s >= 0 && errno == EALREADY)) { if (!r->done) pending--; r->done = 1; }
	strcpy(addr, "overwritten");
}
static void
run(char ** w, int n)
{
	int i, s, th = 0;

	started = 1;
	T[0].c[0] = 1;
	for (i = 0; i < n; i++) {
		s = w[i][1] >= '0' && w[i][1] <= '3' ? w[i][1] - '0' : 0;
		switch (w[i][0]) {
		case 's':
			if (alive[s]) break;
			ev("\"e\":\"Begin\",\"op\":\"spawn\",\"s\":%d,\"i\":0", s);
			faulted = 0; mainop = 1;
			thof[s] = nt;
			D[s] = dnsthread_spawn();
			if (nt != thof[s] + 1) thof[s] = 0;
			mainop = 0; faultn = -1;
			alive[s] = D[s] != NULL;
			ev("\"e\":\"Spawn\",\"s\":%d,\"ok\":%d,\"flt\":%d", s, alive[s], faulted);
			break;
		case 'q': if (alive[s]) request(s, w[i][2]); break;
		case 'r': request(-1, w[i][1]); break;
		case 'k': kill_(s); break;
		case 'e':
			if (pending) { if (events_run()) misuse("the event loop reported an error"); }
			break;
		case 'f': faultn = atoi(w[i] + 1); break;
		}
	}
	for (i = 0; i < 50 && pending; i++)
		if (events_run()) misuse("the event loop reported an error");
	for (s = 0; s < 4; s++) kill_(s);
	/* Let everything else finish. */
	T[0].st = POLL; npfds = 0;
	for (;;) {
		for (s = 0, i = 1; i < nt; i++) if (enabled(i, 1)) s = 1;
		if (!s) break;
		T[0].st = DEAD;		/* not to be chosen */
		{
			int c[NT], k = 0;
			for (i = 1; i < nt; i++) if (enabled(i, 1)) c[k++] = i;
			i = c[k > 1 ? choose(k) : 0];
		}
		T[0].err = errno;
		cur = i; if (T[i].st != CV) T[i].st = RUN;
		/* th_main of the last thread to end comes back here. */
		swapcontext(&trash, &T[i].u);
		cur = 0;
	}
	T[0].st = RUN; cur = 0; started = 0;
	while (natx > 0) atx[--natx]();
	for (i = 1; i < nt; i++) if (T[i].st != DEAD || !(T[i].det || T[i].joined)) th++;
	ev("\"e\":\"End\",\"threads\":%d,\"fds\":%d,\"mem\":%d", th, fdopen_, live);
	X->done = 1;
}

#define NTR 4096
static char * seen[NTR];
int
main(int argc, char ** argv)
{
	static char line[1 << 16];
	FILE * in = fopen(argv[1], "r"), * o = fopen(argv[2], "w");

	X = mmap(NULL, sizeof(*X), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	shadow = mmap(NULL, sizeof(*shadow) * AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	while (fgets(line, sizeof(line), in)) {
		char * w[400], * sv, * id;
		int n = 0, max, seed, ns = 0, nsched = 0, i, st, all = 0, replay = 0;

		for (id = strtok_r(line, " \n", &sv); id && n < 400 && (w[n] = strtok_r(NULL, " \n", &sv)); n++) ;
		if (!id || n < 4) continue;
		bound = atoi(w[0]); memmode = atoi(w[1]); max = atoi(w[2]); seed = atoi(w[3]);
		X->npre = 0;
		i = 4;
		if (seed == -1) {
			char * p = w[4];
			replay = 1;
			i = 5;
			while (*p) { if (*p == '.') { p++; continue; } if (*p < '0' || *p > '9') break; X->ch[X->npre++] = (short)strtol(p, &p, 10); }
			max = 1;
		}
		fprintf(o, "{\"id\":\"%s\",\"tr\":[", id);
		for (; nsched < max; ) {
			X->nch = X->nev = X->done = 0;
			X->ev[0] = 0;
			rmode = seed > 0 ? 1 + nsched % 2 : 0;
			rs = (uint64_t)seed * 1000003 + (uint64_t)nsched;
			used = 0;
			pid_t p = fork();
			if (p == 0) {
				{ struct itimerval it = { { 0, 0 }, { 5, 0 } }; setitimer(ITIMER_PROF, &it, NULL); }
				freopen("/dev/null", "w", stderr);
				run(w + i, n - i);
				_exit(0);
			}
			waitpid(p, &st, 0);
			nsched++;
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && X->done)) {
				X->nev += sprintf(X->ev + X->nev, "%s{\"e\":\"Died\",\"st\":%d}", X->nev ? "," : "", st);
			}
			if (X->done != 2) {
				int k;
				for (k = 0; k < ns; k++) if (!strcmp(seen[k], X->ev)) break;
				if (k == ns && ns < NTR) {
					seen[ns++] = strdup(X->ev);
					fprintf(o, "%s{\"sch\":\"", ns > 1 ? "," : "");
					{ int m = X->nch; while (m > 0 && X->ch[m - 1] == 0) m--; for (int j = 0; j < m; j++) fprintf(o, "%d.", X->ch[j]); }
					fprintf(o, "0\",\"ev\":[%s]}", X->ev);
				}
			}
			if (seed > 0) { X->npre = 0; continue; }
			/* The next schedule. */
			for (; X->nch > 0 && X->ch[X->nch - 1] + 1 >= X->opt[X->nch - 1]; X->nch--) ;
			if (X->nch == 0) { all = 1; break; }
			X->ch[X->nch - 1]++;
			X->npre = X->nch;
		}
		fprintf(o, "],\"n\":%d,\"all\":%d}\n", nsched, all);
		for (i = 0; i < ns; i++) free(seen[i]);
	}
	fclose(o);
	return (0);
}
