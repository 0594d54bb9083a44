/*
 * Deterministic simulated operating system for spiped and spipe.
 *
 * The program under test is linked with its libc references renamed to
 * sim_*.  The environment (clients, peers, attacker, network, clock, signals,
 * resolver, thread schedule) is driven by a scenario script; every step which
 * is observable at the system-call boundary is logged as one JSON object.
 * Nothing here knows how the program works inside.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <arpa/inet.h>
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <time.h>
#include <unistd.h>
#include "simos.h"

extern int prog_main(int, char **);

/* ------------------------------------------------------------------ log */
#define LOGMAX (24u << 20)
static struct logbuf { size_t len; int over; char b[]; } * L;
static int64_t vnow;		/* virtual time, microseconds */
#define T0 (1000 * 1000000LL + 700000)
static int nsteps;
static int maxsteps = 200000;

void
lg(const char * fmt, ...)
{
	va_list ap;
	int n;

	if (L->len + 4096 > LOGMAX) {
		L->over = 1;
		_exit(91);
	}
	n = snprintf(L->b + L->len, 128, "{\"t\":%lld,", (long long)((vnow - T0) / 1000));
	L->len += (size_t)n;
	va_start(ap, fmt);
	n = vsnprintf(L->b + L->len, LOGMAX - L->len - 8, fmt, ap);
	va_end(ap);
	L->len += (size_t)n;
	memcpy(L->b + L->len, "}\n", 2);
	L->len += 2;
	nsteps = 0;		/* something happened */
}

static int nheap;		/* live heap blocks of the program */
static int finished;

static void
step(void)
{
	if (++nsteps > maxsteps) {
		lg("\"e\":\"Spin\"");
		_exit(92);
	}
}

/* ------------------------------------------------------- virtual objects */
enum { K_FREE, K_LISTEN, K_SOCK, K_RANDOM, K_PAIR, K_STDIN, K_STDOUT, K_STDERR, K_NULL, K_FILE };
enum { S_A = 0, S_T = 1 };	/* accepted side, target side */

struct bq { uint8_t * b; size_t len, cap, off; };	/* byte queue */
static void
bq_add(struct bq * q, const void * p, size_t n)
{
	if (q->len + n > q->cap) {
		q->cap = (q->len + n) * 2 + 256;
		q->b = realloc(q->b, q->cap);
	}
	memcpy(q->b + q->len, p, n);
	q->len += n;
}

struct vs {			/* socket endpoint in the program */
	int used;		/* exists */
	int conn, side, fd;
	int isplain;		/* carries plaintext */
	int family;
	int connected;		/* 0 not, 1 pending, 2 yes, 3 failed */
	int cerr;		/* error of failed connect */
	int soerr;		/* pending SO_ERROR */
	int errread;		/* SO_ERROR result was read */
	struct bq in;		/* bytes sent to the program */
	int hold;		/* only rel bytes available */
	size_t rel;
	int eof;		/* peer sent FIN (after in) */
	int eofseen;
	int rst;		/* peer reset */
	int rstseen;
	long win;		/* bytes the program may still write; -1 inf */
	int wrshut;		/* program shut down writing */
	int rdshut;
	size_t rcap, wcap;	/* per-call limits; 0 = none */
	int bindport, bound;	/* bound source */
	char bindaddr[64];
	int tgt;		/* address-book index connected to */
	long outn;		/* bytes written by program */
	int plainq;		/* plaintext bytes queued by environment */
};
struct vfd { int kind; int nonblock; struct vs * s; int aux; struct bq * rd, * wr; int * rdclosed, * wrclosed; };
static struct vfd F[NVFD];
static int maxfds = NVFD;

struct conn {
	int exists;
	struct vs * A, * T;
	/* plaintext positions */
	long pw;		/* plaintext written by environment on plain side */
	long pd;		/* plaintext delivered by program on plain side */
	long enc;		/* plaintext seen inside the program's packets */
	/* reference peer */
	int kid;		/* peer's key: 0 right, 1 wrong */
	int ponce;		/* peer uses y=1 */
	int have_pn;		/* program's nonce received by peer */
	uint8_t pn[32];		/* program's nonce */
	int have_ln;
	uint8_t ln[32];		/* peer's own nonce (what it believes it sent) */
	uint8_t wn[32];		/* nonce actually put on the wire */
	int wnonce;		/* a whole nonce was put on the wire */
	uint8_t x[32], y[256];
	int have_y, yone;
	uint8_t hd[288];	/* peer's genuine DH message */
	int have_hd;
	uint8_t phd[288];	/* program's DH message */
	int have_phd;
	int keys;		/* session keys known */
	uint8_t eh_c[64], eh_s[64];
	uint64_t nin, nout;	/* next packet number to/from program */
	long pk;		/* plaintext position of next genuine packet */
	struct bq out;		/* program's cipher output */
	size_t outpos;		/* decoded up to here */
	uint8_t (* inpk)[1060];	/* packets generated by the peer */
	int ninpk;
	uint8_t (* outpk)[1060];
	int noutpk;
	char * defq[256];	/* deferred peer commands */
	int ndef;
	int dead;
	int hnsent, hdsent;
};
static struct conn Cn[NCONN];
static int nconn;		/* client connections created */
static int nacc;		/* accepted so far */
static int ctxconn = -1;	/* connection on whose behalf targets are tried */
static struct bq listenq;	/* unused bytes; see lq */
static int lq[NCONN], nlq, lqpos;
static int lisfd = -1;

static int decr, seed = 1;
static int isspipe;
static uint8_t keyK[2][32];
static char srcaddr[128];

/* plaintext streams: deterministic pseudo-random bytes */
static uint8_t
pbyte(int c, int dir, long i)
{
	uint32_t h = (uint32_t)seed * 2654435761u ^ (uint32_t)(c * 2 + dir + 1) * 40503u ^
	    (uint32_t)i * 2246822519u;
	h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16;
	return (uint8_t)h;
}
static uint32_t rngs = 12345;
static uint32_t
rng(void)
{
	rngs ^= rngs << 13; rngs ^= rngs >> 17; rngs ^= rngs << 5;
	return rngs;
}

/* fault injection: nth next call of a kind fails */
struct fault { char call[16]; int n; int err; int used; };
static struct fault flt[32];
static int nflt;
static int
fault(const char * call)
{
	int i;

	step();
	for (i = 0; i < nflt; i++)
		if (!flt[i].used && strcmp(flt[i].call, call) == 0) {
			if (flt[i].n-- == 0) {
				flt[i].used = 1;
				return (flt[i].err);
			}
		}
	return (0);
}

static const char *
ename(int e)
{
	switch (e) {
	case 0: return "0";
	case EAGAIN: return "EAGAIN";
	case EINTR: return "EINTR";
	case ECONNRESET: return "ECONNRESET";
	case ECONNABORTED: return "ECONNABORTED";
	case EPIPE: return "EPIPE";
	case ECONNREFUSED: return "ECONNREFUSED";
	case ETIMEDOUT: return "ETIMEDOUT";
	case EMFILE: return "EMFILE";
	case ENFILE: return "ENFILE";
	case ENOTCONN: return "ENOTCONN";
	case EIO: return "EIO";
	case ENOENT: return "ENOENT";
	case EHOSTUNREACH: return "EHOSTUNREACH";
	case ENETUNREACH: return "ENETUNREACH";
	case EADDRINUSE: return "EADDRINUSE";
	case EADDRNOTAVAIL: return "EADDRNOTAVAIL";
	case EINVAL: return "EINVAL";
	case ENOPROTOOPT: return "ENOPROTOOPT";
	case ENOMEM: return "ENOMEM";
	case EBADF: return "EBADF";
	case ENOTSOCK: return "ENOTSOCK";
	case EACCES: return "EACCES";
	case ENOBUFS: return "ENOBUFS";
	case ENETDOWN: return "ENETDOWN";
	case EPERM: return "EPERM";
	case EAFNOSUPPORT: return "EAFNOSUPPORT";
	case EOPNOTSUPP: return "EOPNOTSUPP";
	case EISCONN: return "EISCONN";
	case ENETRESET: return "ENETRESET";
	default: return "EOTHER";
	}
}
static int
eval(const char * s)
{
	static const int all[] = {EAGAIN, EINTR, ECONNRESET, ECONNABORTED, EPIPE, ECONNREFUSED, ETIMEDOUT, EMFILE, ENFILE, ENOTCONN, EIO, ENOENT, EHOSTUNREACH, ENETUNREACH, EADDRINUSE, EADDRNOTAVAIL, EINVAL, ENOPROTOOPT, ENOMEM, EACCES, ENOBUFS, ENETDOWN, EPERM, EAFNOSUPPORT, EOPNOTSUPP, EISCONN, ENETRESET, 0};
	int i;

	for (i = 0; all[i] != 0; i++)
		if (strcmp(ename(all[i]), s) == 0)
			return (all[i]);
	fprintf(stderr, "simos: unknown errno %s\n", s);
	exit(3);
}

static int
newfd(int kind, int min)
{
	int i;

	for (i = min; i < maxfds; i++)
		if (F[i].kind == K_FREE) {
			memset(&F[i], 0, sizeof(F[i]));
			F[i].kind = kind;
			return (i);
		}
	errno = EMFILE;
	return (-1);
}
static int
bad(const char * call, int fd)
{
	lg("\"e\":\"BadFd\",\"call\":\"%s\",\"fd\":%d", call, fd);
	errno = EBADF;
	return (-1);
}
#define OKFD(fd) ((fd) >= 0 && (fd) < NVFD && F[fd].kind != K_FREE)
static int connof(struct vs * s) { return (s == NULL ? -1 : s->conn); }
static const char *
sname(struct vs * s)
{
	return (s->isplain ? "p" : "c");
}

static size_t
avail(struct vs * s)
{
	size_t a = s->in.len - s->in.off;

	if (s->hold) {
		size_t lim = s->rel > s->in.off ? s->rel - s->in.off : 0;
		if (lim < a)
			a = lim;
	}
	return (a);
}
static int
ateof(struct vs * s)
{
	return ((s->eof || s->rst || s->rdshut) && s->in.off == s->in.len);
}

/* ------------------------------------------------------ threads (baton) */
#define NTH 8
struct th {
	int used, done, started, detached, joined;
	pthread_t real;
	void * (* fn)(void *);
	void * arg, * ret;
	pthread_mutex_t * wmtx;		/* blocked on mutex */
	pthread_cond_t * wcv;		/* blocked on condvar */
	int signalled;
	int wjoin;			/* blocked joining thread, -1 none */
	int (* pred)(void *);		/* generic blocked predicate */
	void * predarg;
};
static struct th TH[NTH];
static int nth = 1, curth = 0;
static pthread_mutex_t bmtx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t bcv = PTHREAD_COND_INITIALIZER;
static int sched_mode;			/* 0: switch only when blocked; 1: random */
static int anyblocked;
struct mtxrec { pthread_mutex_t * m; int owner; int live; };
static struct mtxrec MX[64];
static int nmx;
static struct mtxrec *
mx(pthread_mutex_t * m)
{
	int i;

	for (i = 0; i < nmx; i++)
		if (MX[i].m == m)
			return (&MX[i]);
	if (nmx == 64)
		abort();
	MX[nmx].m = m;
	MX[nmx].owner = -1;
	MX[nmx].live = 1;
	return (&MX[nmx++]);
}
static int
runnable(int i)
{
	struct th * t = &TH[i];

	if (i != 0 && (!t->used || t->done))
		return (0);
	if (t->wcv != NULL)
		return (t->signalled && (t->wmtx == NULL || mx(t->wmtx)->owner == -1));
	if (t->wmtx != NULL)
		return (mx(t->wmtx)->owner == -1);
	if (t->wjoin >= 0)
		return (TH[t->wjoin].done);
	if (t->pred != NULL)
		return (t->pred(t->predarg));
	return (1);
}
static __thread int mytid;
static void
baton_to(int t)
{
	int me = mytid;

	if (t == me)
		return;
	pthread_mutex_lock(&bmtx);
	curth = t;
	pthread_cond_broadcast(&bcv);
	while (curth != me && !TH[me].done)
		pthread_cond_wait(&bcv, &bmtx);
	pthread_mutex_unlock(&bmtx);
}
static int env_progress(int blocking);	/* lets the script act; 0 if it has ended */
/* Pick a runnable thread other than `not' (or -1). */
static int
pick(int not)
{
	int c[NTH], n = 0, i;

	for (i = 0; i < nth; i++)
		if (i != not && runnable(i))
			c[n++] = i;
	if (n == 0)
		return (-1);
	return (sched_mode ? c[rng() % (uint32_t)n] : c[0]);
}
/* The current thread cannot continue until runnable(): switch. */
static void
block_here(void)
{
	int t, me = mytid;

	while (!runnable(me)) {
		if ((t = pick(me)) == -1) {
			/* nobody can run: only the environment can help */
			if (!env_progress(1)) {
				lg("\"e\":\"Deadlock\",\"th\":%d", me);
				_exit(93);
			}
			continue;
		}
		baton_to(t);
	}
}
/* Scheduling point. */
static void
sched_point(void)
{
	int t;

	if (nth == 1 || !sched_mode)
		return;
	if (rng() % 3 == 0)
		return;
	if ((t = pick(-1)) != -1)
		baton_to(t);
}

/* -------------------------------------------------------- peer / attacker */
static void addin(struct vs * s, const void * p, size_t n) { bq_add(&s->in, p, n); }
static struct vs * cipherside(int c) { return (decr ? Cn[c].A : Cn[c].T); }
static struct vs * plainside(int c) { return (decr ? Cn[c].T : Cn[c].A); }

static void
peer_nonce(struct conn * P, int c)
{
	uint8_t b[64];
	int i;

	if (P->have_ln)
		return;
	memset(b, 0, 64);
	snprintf((char *)b, 64, "nonce %d %d", seed, c);
	ref_sha256(b, 64, P->ln);
	P->have_ln = 1;
	for (i = 0; i < 32; i++)
		P->x[i] = (uint8_t)(pbyte(c, 7, i) ^ 0x5a);
}

static void
dbl(struct conn * P, uint8_t mac_c[32], uint8_t mac_s[32])
{
	/* peer is the server iff the program is the client (encrypting) */
	if (decr)
		ref_dk1(keyK[P->kid], P->ln, P->pn, mac_c, mac_s);
	else
		ref_dk1(keyK[P->kid], P->pn, P->ln, mac_c, mac_s);
}

static int
isone(const uint8_t y[256])
{
	int i;

	for (i = 0; i < 255; i++)
		if (y[i])
			return (0);
	return (y[255] == 1);
}

static void
try_keys(struct conn * P)
{
	uint8_t ysc[256], dk2[128];

	if (P->keys || !P->have_y || !P->have_phd || !P->have_pn || !P->have_ln)
		return;
	if (P->have_y == 3)	/* the peer cannot compute these keys */
		return;
	if (P->yone || isone(P->phd)) {
		memset(ysc, 0, 256);
		ysc[255] = 1;
	} else if (P->have_y == 2) {
		memset(ysc, 0, 256);	/* y = 0 */
	} else
		ref_dh_shared(P->phd, P->x, ysc);
	if (decr)
		ref_dk2(keyK[P->kid], P->ln, P->pn, ysc, dk2);
	else
		ref_dk2(keyK[P->kid], P->pn, P->ln, ysc, dk2);
	memcpy(P->eh_c, dk2, 64);
	memcpy(P->eh_s, dk2 + 64, 64);
	P->keys = 1;
}

/* argument parsing helpers: key=value words */
static const char *
arg(char ** w, int n, const char * k)
{
	size_t l = strlen(k);
	int i;

	for (i = 0; i < n; i++)
		if (strncmp(w[i], k, l) == 0 && (w[i][l] == '=' || w[i][l] == 0))
			return (w[i][l] == '=' ? w[i] + l + 1 : "");
	return (NULL);
}
static int
argi(char ** w, int n, const char * k, int d)
{
	const char * s = arg(w, n, k);

	return (s == NULL || *s == 0 ? d : atoi(s));
}

/* Put an item on the wire towards the program and log its symbolic term. */
static void
put_item(int c, const uint8_t * b, size_t n, const char * kind, const char * src,
    int num, int mut, int plen, const char * y, int fits)
{
	struct vs * s = cipherside(c);

	addin(s, b, n);
	lg("\"e\":\"Item\",\"c\":%d,\"k\":\"%s\",\"src\":\"%s\",\"num\":%d,\"mut\":%d,\"plen\":%d,\"n\":%d,\"y\":\"%s\",\"fits\":%d",
	    c, kind, src, num, mut, plen, (int)n, y, fits);
}

static int
mutate(uint8_t * b, size_t * n, char ** w, int nw)
{
	const char * m;
	int mut = 0;
	size_t i;

	if ((m = arg(w, nw, "mut")) != NULL) {
		i = (size_t)atoi(m) % *n;
		b[i] ^= (uint8_t)(1 << (argi(w, nw, "bit", 0) & 7));
		mut = 1;
	}
	if ((m = arg(w, nw, "trunc")) != NULL) {
		i = (size_t)atoi(m);
		if (i < *n) {
			*n = i;
			mut = 1;
		}
	}
	return (mut);
}

static uint8_t *
myeh(struct conn * P, int toprog)
{
	/* keys for direction: client sends with eh_c */
	if (toprog)
		return (decr ? P->eh_c : P->eh_s);
	return (decr ? P->eh_s : P->eh_c);
}

/* Execute a peer command; return 0 if it has to wait. */
static int
peer_cmd(int c, char ** w, int nw)
{
	struct conn * P = &Cn[c];
	struct vs * s = cipherside(c);
	uint8_t b[2048];
	size_t n;
	int mut, i, c2;
	const char * v;

	if (s == NULL || s->connected != 2)
		return (0);
	if (s->eof || s->rst)
		return (1);
	if (strcmp(w[0], "raw") == 0) {
		n = (size_t)argi(w, nw, "n", 1);
		for (i = 0; i < (int)n && i < 2048; i++)
			b[i] = (uint8_t)rng();
		put_item(c, b, n, "raw", "attacker", 0, 1, 0, "-", 0);
		return (1);
	}
	if (strcmp(w[0], "hn") == 0 && P->hnsent) {
		put_item(c, P->ln, 32, "raw", "attacker", 0, 1, 0, "-", 0);
		return (1);
	}
	if (strcmp(w[0], "hd") == 0 && P->hdsent) {
		put_item(c, P->hd, 288, "raw", "attacker", 0, 1, 0, "-", 0);
		return (1);
	}
	if (strcmp(w[0], "hn") == 0) {
		peer_nonce(P, c);
		memcpy(b, P->ln, 32);
		n = 32;
		if (arg(w, nw, "reflect") != NULL) {
			if (!P->have_pn)
				return (0);
			memcpy(b, P->pn, 32);
			memcpy(P->ln, P->pn, 32);
		}
		if ((c2 = argi(w, nw, "replay", -1)) >= 0) {
			memcpy(b, Cn[c2].ln, 32);
			memcpy(P->ln, Cn[c2].ln, 32);
		}
		mut = mutate(b, &n, w, nw);
		memcpy(P->wn, b, 32);
		P->hnsent = 1;
		P->wnonce = (n == 32);
		put_item(c, b, n, "nonce", "peer", 0, mut, 0, "-", n == 32);
		return (1);
	}
	if (strcmp(w[0], "hd") == 0) {
		uint8_t mc[32], ms[32], * mk;
		const char * yk = "fresh";
		const char * src = "peer";
		int kid = P->kid, fits;

		if (!P->have_pn || !P->have_ln)
			return (0);
		/* an orderly server waits for the client's value */
		if (!decr && !P->have_phd && arg(w, nw, "early") == NULL)
			return (0);
		n = 288;
		if (arg(w, nw, "reflect") != NULL) {
			if (!P->have_phd)
				return (0);
			memcpy(b, P->phd, 288);
			src = "self";
		} else if ((c2 = argi(w, nw, "replay", -1)) >= 0) {
			if (!Cn[c2].have_hd)
				return (0);
			memcpy(b, Cn[c2].hd, 288);
			src = "other";
		} else {
			P->have_y = 1;
			P->yone = 0;
			v = arg(w, nw, "y");
			if (v == NULL && P->ponce)
				v = "one";
			if (v == NULL || strcmp(v, "fresh") == 0)
				ref_dh_pub(P->x, P->y);
			else if (strcmp(v, "lzs") == 0) {
				/* server: look for a shared value with a leading zero */
				uint8_t ysc[256];
				int k;

				for (k = 0; k < 4000; k++) {
					P->x[0] = (uint8_t)(k >> 8);
					P->x[1] = (uint8_t)k;
					if (!P->have_phd)
						break;
					ref_dh_shared(P->phd, P->x, ysc);
					if (ysc[0] == 0)
						break;
				}
				ref_dh_pub(P->x, P->y);
			} else if (strcmp(v, "lz") == 0) {
				int k;

				for (k = 0; k < 4000; k++) {
					P->x[0] = (uint8_t)(k >> 8);
					P->x[1] = (uint8_t)k;
					ref_dh_pub(P->x, P->y);
					if (P->y[0] == 0)
						break;
				}
			} else {
				memset(P->y, 0, 256);
				yk = v;
				if (strcmp(v, "one") == 0) {
					P->y[255] = 1;
					P->yone = 1;
				} else if (strcmp(v, "zero") == 0)
					P->have_y = 2;
				else if (strcmp(v, "two") == 0) {
					P->y[255] = 2;
					memset(P->x, 0, 32);
					P->x[31] = 1;
					yk = "fresh";
				} else if (strcmp(v, "p") == 0)
					memcpy(P->y, ref_p, 256);
				else if (strcmp(v, "pp1") == 0) {
					memcpy(P->y, ref_p, 256);
					for (i = 255; i >= 0; i--)
						if (++P->y[i])
							break;
				} else if (strcmp(v, "max") == 0)
					memset(P->y, 0xff, 256);
				else if (strcmp(v, "pm1") == 0) {
					memcpy(P->y, ref_p, 256);
					P->y[255]--;
					P->have_y = 3;
				}
			}
			if ((v = arg(w, nw, "key")) != NULL && strcmp(v, "wrong") == 0)
				kid = 1 - P->kid;
			i = P->kid;
			P->kid = kid;
			dbl(P, mc, ms);
			P->kid = i;
			/* the peer plays the opposite role unless told otherwise */
			mk = (decr != 0) ^ (arg(w, nw, "samerole") != NULL) ? mc : ms;
			memcpy(b, P->y, 256);
			ref_hmac(mk, 32, P->y, 256, b + 256);
			memcpy(P->hd, b, 288);
			P->have_hd = 1;
			if (arg(w, nw, "samerole") != NULL)
				src = "samerole";
			if (kid != 0)
				src = "wrongkey";
		}
		mut = mutate(b, &n, w, nw);
		P->hdsent = 1;
		fits = P->wnonce && memcmp(P->ln, P->wn, 32) == 0;
		put_item(c, b, n, "dh", src, 0, mut, 0, yk, fits);
		try_keys(P);
		return (1);
	}
	if (strcmp(w[0], "pk") == 0) {
		int len = argi(w, nw, "n", 1), num, k;
		uint32_t lf;
		uint8_t m[1024];
		const char * src = "peer";

		try_keys(P);
		if (!P->keys)
			return (0);
		if ((k = argi(w, nw, "replay", -1)) >= 0) {
			if (k >= P->ninpk)
				return (0);
			memcpy(b, P->inpk[k], 1060);
			n = 1060;
			mut = mutate(b, &n, w, nw);
			put_item(c, b, n, "pkt", "peer", k, mut, 0, "-", 1);
			return (1);
		}
		if ((k = argi(w, nw, "reflect", -1)) >= 0) {
			if (k >= P->noutpk)
				return (0);
			memcpy(b, P->outpk[k], 1060);
			n = 1060;
			mut = mutate(b, &n, w, nw);
			put_item(c, b, n, "pkt", "self", k, mut, 0, "-", 1);
			return (1);
		}
		if ((c2 = argi(w, nw, "xconn", -1)) >= 0) {
			k = argi(w, nw, "i", 0);
			if (k >= Cn[c2].ninpk)
				return (0);
			memcpy(b, Cn[c2].inpk[k], 1060);
			n = 1060;
			put_item(c, b, n, "pkt", "other", k, 0, 0, "-", 1);
			return (1);
		}
		if (len > 1024)
			len = 1024;
		for (i = 0; i < len; i++)
			m[i] = pbyte(c, 1, P->pk + i);
		lf = (uint32_t)len;
		if ((v = arg(w, nw, "lf")) != NULL) {
			lf = (uint32_t)strtoul(v, NULL, 0);
		}
		num = argi(w, nw, "num", (int)P->nin);
		ref_pkt(arg(w, nw, "wrongdir") != NULL ? myeh(P, 0) : myeh(P, 1),
		    (uint64_t)num, m, (size_t)len, lf, b);
		if (arg(w, nw, "wrongdir") != NULL)
			src = "wrongdir";
		n = 1060;
		if (num == (int)P->nin) {
			P->inpk = realloc(P->inpk, (size_t)(P->ninpk + 1) * 1060);
			memcpy(P->inpk[P->ninpk++], b, 1060);
			P->nin++;
			P->pk += len;
		}
		if (arg(w, nw, "drop") != NULL)
			return (1);
		mut = mutate(b, &n, w, nw);
		put_item(c, b, n, "pkt", src, num, mut,
		    lf > 100000 ? 100000 : (int)lf, "-", 1);
		return (1);
	}
	fprintf(stderr, "simos: unknown peer command %s\n", w[0]);
	exit(3);
}

static char *
joinw(char ** w, int n)
{
	static char o[512];
	int i;

	o[0] = 0;
	for (i = 0; i < n; i++) {
		strcat(o, w[i]);
		strcat(o, " ");
	}
	return (strdup(o));
}
static int
splitw(char * s, char ** w, int max)
{
	int n = 0;
	char * p, * sv = NULL;

	for (p = strtok_r(s, " ", &sv); p != NULL && n < max; p = strtok_r(NULL, " ", &sv))
		w[n++] = p;
	return (n);
}
static void
run_deferred(int c)
{
	struct conn * P = &Cn[c];
	char * w[16], tmp[512];
	int nw;

	while (P->ndef > 0) {
		snprintf(tmp, sizeof(tmp), "%s", P->defq[0]);
		nw = splitw(tmp, w, 16);
		if (!peer_cmd(c, w, nw))
			break;
		free(P->defq[0]);
		memmove(P->defq, P->defq + 1, sizeof(char *) * (size_t)(P->ndef - 1));
		P->ndef--;
	}
}

/* nonces and DH values seen from the program, for freshness */
static uint8_t seen_n[256][32];
static int nseen_n;
static uint8_t seen_y[256][256];
static int nseen_y;

/* The program has written bytes on the cipher side: decode what is complete. */
static void
decode_out(int c)
{
	struct conn * P = &Cn[c];
	int i, r, fresh;
	size_t have;

	for (;;) {
		have = P->out.len - P->outpos;
		if (!P->have_pn) {
			if (have < 32)
				break;
			memcpy(P->pn, P->out.b, 32);
			P->outpos += 32;
			P->have_pn = 1;
			fresh = 1;
			for (i = 0; i < nseen_n; i++)
				if (memcmp(seen_n[i], P->pn, 32) == 0)
					fresh = 0;
			for (i = 0, r = 0; i < 32; i++)
				r |= P->pn[i];
			if (r == 0)
				fresh = 0;
			if (nseen_n < 256)
				memcpy(seen_n[nseen_n++], P->pn, 32);
			lg("\"e\":\"ONonce\",\"c\":%d,\"fresh\":%d", c, fresh);
			run_deferred(c);
		} else if (!P->have_phd) {
			uint8_t mc[32], ms[32], h[32];
			const char * mac, * y;

			if (have < 288)
				break;
			memcpy(P->phd, P->out.b + P->outpos, 288);
			P->outpos += 288;
			P->have_phd = 1;
			mac = "nopeer";
			if (P->wnonce) {
				/* what the protocol prescribes, with the right key */
				if (decr)
					ref_dk1(keyK[0], P->wn, P->pn, mc, ms);
				else
					ref_dk1(keyK[0], P->pn, P->wn, mc, ms);
				ref_hmac(decr ? ms : mc, 32, P->phd, 256, h);
				mac = memcmp(h, P->phd + 256, 32) ? "bad" : "good";
			}
			y = "fresh";
			if (isone(P->phd))
				y = "one";
			else if (memcmp(P->phd, ref_p, 256) >= 0)
				y = "big";
			else {
				for (i = 0, r = 0; i < 255; i++)
					r |= P->phd[i];
				if (r == 0)
					y = "weak";
				for (i = 0; i < nseen_y; i++)
					if (memcmp(seen_y[i], P->phd, 256) == 0)
						y = "dup";
				if (nseen_y < 256)
					memcpy(seen_y[nseen_y++], P->phd, 256);
			}
			lg("\"e\":\"ODh\",\"c\":%d,\"y\":\"%s\",\"mac\":\"%s\"", c, y, mac);
			run_deferred(c);
		} else {
			uint8_t m[1024];
			int len, match = 1;

			if (have < 1060)
				break;
			try_keys(P);
			P->outpk = realloc(P->outpk, (size_t)(P->noutpk + 1) * 1060);
			memcpy(P->outpk[P->noutpk++], P->out.b + P->outpos, 1060);
			len = P->keys ? ref_unpkt(myeh(P, 0), P->nout, P->out.b + P->outpos, m) : -9;
			P->outpos += 1060;
			if (len > 0) {
				for (i = 0; i < len; i++)
					if (m[i] != pbyte(c, 0, P->enc + i))
						match = 0;
			}
			lg("\"e\":\"OPkt\",\"c\":%d,\"num\":%d,\"len\":%d,\"lo\":%ld", c,
			    len > 0 ? (int)P->nout : -1, len, match ? P->enc : -1);
			if (len > 0) {
				P->enc += len;
				P->nout++;
			}
			run_deferred(c);
		}
	}
}

/* --------------------------------------------------------------- sockets */
static struct vs *
newvs(int c, int side)
{
	struct vs * s = calloc(1, sizeof(*s));

	s->used = 1;
	s->conn = c;
	s->side = side;
	s->fd = -1;
	s->win = -1;
	s->isplain = (side == S_A) ? !decr : (decr != 0);
	s->tgt = -1;
	return (s);
}

static short
readiness(int fd)
{
	struct vfd * f = &F[fd];
	struct vs * s = f->s;
	short r = 0;

	switch (f->kind) {
	case K_LISTEN:
		if (lqpos < nlq)
			r |= POLLIN;
		break;
	case K_SOCK:
		if (s->connected == 0)
			return (POLLOUT | POLLHUP);
		if (s->connected == 1)
			return (0);
		if (s->connected == 3)
			return (POLLIN | POLLOUT | POLLERR | POLLHUP);
		if (avail(s) > 0 || ateof(s))
			r |= POLLIN;
		if (s->win != 0 || s->rst || s->wrshut)
			r |= POLLOUT;
		if (s->rst)
			r |= POLLIN | POLLOUT | POLLHUP | (s->rstseen ? 0 : POLLERR);
		if (s->eof && s->wrshut && avail(s) == s->in.len - s->in.off)
			r |= POLLHUP;
		break;
	case K_PAIR:
		if (f->rd->len > f->rd->off)
			r |= POLLIN;
		if (*f->rdclosed)
			r |= POLLIN | POLLHUP;
		r |= POLLOUT;
		if (*f->wrclosed)
			r |= POLLERR;
		break;
	default:
		r = POLLIN | POLLOUT;
	}
	return (r);
}

int
sim_socket(int dom, int type, int proto)
{
	int e, fd;

	(void)proto;
	if ((e = fault("socket")) != 0) {
		lg("\"e\":\"SocketFail\",\"c\":%d,\"err\":\"%s\"", ctxconn, ename(e));
		errno = e;
		return (-1);
	}
	if ((fd = newfd(K_SOCK, 3)) == -1) {
		lg("\"e\":\"SocketFail\",\"c\":%d,\"err\":\"%s\"", ctxconn, ename(EMFILE));
		errno = EMFILE;
		return (-1);
	}
	F[fd].s = newvs(-1, S_T);
	F[fd].s->fd = fd;
	F[fd].s->family = dom;
	if (type & SOCK_NONBLOCK)
		F[fd].nonblock = 1;
	return (fd);
}

static const char *
addrstr(const struct sockaddr * sa, socklen_t len)
{
	static char o[4][200];
	static int k;
	char a[100];
	char * s = o[k = (k + 1) & 3];

	if (sa->sa_family == AF_INET && len >= sizeof(struct sockaddr_in)) {
		const struct sockaddr_in * i4 = (const void *)sa;
		inet_ntop(AF_INET, &i4->sin_addr, a, sizeof(a));
		snprintf(s, 200, "[%s]:%d", a, ntohs(i4->sin_port));
	} else if (sa->sa_family == AF_INET6 && len >= sizeof(struct sockaddr_in6)) {
		const struct sockaddr_in6 * i6 = (const void *)sa;
		inet_ntop(AF_INET6, &i6->sin6_addr, a, sizeof(a));
		snprintf(s, 200, "[%s]:%d", a, ntohs(i6->sin6_port));
	} else if (sa->sa_family == AF_UNIX) {
		snprintf(s, 200, "%s", ((const struct sockaddr_un *)(const void *)sa)->sun_path);
	} else
		snprintf(s, 200, "?%d", sa->sa_family);
	return (s);
}

int
sim_bind(int fd, const struct sockaddr * sa, socklen_t len)
{
	int e;

	if (!OKFD(fd) || F[fd].kind != K_SOCK)
		return (bad("bind", fd));
	e = fault("bind");
	lg("\"e\":\"Bind\",\"fd\":%d,\"c\":%d,\"addr\":\"%s\",\"err\":\"%s\"", fd,
	    lisfd >= 0 || isspipe ? ctxconn : -1, addrstr(sa, len), ename(e));
	if (e) {
		errno = e;
		return (-1);
	}
	F[fd].s->bound = 1;
	snprintf(F[fd].s->bindaddr, sizeof(F[fd].s->bindaddr), "%s", addrstr(sa, len));
	return (0);
}
int
sim_listen(int fd, int bl)
{
	int e;

	if (!OKFD(fd) || F[fd].kind != K_SOCK)
		return (bad("listen", fd));
	e = fault("listen");
	lg("\"e\":\"Listen\",\"fd\":%d,\"addr\":\"%s\",\"bl\":%d,\"err\":\"%s\"", fd, F[fd].s->bindaddr, bl > 0, ename(e));
	if (e) {
		errno = e;
		return (-1);
	}
	free(F[fd].s);
	F[fd].s = NULL;
	F[fd].kind = K_LISTEN;
	lisfd = fd;
	return (0);
}

/* what the next connect() calls do */
static char cmode[64][24];
static int ncmode, cmodepos;
static char cmode_default[24] = "pend";

static void
connect_done(struct vs * s)
{
	s->connected = 2;
	if (s->conn >= 0)
		run_deferred(s->conn);
}

int
sim_connect(int fd, const struct sockaddr * sa, socklen_t len)
{
	struct vs * s;
	const char * m;
	int c, e;

	if (!OKFD(fd) || F[fd].kind != K_SOCK)
		return (bad("connect", fd));
	step();
	s = F[fd].s;
	c = ctxconn;
	s->conn = c;
	s->isplain = decr ? 1 : 0;
	if (c >= 0)
		Cn[c].T = s;
	m = cmodepos < ncmode ? cmode[cmodepos++] : cmode_default;
	if (!F[fd].nonblock) {
		lg("\"e\":\"Hang\",\"call\":\"connect\",\"c\":%d", c);
		_exit(94);
	}
	lg("\"e\":\"Connect\",\"c\":%d,\"fd\":%d,\"addr\":\"%s\",\"bind\":\"%s\",\"res\":\"%s\"",
	    c, fd, addrstr(sa, len), s->bound ? s->bindaddr : "-",
	    strcmp(m, "imm") == 0 ? "ok" : strcmp(m, "pend") == 0 || strcmp(m, "auto") == 0 || strcmp(m, "EINTR") == 0 ||
	    strncmp(m, "late", 4) == 0 ? "pend" : "fail");
	if (strcmp(m, "imm") == 0) {
		connect_done(s);
		return (0);
	}
	if (strcmp(m, "pend") == 0 || strcmp(m, "EINTR") == 0) {
		s->connected = 1;
		errno = strcmp(m, "EINTR") == 0 ? EINTR : EINPROGRESS;
		return (-1);
	}
	if (strcmp(m, "auto") == 0) {
		connect_done(s);
		lg("\"e\":\"EConn\",\"c\":%d,\"ok\":1", c);
		errno = EINPROGRESS;
		return (-1);
	}
	if (strncmp(m, "late", 4) == 0) {	/* lateERR: fails asynchronously at once */
		s->connected = 3;
		s->cerr = eval(m + 4);
		lg("\"e\":\"EConn\",\"c\":%d,\"ok\":0", c);
		errno = EINPROGRESS;
		return (-1);
	}
	e = eval(m);
	errno = e;
	return (-1);
}

static int
do_accept(int fd, int flags)
{
	int e, nfd, c;

	if (!OKFD(fd) || F[fd].kind != K_LISTEN)
		return (bad("accept", fd));
	if ((e = fault("accept")) != 0) {
		lg("\"e\":\"AcceptFail\",\"err\":\"%s\"", ename(e));
		errno = e;
		return (-1);
	}
	if (lqpos >= nlq) {
		if (!F[fd].nonblock) {
			lg("\"e\":\"Hang\",\"call\":\"accept\",\"c\":-1");
			_exit(94);
		}
		errno = EAGAIN;
		return (-1);
	}
	if ((nfd = newfd(K_SOCK, 3)) == -1) {
		lg("\"e\":\"AcceptFail\",\"err\":\"EMFILE\"");
		errno = EMFILE;
		return (-1);
	}
	c = lq[lqpos++];
	F[nfd].s = Cn[c].A;
	F[nfd].s->fd = nfd;
	F[nfd].nonblock = (flags & SOCK_NONBLOCK) != 0;
	nacc++;
	ctxconn = c;
	lg("\"e\":\"Accept\",\"c\":%d,\"fd\":%d", c, nfd);
	return (nfd);
}
int sim_accept(int fd, struct sockaddr * a, socklen_t * l) { (void)a; if (l) *l = 0; return (do_accept(fd, 0)); }
int sim_accept4(int fd, struct sockaddr * a, socklen_t * l, int fl) { (void)a; if (l) *l = 0; return (do_accept(fd, fl)); }

static ssize_t
sock_recv(int fd, void * buf, size_t n, int flags)
{
	struct vs * s = F[fd].s;
	size_t a;
	int e;

	if (s->connected != 2) {
		errno = ENOTCONN;
		return (-1);
	}
	if ((e = fault("recv")) != 0) {
		if (e != EAGAIN && e != EINTR)
			lg("\"e\":\"RecvErr\",\"c\":%d,\"s\":\"%s\",\"err\":\"%s\"", s->conn, sname(s), ename(e));
		errno = e;
		return (-1);
	}
	a = avail(s);
	if (a == 0) {
		if (s->rst && s->in.off == s->in.len && !s->rstseen) {
			s->rstseen = 1;
			lg("\"e\":\"RecvErr\",\"c\":%d,\"s\":\"%s\",\"err\":\"ECONNRESET\"", s->conn, sname(s));
			errno = ECONNRESET;
			return (-1);
		}
		if (ateof(s)) {
			if (n > 0) {
				s->eofseen = 1;
				lg("\"e\":\"RecvEof\",\"c\":%d,\"s\":\"%s\"", s->conn, sname(s));
			}
			return (0);
		}
		if (!F[fd].nonblock && !(flags & MSG_DONTWAIT) && s->in.off == s->in.len) {
			lg("\"e\":\"Hang\",\"call\":\"recv\",\"c\":%d", s->conn);
			_exit(94);
		}
		errno = EAGAIN;
		return (-1);
	}
	if (a > n)
		a = n;
	if (s->rcap && a > s->rcap)
		a = s->rcap;
	memcpy(buf, s->in.b + s->in.off, a);
	if (!(flags & MSG_PEEK)) {
		s->in.off += a;
		lg("\"e\":\"Recv\",\"c\":%d,\"s\":\"%s\",\"n\":%d", s->conn, sname(s), (int)a);
	}
	return ((ssize_t)a);
}

static void (* sighandler[65])(int);
static int sigoneshot[65];

static ssize_t
sock_send(int fd, const void * buf, size_t n, int flags)
{
	struct vs * s = F[fd].s;
	size_t a = n, i;
	int e, c = s->conn;

	if (s->connected != 2) {
		errno = ENOTCONN;
		return (-1);
	}
	if ((e = fault("send")) != 0) {
		if (e != EAGAIN && e != EINTR)
			lg("\"e\":\"SendErr\",\"c\":%d,\"s\":\"%s\",\"err\":\"%s\"", c, sname(s), ename(e));
		errno = e;
		return (-1);
	}
	if (s->rst || s->wrshut) {
		if (s->rst && !s->rstseen) {
			s->rstseen = 1;
			e = ECONNRESET;
		} else {
			e = EPIPE;
			if (!(flags & MSG_NOSIGNAL) && sighandler[SIGPIPE] != SIG_IGN) {
				lg("\"e\":\"Killed\",\"sig\":\"PIPE\"");
				_exit(95);
			}
		}
		lg("\"e\":\"SendErr\",\"c\":%d,\"s\":\"%s\",\"err\":\"%s\"", c, sname(s), ename(e));
		errno = e;
		return (-1);
	}
	if (s->win >= 0 && a > (size_t)s->win)
		a = (size_t)s->win;
	if (s->wcap && a > s->wcap)
		a = s->wcap;
	if (a == 0 && n > 0) {
		if (!F[fd].nonblock && !(flags & MSG_DONTWAIT)) {
			lg("\"e\":\"Hang\",\"call\":\"send\",\"c\":%d", c);
			_exit(94);
		}
		errno = EAGAIN;
		return (-1);
	}
	if (s->win >= 0)
		s->win -= (long)a;
	s->outn += (long)a;
	if (c < 0)
		return ((ssize_t)a);
	if (s->isplain) {
		int match = 1;
		const uint8_t * p = buf;

		for (i = 0; i < a; i++)
			if (p[i] != pbyte(c, 1, Cn[c].pd + (long)i))
				match = 0;
		lg("\"e\":\"Send\",\"c\":%d,\"s\":\"p\",\"n\":%d,\"lo\":%ld", c, (int)a,
		    match ? Cn[c].pd : -1);
		Cn[c].pd += (long)a;
	} else {
		lg("\"e\":\"Send\",\"c\":%d,\"s\":\"c\",\"n\":%d,\"lo\":0", c, (int)a);
		bq_add(&Cn[c].out, buf, a);
		decode_out(c);
	}
	return ((ssize_t)a);
}

/* socketpair data */
struct pair { struct bq q[2]; int closed[2]; };
int
sim_socketpair(int dom, int type, int proto, int sv[2])
{
	struct pair * p;
	int e, a, b;

	(void)dom; (void)proto; (void)type;
	if ((e = fault("socketpair")) != 0) {
		errno = e;
		return (-1);
	}
	if ((a = newfd(K_PAIR, 3)) == -1)
		return (-1);
	if ((b = newfd(K_PAIR, 3)) == -1) {
		F[a].kind = K_FREE;
		return (-1);
	}
	p = calloc(1, sizeof(*p));
	F[a].rd = F[b].wr = &p->q[0];
	F[b].rd = F[a].wr = &p->q[1];
	F[a].rdclosed = &p->closed[1];	/* other end closed */
	F[a].wrclosed = &p->closed[1];
	F[b].rdclosed = &p->closed[0];
	F[b].wrclosed = &p->closed[0];
	F[a].aux = 0;
	F[b].aux = 1;
	sv[0] = a;
	sv[1] = b;
	return (0);
}
int
sim_pipe(int fd[2])
{
	return (sim_socketpair(AF_UNIX, SOCK_STREAM, 0, fd));
}

static uint64_t rndctr;
static int rndfail;	/* mode of /dev/urandom: 0 ok, else fault handled */
static int shortrnd;

static int
pair_readable(void * a)
{
	struct vfd * f = a;

	return (f->kind != K_PAIR || f->rd->len > f->rd->off || *f->rdclosed);
}

/* stdin/stdout of spipe */
static struct bq std_in;
static int std_ineof, std_inerr;
static size_t std_incap, std_outcap;
static long std_outwin = -1, std_outn;
static int std_outerr, std_outclosed;
static long std_pw;
static int stdin_ready(void * a) { (void)a; return (std_in.len > std_in.off || std_ineof || std_inerr); }
static int stdout_ready(void * a) { (void)a; return (std_outwin != 0 || std_outerr); }
static void
block_on(int (* pred)(void *), void * a)
{
	TH[mytid].pred = pred;
	TH[mytid].predarg = a;
	block_here();
	TH[mytid].pred = NULL;
}
#ifdef SPIPE
#include "simspipe.h"
#endif

static ssize_t
do_read(int fd, void * buf, size_t n, int flags)
{
	size_t a, i;
	int e;

	step();
	if (!OKFD(fd))
		return (bad("read", fd));
	switch (F[fd].kind) {
	case K_SOCK:
		return (sock_recv(fd, buf, n, flags));
	case K_RANDOM:
		if ((e = fault("rndread")) != 0) {
			lg("\"e\":\"RndRead\",\"n\":-1");
			if (e == ENOENT)	/* stands for EOF */
				return (0);
			errno = e;
			return (-1);
		}
		a = n;
		if (shortrnd && a > (size_t)shortrnd)
			a = (size_t)shortrnd;
		for (i = 0; i < a; i++) {
			rndctr++;
			((uint8_t *)buf)[i] = pbyte(99, 3, (long)rndctr);
		}
		lg("\"e\":\"RndRead\",\"n\":%d", (int)a);
		return ((ssize_t)a);
	case K_PAIR:
		sched_point();
		if (F[fd].rd->len == F[fd].rd->off && !*F[fd].rdclosed) {
			if (F[fd].nonblock || (flags & MSG_DONTWAIT)) {
				errno = EAGAIN;
				return (-1);
			}
			block_on(pair_readable, &F[fd]);
		}
		a = F[fd].rd->len - F[fd].rd->off;
		if (a > n)
			a = n;
		memcpy(buf, F[fd].rd->b + F[fd].rd->off, a);
		F[fd].rd->off += a;
		return ((ssize_t)a);
#ifdef SPIPE
	case K_STDIN:
		return (spipe_stdin_read(buf, n));
#endif
	default:
		return (0);
	}
}
static ssize_t
do_write(int fd, const void * buf, size_t n, int flags)
{
	step();
	if (!OKFD(fd))
		return (bad("write", fd));
	switch (F[fd].kind) {
	case K_SOCK:
		return (sock_send(fd, buf, n, flags));
	case K_PAIR:
		sched_point();
		if (*F[fd].wrclosed) {
			errno = EPIPE;
			return (-1);
		}
		bq_add(F[fd].wr, buf, n);
		return ((ssize_t)n);
	case K_STDERR:
		return ((ssize_t)n);
#ifdef SPIPE
	case K_STDOUT:
		return (spipe_stdout_write(buf, n));
#endif
	default:
		return ((ssize_t)n);
	}
}

ssize_t sim_recv(int fd, void * b, size_t n, int fl) { return (do_read(fd, b, n, fl)); }
ssize_t sim_recvfrom(int fd, void * b, size_t n, int fl, struct sockaddr * a, socklen_t * l) { (void)a; (void)l; return (do_read(fd, b, n, fl)); }
ssize_t sim_read(int fd, void * b, size_t n) { return (do_read(fd, b, n, 0)); }
ssize_t sim_send(int fd, const void * b, size_t n, int fl) { return (do_write(fd, b, n, fl)); }
ssize_t sim_sendto(int fd, const void * b, size_t n, int fl, const struct sockaddr * a, socklen_t l) { (void)a; (void)l; return (do_write(fd, b, n, fl)); }
ssize_t sim_write(int fd, const void * b, size_t n) { return (do_write(fd, b, n, 0)); }
static ssize_t
iov_read(int fd, const struct iovec * v, int nv, int fl)
{
	ssize_t t = 0, r;
	int i;

	for (i = 0; i < nv; i++) {
		r = do_read(fd, v[i].iov_base, v[i].iov_len, fl);
		if (r < 0)
			return (t > 0 ? t : -1);
		t += r;
		if ((size_t)r < v[i].iov_len)
			break;
	}
	return (t);
}
static ssize_t
iov_write(int fd, const struct iovec * v, int nv, int fl)
{
	ssize_t t = 0, r;
	int i;

	for (i = 0; i < nv; i++) {
		r = do_write(fd, v[i].iov_base, v[i].iov_len, fl);
		if (r < 0)
			return (t > 0 ? t : -1);
		t += r;
		if ((size_t)r < v[i].iov_len)
			break;
	}
	return (t);
}
ssize_t sim_readv(int fd, const struct iovec * v, int n) { return (iov_read(fd, v, n, 0)); }
ssize_t sim_writev(int fd, const struct iovec * v, int n) { return (iov_write(fd, v, n, 0)); }
ssize_t sim_recvmsg(int fd, struct msghdr * m, int fl) { m->msg_flags = 0; m->msg_controllen = 0; return (iov_read(fd, m->msg_iov, (int)m->msg_iovlen, fl)); }
ssize_t sim_sendmsg(int fd, const struct msghdr * m, int fl) { return (iov_write(fd, m->msg_iov, (int)m->msg_iovlen, fl)); }

int
sim_shutdown(int fd, int how)
{
	struct vs * s;
	int e;

	step();
	if (!OKFD(fd))
		return (bad("shutdown", fd));
	if (F[fd].kind == K_PAIR) {
		if (how != SHUT_RD)
			*F[fd].wrclosed = *F[fd].wrclosed;
		return (0);
	}
	if (F[fd].kind != K_SOCK) {
		errno = ENOTSOCK;
		return (-1);
	}
	s = F[fd].s;
	e = fault("shutdown");
	if (e == 0 && (s->connected != 2 || s->rst))
		e = ENOTCONN;
	lg("\"e\":\"Shut\",\"c\":%d,\"s\":\"%s\",\"how\":\"%s\",\"err\":\"%s\"", s->conn, sname(s),
	    how == SHUT_WR ? "w" : how == SHUT_RD ? "r" : "rw", ename(e));
	if (e) {
		errno = e;
		return (-1);
	}
	if (how == SHUT_WR || how == SHUT_RDWR)
		s->wrshut = 1;
	if (how == SHUT_RD || how == SHUT_RDWR)
		s->rdshut = 1;
	return (0);
}

int
sim_close(int fd)
{
	struct vs * s;
	int e;

	step();
	if (!OKFD(fd))
		return (bad("close", fd));
	e = F[fd].kind == K_SOCK ? fault("close") : 0;
	s = F[fd].s;
	switch (F[fd].kind) {
	case K_LISTEN:
		lg("\"e\":\"Close\",\"c\":-1,\"s\":\"l\",\"fd\":%d", fd);
		lisfd = -1;
		break;
	case K_SOCK:
		lg("\"e\":\"Close\",\"c\":%d,\"s\":\"%s\",\"fd\":%d", s->conn,
		    s->connected == 2 || s->side == S_A ? sname(s) : "t", fd);
		if (s->conn >= 0 && s->side == S_T) {
			Cn[s->conn].T = NULL;
			ctxconn = s->conn;
		} else if (s->conn >= 0)
			Cn[s->conn].A = NULL;
		break;
	case K_PAIR:
		sched_point();
		/* closing end aux tells the other side */
		if (F[fd].aux == 0)
			*(F[fd].rdclosed - 1) = 1;
		else
			*(F[fd].rdclosed + 1) = 1;
		break;
	case K_RANDOM:
		break;
	default:
		lg("\"e\":\"Close\",\"c\":-1,\"s\":\"o\",\"fd\":%d", fd);
	}
	memset(&F[fd], 0, sizeof(F[fd]));
	if (e) {
		errno = e;
		return (-1);
	}
	return (0);
}

int
sim_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long a;
	int e;

	va_start(ap, cmd);
	a = va_arg(ap, long);
	va_end(ap);
	if (!OKFD(fd))
		return (bad("fcntl", fd));
	if (cmd == F_GETFL)
		return (F[fd].nonblock ? O_NONBLOCK | O_RDWR : O_RDWR);
	if (cmd == F_SETFL) {
		if ((e = fault("fcntl")) != 0) {
			lg("\"e\":\"FcntlFail\",\"c\":%d,\"fd\":%d", F[fd].s == NULL ? -1 : F[fd].s->conn >= 0 ? F[fd].s->conn : ctxconn, fd);
			errno = e;
			return (-1);
		}
		F[fd].nonblock = ((int)a & O_NONBLOCK) != 0;
	}
	return (0);
}

int
sim_getsockopt(int fd, int lev, int name, void * v, socklen_t * l)
{
	struct vs * s;
	int e;

	step();
	if (!OKFD(fd))
		return (bad("getsockopt", fd));
	s = F[fd].s;
	if (lev == SOL_SOCKET && name == SO_ERROR && F[fd].kind == K_SOCK) {
		if ((e = fault("getsockopt")) != 0) {
			errno = e;
			return (-1);
		}
		e = s->connected == 3 ? s->cerr : s->connected == 1 ? 0 : 0;
		lg("\"e\":\"SoErr\",\"c\":%d,\"s\":\"%s\",\"st\":%d,\"err\":\"%s\"", s->conn, sname(s), s->connected, ename(e));
		if (s->connected == 3)
			s->cerr = 0;
		ctxconn = s->conn;
		*(int *)v = e;
		*l = sizeof(int);
		return (0);
	}
	memset(v, 0, *l);
	return (0);
}
int
sim_setsockopt(int fd, int lev, int name, const void * v, socklen_t l)
{
	struct vs * s;
	int e, val = -1;
	const char * nm = "other";

	step();
	if (!OKFD(fd))
		return (bad("setsockopt", fd));
	s = F[fd].s;
	if (l >= sizeof(int))
		val = *(const int *)v;
	if (lev == SOL_SOCKET && name == SO_KEEPALIVE)
		nm = "keepalive";
	else if (lev == IPPROTO_TCP && name == TCP_NODELAY)
		nm = "nodelay";
	else if (lev == SOL_SOCKET && name == SO_REUSEADDR)
		nm = "reuseaddr";
	e = fault(nm);
	if (strcmp(nm, "reuseaddr") == 0 && e == 0)
		return (0);
	if (s != NULL && s->family == AF_UNIX && strcmp(nm, "nodelay") == 0)
		e = ENOPROTOOPT;
	lg("\"e\":\"SockOpt\",\"c\":%d,\"s\":\"%s\",\"o\":\"%s\",\"v\":%d,\"err\":\"%s\"", connof(s),
	    s == NULL ? "l" : sname(s), nm, val, ename(e));
	if (e) {
		errno = e;
		return (-1);
	}
	return (0);
}
int
sim_getsockname(int fd, struct sockaddr * a, socklen_t * l)
{
	(void)fd;
	memset(a, 0, *l);
	return (0);
}
int sim_getpeername(int fd, struct sockaddr * a, socklen_t * l) { return (sim_getsockname(fd, a, l)); }

/* ------------------------------------------------------------------ files */
int
sim_open(const char * path, int flags, ...)
{
	int e, fd;

	(void)flags;
	step();
	if (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0) {
		if ((e = fault("rndopen")) != 0) {
			lg("\"e\":\"RndOpen\",\"ok\":0");
			errno = e;
			return (-1);
		}
		if ((fd = newfd(K_RANDOM, 3)) == -1) {
			lg("\"e\":\"RndOpen\",\"ok\":0");
			return (-1);
		}
		lg("\"e\":\"RndOpen\",\"ok\":1");
		return (fd);
	}
	lg("\"e\":\"Open\",\"path\":\"%s\"", path);
	errno = ENOENT;
	return (-1);
}
int
sim_dup2(int a, int b)
{
	lg("\"e\":\"Dup2\",\"a\":%d,\"b\":%d", a, b);
	return (b);
}

/* ------------------------------------------------------------------- time */
int
sim_clock_gettime(clockid_t id, struct timespec * ts)
{
	(void)id;
	step();
	ts->tv_sec = vnow / 1000000;
	ts->tv_nsec = (vnow % 1000000) * 1000;
	return (0);
}
int sim_clock_getres(clockid_t id, struct timespec * ts) { (void)id; ts->tv_sec = 0; ts->tv_nsec = 1; return (0); }
int
sim_gettimeofday(struct timeval * tv, void * tz)
{
	(void)tz;
	step();
	tv->tv_sec = vnow / 1000000;
	tv->tv_usec = vnow % 1000000;
	return (0);
}
time_t sim_time(time_t * t) { time_t v = (time_t)(vnow / 1000000); if (t) *t = v; return (v); }
unsigned int
sim_sleep(unsigned int s)
{
	lg("\"e\":\"Sleep\",\"s\":%u", s);
	step();
	vnow += (int64_t)s * 1000000;
	if (s > 0 && (vnow - T0) > 100000LL * 1000000)
		sim_finish("Sleep", 0);
	return (0);
}
int sim_nanosleep(const struct timespec * a, struct timespec * b) { (void)b; step(); vnow += a->tv_sec * 1000000 + a->tv_nsec / 1000; return (0); }
int sim_usleep(useconds_t u) { step(); vnow += u; return (0); }

/* ---------------------------------------------------------------- signals */
typedef void (* sigh)(int);
static sigh
set_sig(int sig, sigh h, int oneshot)
{
	sigh o = sighandler[sig];

	sighandler[sig] = h;
	sigoneshot[sig] = oneshot;
	return (o);
}
sigh sim_signal(int sig, sigh h) { return (set_sig(sig, h, 0)); }
sigh sim_sysv_signal(int sig, sigh h) { return (set_sig(sig, h, 1)); }
int
sim_sigaction(int sig, const struct sigaction * a, struct sigaction * o)
{
	if (o) {
		memset(o, 0, sizeof(*o));
		o->sa_handler = sighandler[sig];
	}
	if (a)
		set_sig(sig, a->sa_handler, (a->sa_flags & (int)SA_RESETHAND) != 0);
	return (0);
}
static int pend_eintr;
static void
deliver(int sig)
{
	sigh h = sighandler[sig];

	lg("\"e\":\"Sig\",\"sig\":\"%s\"", sig == SIGTERM ? "TERM" : sig == SIGINT ? "INT" : "OTHER");
	if (h == SIG_IGN)
		return;
	if (h == SIG_DFL) {
		lg("\"e\":\"Killed\",\"sig\":\"%s\"", sig == SIGTERM ? "TERM" : "INT");
		sim_finish("Killed", 0);
	}
	if (sigoneshot[sig])
		sighandler[sig] = SIG_DFL;
	h(sig);
	pend_eintr = 1;
}

/* --------------------------------------------------------------- resolver */
static char dnsq[32][400];
static int ndns, dnspos;
static char dns_default[400];
static int dnshold;		/* results are held back */
struct vai { struct addrinfo ai; struct sockaddr_storage ss; };
static int dns_ready(void * a) { (void)a; return (!dnshold); }

static int
mkaddr(const char * s, struct sockaddr_storage * ss, socklen_t * l, int * fam)
{
	char a[200], * p;

	memset(ss, 0, sizeof(*ss));
	if (s[0] == '/') {
		struct sockaddr_un * u = (void *)ss;
		u->sun_family = AF_UNIX;
		snprintf(u->sun_path, sizeof(u->sun_path), "%s", s);
		*l = sizeof(*u);
		*fam = AF_UNIX;
		return (0);
	}
	snprintf(a, sizeof(a), "%s", s + 1);
	p = strrchr(a, ']');
	*p = 0;
	if (strchr(a, ':') != NULL) {
		struct sockaddr_in6 * i6 = (void *)ss;
		i6->sin6_family = AF_INET6;
		inet_pton(AF_INET6, a, &i6->sin6_addr);
		i6->sin6_port = htons((uint16_t)atoi(p + 2));
		*l = sizeof(*i6);
		*fam = AF_INET6;
	} else {
		struct sockaddr_in * i4 = (void *)ss;
		i4->sin_family = AF_INET;
		inet_pton(AF_INET, a, &i4->sin_addr);
		i4->sin_port = htons((uint16_t)atoi(p + 2));
		*l = sizeof(*i4);
		*fam = AF_INET;
	}
	return (0);
}

int
sim_getaddrinfo(const char * host, const char * port, const struct addrinfo * hints, struct addrinfo ** res)
{
	char tmp[400], * p, * sv = NULL, ent[300];
	struct vai * first = NULL, * last = NULL, * v;
	const char * r;
	int fam;

	step();
	lg("\"e\":\"DnsAsk\",\"host\":\"%s\",\"port\":\"%s\",\"th\":%d,\"st\":%d", host, port, mytid != 0, hints ? hints->ai_socktype : -1);
	sched_point();
	if (mytid != 0)
		block_on(dns_ready, NULL);
	r = dnspos < ndns ? dnsq[dnspos++] : dns_default;
	lg("\"e\":\"DnsAns\",\"a\":\"%s\",\"th\":%d", r, mytid != 0);
	if (strcmp(r, "fail") == 0 || r[0] == 0)
		return (EAI_NONAME);
	snprintf(tmp, sizeof(tmp), "%s", r);
	for (p = strtok_r(tmp, ",", &sv); p != NULL; p = strtok_r(NULL, ",", &sv)) {
		if (strcmp(p, "empty") == 0)
			break;
		v = calloc(1, sizeof(*v));
		/* entries are ip addresses; the port comes from the request */
		if (p[0] == '/')
			snprintf(ent, sizeof(ent), "%s", p);
		else
			snprintf(ent, sizeof(ent), "[%s]:%s", p, port);
		mkaddr(ent, &v->ss, &v->ai.ai_addrlen, &fam);
		v->ai.ai_family = fam;
		v->ai.ai_socktype = SOCK_STREAM;
		v->ai.ai_protocol = IPPROTO_TCP;
		v->ai.ai_addr = (struct sockaddr *)&v->ss;
		if (last)
			last->ai.ai_next = &v->ai;
		else
			first = v;
		last = v;
	}
	*res = first ? &first->ai : NULL;
	return (0);
}
void
sim_freeaddrinfo(struct addrinfo * a)
{
	struct addrinfo * n;

	for (; a != NULL; a = n) {
		n = a->ai_next;
		free(a);
	}
}
const char * sim_gai_strerror(int e) { (void)e; return ("simulated resolver failure"); }

/* ---------------------------------------------------------------- threads */
struct thstart { int id; };
static void *
th_main(void * a)
{
	struct th * t = a;
	int next;

	mytid = (int)(t - TH);
	pthread_mutex_lock(&bmtx);
	while (curth != mytid)
		pthread_cond_wait(&bcv, &bmtx);
	pthread_mutex_unlock(&bmtx);
	t->ret = t->fn(t->arg);
	t->done = 1;
	lg("\"e\":\"ThEnd\",\"th\":%d", mytid);
	/* hand the baton to somebody else */
	for (;;) {
		if ((next = pick(mytid)) != -1)
			break;
		if (!env_progress(1)) {
			lg("\"e\":\"Deadlock\",\"th\":%d", mytid);
			_exit(93);
		}
	}
	pthread_mutex_lock(&bmtx);
	curth = next;
	pthread_cond_broadcast(&bcv);
	pthread_mutex_unlock(&bmtx);
	return (NULL);
}
int
sim_pthread_create(pthread_t * thr, const pthread_attr_t * at, void * (* fn)(void *), void * arg_)
{
	struct th * t;
	int e, det = 0;

	if ((e = fault("pthread_create")) != 0)
		return (e);
	if (nth >= NTH)
		return (EAGAIN);
	t = &TH[nth];
	memset(t, 0, sizeof(*t));
	t->wjoin = -1;
	t->used = 1;
	t->fn = fn;
	t->arg = arg_;
	if (at != NULL) {
		pthread_attr_getdetachstate(at, &det);
		t->detached = det == PTHREAD_CREATE_DETACHED;
	}
	*thr = (pthread_t)(nth + 1000);
	nth++;
	lg("\"e\":\"ThNew\",\"th\":%d", nth - 1);
	pthread_create(&t->real, NULL, th_main, t);
	sched_point();
	return (0);
}
int
sim_pthread_join(pthread_t thr, void ** ret)
{
	int id = (int)thr - 1000;

	step();
	TH[mytid].wjoin = id;
	block_here();
	TH[mytid].wjoin = -1;
	TH[id].joined = 1;
	if (ret)
		*ret = TH[id].ret;
	lg("\"e\":\"ThJoin\",\"th\":%d", id);
	return (0);
}
int sim_pthread_detach(pthread_t thr) { TH[(int)thr - 1000].detached = 1; return (0); }
pthread_t sim_pthread_self(void) { return ((pthread_t)(mytid + 1000)); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return (a == b); }
int sim_pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) { (void)a; mx(m)->owner = -1; mx(m)->live = 1; return (0); }
int
sim_pthread_mutex_destroy(pthread_mutex_t * m)
{
	struct mtxrec * r = mx(m);

	if (r->owner != -1)
		lg("\"e\":\"MtxBad\",\"op\":\"destroy-locked\"");
	*r = MX[--nmx];
	return (0);
}
int
sim_pthread_mutex_lock(pthread_mutex_t * m)
{
	struct mtxrec * r;

	step();
	sched_point();
	r = mx(m);
	if (r->owner == mytid) {
		lg("\"e\":\"MtxBad\",\"op\":\"relock\"");
		_exit(93);
	}
	if (r->owner != -1) {
		TH[mytid].wmtx = m;
		block_here();
		TH[mytid].wmtx = NULL;
	}
	mx(m)->owner = mytid;
	return (0);
}
int
sim_pthread_mutex_unlock(pthread_mutex_t * m)
{
	struct mtxrec * r = mx(m);

	step();
	if (r->owner != mytid)
		lg("\"e\":\"MtxBad\",\"op\":\"unlock-not-owner\"");
	r->owner = -1;
	sched_point();
	return (0);
}
int sim_pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) { (void)c; (void)a; return (0); }
int
sim_pthread_cond_destroy(pthread_cond_t * c)
{
	int i;

	for (i = 0; i < nth; i++)
		if (TH[i].wcv == c && !TH[i].done)
			lg("\"e\":\"MtxBad\",\"op\":\"destroy-waited\"");
	return (0);
}
static int spurious;
int
sim_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	struct th * t = &TH[mytid];

	step();
	if (mx(m)->owner != mytid)
		lg("\"e\":\"MtxBad\",\"op\":\"wait-not-owner\"");
	mx(m)->owner = -1;
	t->wcv = c;
	t->wmtx = m;
	t->signalled = spurious && rng() % 4 == 0;
	block_here();
	t->wcv = NULL;
	t->wmtx = NULL;
	mx(m)->owner = mytid;
	return (0);
}
int
sim_pthread_cond_signal(pthread_cond_t * c)
{
	int i, k = -1, n = 0;

	step();
	for (i = 0; i < nth; i++)
		if (TH[i].wcv == c && !TH[i].signalled && !TH[i].done && rng() % (uint32_t)(++n) == 0)
			k = i;
	if (k >= 0)
		TH[k].signalled = 1;
	return (0);
}
int
sim_pthread_cond_broadcast(pthread_cond_t * c)
{
	int i;

	step();
	for (i = 0; i < nth; i++)
		if (TH[i].wcv == c)
			TH[i].signalled = 1;
	return (0);
}
int sim_pthread_cancel(pthread_t t) { (void)t; return (0); }

/* ------------------------------------------------------------------- heap */
struct hdr { size_t n; uint32_t magic; uint32_t pad; };
#define HM 0x5afe1234u
#define HF 0xdeadbeefu
static int heapfail = -1;	/* fail the n-th allocation from now */
static int heapcount;
static void * quar[4096];
static int nquar;
void *
sim_malloc(size_t n)
{
	struct hdr * h;

	step();
	heapcount++;
	if (heapfail >= 0 && heapfail-- == 0) {
		lg("\"e\":\"Oom\"");
		errno = ENOMEM;
		return (NULL);
	}
	h = malloc(sizeof(*h) + n + 8);
	h->n = n;
	h->magic = HM;
	memset(h + 1, 0xa5, n);
	memset((char *)(h + 1) + n, 0x7e, 8);
	nheap++;
	return (h + 1);
}
static void
heapbad(const char * w)
{
	lg("\"e\":\"HeapBad\",\"op\":\"%s\"", w);
	_exit(96);
}
void
sim_free(void * p)
{
	struct hdr * h;
	int i;

	if (p == NULL)
		return;
	h = (struct hdr *)p - 1;
	if (h->magic == HF)
		heapbad("double-free");
	if (h->magic != HM)
		heapbad("bad-free");
	for (i = 0; i < 8; i++)
		if (((uint8_t *)p)[h->n + (size_t)i] != 0x7e)
			heapbad("overrun");
	h->magic = HF;
	memset(p, 0xdd, h->n);
	nheap--;
	/* quarantine: freed memory keeps a poison pattern for a while */
	i = nquar++ & 4095;
	if (quar[i] != NULL) {
		struct hdr * o = quar[i];
		size_t k;

		for (k = 0; k < o->n; k++)
			if (((uint8_t *)(o + 1))[k] != 0xdd)
				heapbad("write-after-free");
		free(o);
	}
	quar[i] = h;
}
static void
quar_check(void)
{
	int i;
	size_t k;

	for (i = 0; i < 4096; i++)
		if (quar[i] != NULL) {
			struct hdr * o = quar[i];
			for (k = 0; k < o->n; k++)
				if (((uint8_t *)(o + 1))[k] != 0xdd)
					heapbad("write-after-free");
		}
}
void *
sim_calloc(size_t a, size_t b)
{
	void * p;

	if (b && a > SIZE_MAX / b) {
		errno = ENOMEM;
		return (NULL);
	}
	if ((p = sim_malloc(a * b)) != NULL)
		memset(p, 0, a * b);
	return (p);
}
void *
sim_realloc(void * p, size_t n)
{
	struct hdr * h;
	void * q;

	if (p == NULL)
		return (sim_malloc(n));
	h = (struct hdr *)p - 1;
	if (h->magic != HM)
		heapbad("realloc");
	if ((q = sim_malloc(n)) == NULL)
		return (NULL);
	memcpy(q, p, h->n < n ? h->n : n);
	sim_free(p);
	return (q);
}
char *
sim_strdup(const char * s)
{
	char * p = sim_malloc(strlen(s) + 1);

	if (p != NULL)
		strcpy(p, s);
	return (p);
}

/* ------------------------------------------------------------------- exit */
static void (* atx[64])(void);
static int natx;
int sim_atexit(void (* f)(void)) { if (natx < 64) atx[natx++] = f; return (0); }
static int
openfds(void)
{
	int i, n = 0;

	for (i = 3; i < NVFD; i++)
		if (F[i].kind == K_SOCK)
			n++;
	return (n);
}
/* threads still running */
static int
busyth(void)
{
	int i, n = 0;

	for (i = 1; i < nth; i++)
		if (TH[i].used && !TH[i].done)
			n++;
	return (n);
}
void
sim_finish(const char * why, int code)
{
	(void)why;
	(void)code;
	if (!finished) {
		finished = 1;
		quar_check();
		lg("\"e\":\"End\"");
	}
	_exit(0);
}
void
sim_exit(int code)
{
	while (natx > 0)
		atx[--natx]();
	if (mytid != 0)
		lg("\"e\":\"ThExit\",\"code\":%d", code);
	quar_check();
	lg("\"e\":\"Exit\",\"code\":%d,\"socks\":%d,\"heap\":%d,\"busy\":%d", code, openfds(), nheap, busyth());
	finished = 1;
	_exit(0);
}
void sim__exit(int code) { lg("\"e\":\"Exit\",\"code\":%d,\"socks\":%d,\"heap\":%d,\"busy\":%d", code, openfds(), nheap, busyth()); finished = 1; _exit(0); }
void sim_abort(void) { lg("\"e\":\"Abort\""); _exit(97); }
void
sim___assert_fail(const char * a, const char * f, unsigned l, const char * fn)
{
	(void)f; (void)l; (void)fn; (void)a;
	lg("\"e\":\"Abort\"");
	_exit(97);
}
int sim_fork(void) { lg("\"e\":\"Fork\""); sim_finish("Fork", 0); }
static int simpid = 4242;
pid_t sim_getpid(void) { return (simpid); }
pid_t sim_setsid(void) { lg("\"e\":\"Setsid\""); return (1); }
/* Credentials of the process, as the kernel keeps them. */
static uid_t cu[3];			/* real, effective, saved */
static gid_t cg[3];
static int cng = 2;			/* supplementary groups */
static void
privlog(const char * w, long id, int e)
{
	lg("\"e\":\"Priv\",\"op\":\"%s\",\"id\":%ld,\"err\":\"%s\",\"st\":[%ld,%ld,%ld,%ld,%ld,%ld,%d]", w, id, ename(e),
	    (long)cu[0], (long)cu[1], (long)cu[2], (long)cg[0], (long)cg[1], (long)cg[2], cng);
	errno = e;
}
#define KEEP ((uid_t)-1)
static int
okid(uid_t x, uid_t * c)
{
	return (x == KEEP || cu[1] == 0 || x == c[0] || x == c[1] || x == c[2]);
}
static int
setids(const char * w, const char * f, uid_t * c, uid_t r, uid_t e, uid_t s, long id)
{
	int err = fault(f);

	if (err == 0 && !(okid(r, c) && okid(e, c) && okid(s, c)))
		err = EPERM;
	if (err == 0) {
		if (r != KEEP) c[0] = r;
		if (e != KEEP) c[1] = e;
		if (s != KEEP) c[2] = s;
	}
	privlog(w, id, err);
	return (err ? -1 : 0);
}
int sim_setuid(uid_t u) { return (u == KEEP ? (errno = EINVAL, -1) : cu[1] == 0 ? setids("setuid", "setuid", cu, u, u, u, (long)u) : setids("setuid", "setuid", cu, KEEP, u, KEEP, (long)u)); }
int sim_setgid(gid_t g) { return (g == KEEP ? (errno = EINVAL, -1) : cu[1] == 0 ? setids("setgid", "setgid", cg, g, g, g, (long)g) : setids("setgid", "setgid", cg, KEEP, g, KEEP, (long)g)); }
int sim_seteuid(uid_t u) { return (setids("seteuid", "setuid", cu, KEEP, u, KEEP, (long)u)); }
int sim_setegid(gid_t g) { return (setids("setegid", "setgid", cg, KEEP, g, KEEP, (long)g)); }
int sim_setreuid(uid_t r, uid_t u) { return (setids("setreuid", "setuid", cu, r, u, u, (long)u)); }
int sim_setregid(gid_t r, gid_t g) { return (setids("setregid", "setgid", cg, r, g, g, (long)g)); }
int sim_setresuid(uid_t r, uid_t e, uid_t s) { return (setids("setresuid", "setuid", cu, r, e, s, (long)e)); }
int sim_setresgid(gid_t r, gid_t e, gid_t s) { return (setids("setresgid", "setgid", cg, r, e, s, (long)e)); }
static int
dosetgroups(const char * w, long n)
{
	int e = fault("setgroups");

	if (e == 0 && cu[1] != 0)
		e = EPERM;
	if (e == 0)
		cng = (int)n;
	privlog(w, n, e);
	return (e ? -1 : 0);
}
int sim_setgroups(size_t n, const gid_t * g) { (void)g; return (dosetgroups("setgroups", (long)n)); }
int sim_initgroups(const char * u, gid_t g) { (void)u; (void)g; return (dosetgroups("initgroups", 3)); }
int
sim_getgroups(int n, gid_t * l)
{
	int i;

	if (n != 0 && n < cng) {
		errno = EINVAL;
		return (-1);
	}
	for (i = 0; n && i < cng; i++)
		l[i] = (gid_t)(7000 + i);
	return (cng);
}
uid_t sim_getuid(void) { return (cu[0]); }
uid_t sim_geteuid(void) { return (cu[1]); }
gid_t sim_getgid(void) { return (cg[0]); }
gid_t sim_getegid(void) { return (cg[1]); }
struct passwd *
sim_getpwnam(const char * n)
{
	static struct passwd p;
	int e = fault("getpwnam");

	memset(&p, 0, sizeof(p));
	if (e)
		privlog("getpwnam", 0, e);
	if (e || strncmp(n, "user", 4) != 0) {
		errno = e;
		return (NULL);
	}
	p.pw_name = (char *)(uintptr_t)n;
	p.pw_uid = (uid_t)(1000 + atoi(n + 4));
	p.pw_gid = (gid_t)(2000 + atoi(n + 4));
	return (&p);
}
struct group *
sim_getgrnam(const char * n)
{
	static struct group g;
	int e = fault("getgrnam");

	memset(&g, 0, sizeof(g));
	if (e)
		privlog("getgrnam", 0, e);
	if (e || strncmp(n, "grp", 3) != 0) {
		errno = e;
		return (NULL);
	}
	g.gr_name = (char *)(uintptr_t)n;
	g.gr_gid = (gid_t)(3000 + atoi(n + 3));
	return (&g);
}

/* -------------------------------------------------- poll and the scenario */
static char ** script;
static int nscript, spos;
static int budget;		/* polls allowed to return */
static int idle_mode;		/* return until nothing is ready */
static int64_t advtarget;	/* clock is on its way to this time */
static int advancing;

static int rsd_fds;
static struct pollfd * pfds;
static nfds_t npfds;
static int64_t pdeadline;	/* absolute; -1 none */
static int polling;

static int
collect(struct pollfd * fds, nfds_t n)
{
	nfds_t i;
	int k = 0;
	short r;

	for (i = 0; i < n; i++) {
		fds[i].revents = 0;
		if (fds[i].fd < 0)
			continue;
		if (!OKFD(fds[i].fd)) {
			fds[i].revents = POLLNVAL;
			k++;
			continue;
		}
		r = readiness(fds[i].fd);
		r &= (short)(fds[i].events | POLLERR | POLLHUP | POLLNVAL);
		if (r) {
			fds[i].revents = r;
			k++;
		}
	}
	return (k);
}
static int
poll_ready(void * a)
{
	(void)a;
	return (collect(pfds, npfds) > 0 || (pdeadline >= 0 && pdeadline <= vnow) || pend_eintr);
}

static void
new_client(void)
{
	int c = nconn++;

	if (c >= NCONN)
		exit(3);
	Cn[c].exists = 1;
	Cn[c].A = newvs(c, S_A);
	Cn[c].A->connected = 2;
	if (srcaddr[0] == '/')
		Cn[c].A->family = AF_UNIX;
	lq[nlq++] = c;
	lg("\"e\":\"EClient\",\"c\":%d", c);
}

/* Execute one script command; returns 0 at the end of the script. */
static int
script_step(void)
{
	char tmp[512], * w[24];
	int nw, c, i;
	struct vs * s;
	struct conn * P;

	if (spos >= nscript)
		return (0);
	snprintf(tmp, sizeof(tmp), "%s", script[spos++]);
	nw = splitw(tmp, w, 24);
	if (nw == 0)
		return (1);
	c = nw > 1 ? atoi(w[1]) : -1;
	P = c >= 0 && c < NCONN ? &Cn[c] : NULL;
#define IS(x) (strcmp(w[0], x) == 0)
	if (IS("conn")) {
		new_client();
	} else if (IS("run")) {
		budget = nw > 1 ? atoi(w[1]) : 1;
	} else if (IS("idle")) {
		idle_mode = 1;
	} else if (IS("adv") || IS("jump")) {
		advtarget = vnow + (int64_t)(atof(w[1]) * 1000.0);
		if (IS("jump")) {
			vnow = advtarget;
			lg("\"e\":\"Time\"");
		} else
			advancing = 1;
	} else if (IS("sig")) {
		deliver(strcmp(w[1], "TERM") == 0 ? SIGTERM : SIGINT);
	} else if (IS("eintr")) {
		pend_eintr = 1;
	} else if (IS("cmode")) {
		for (i = 1; i < nw; i++)
			snprintf(cmode[ncmode++], 24, "%s", w[i]);
	} else if (IS("cdefault")) {
		snprintf(cmode_default, 24, "%s", w[1]);
	} else if (IS("cok") || IS("cfail")) {
		s = P->T;
		if (s != NULL && s->connected == 1) {
			lg("\"e\":\"EConn\",\"c\":%d,\"ok\":%d", c, IS("cok"));
			if (IS("cok"))
				connect_done(s);
			else {
				s->connected = 3;
				s->cerr = nw > 2 ? eval(w[2]) : ECONNREFUSED;
			}
		}
	} else if (IS("hn") || IS("hd") || IS("pk") || IS("raw")) {
		char * ww[24];
		int k = 0;
		ww[k++] = w[0];
		for (i = 2; i < nw; i++)
			ww[k++] = w[i];
		if (P->ndef < 256)
			P->defq[P->ndef++] = joinw(ww, k);
		run_deferred(c);
	} else if (IS("kid")) {
		P->kid = atoi(w[2]);
	} else if (IS("ponce")) {
		P->ponce = atoi(w[2]);
	} else if (IS("pw")) {
		uint8_t b[4096];
		long left = atol(w[2]);
		if ((s = plainside(c)) != NULL && s->connected == 2 && !s->eof && !s->rst) {
			lg("\"e\":\"EPlain\",\"c\":%d,\"n\":%ld", c, left);
			while (left > 0) {
				long k = left > 4096 ? 4096 : left;
				for (i = 0; i < k; i++)
					b[i] = pbyte(c, 0, P->pw + i);
				addin(s, b, (size_t)k);
				P->pw += k;
				left -= k;
			}
		}
	} else if (IS("peof") || IS("ceof") || IS("prst") || IS("crst")) {
		s = w[0][0] == 'p' ? plainside(c) : cipherside(c);
		if (s != NULL && s->connected == 2 && !s->rst) {
			if (w[0][1] == 'e') {
				if (!s->eof) {
					s->eof = 1;
					lg("\"e\":\"EEof\",\"c\":%d,\"s\":\"%s\"", c, sname(s));
				}
			} else {
				s->rst = 1;
				s->hold = 0;
				if (nw > 2) {	/* discard unread data */
					s->in.len = s->in.off;
				}
				lg("\"e\":\"ERst\",\"c\":%d,\"s\":\"%s\",\"disc\":%d", c, sname(s), nw > 2);
			}
		}
	} else if (IS("pwin") || IS("cwin")) {
		s = w[0][0] == 'p' ? plainside(c) : cipherside(c);
		if (s != NULL) {
			if (strcmp(w[2], "inf") == 0)
				s->win = -1;
			else if (strcmp(w[2], "0") == 0)
				s->win = 0;
			else
				s->win = (s->win < 0 ? 0 : s->win) + atol(w[2]);
		}
	} else if (IS("phold") || IS("chold")) {
		s = w[0][0] == 'p' ? plainside(c) : cipherside(c);
		if (s != NULL) {
			s->hold = !s->rst;
			s->rel = s->in.len;
		}
	} else if (IS("prel") || IS("crel")) {
		s = w[0][0] == 'p' ? plainside(c) : cipherside(c);
		if (s != NULL) {
			if (strcmp(w[2], "all") == 0) {
				s->hold = 0;
			} else {
				s->rel += (size_t)atol(w[2]);
				if (s->rel > s->in.len)
					s->rel = s->in.len;
			}
		}
	} else if (IS("prcap") || IS("crcap")) {
		s = w[0][0] == 'p' ? plainside(c) : cipherside(c);
		if (s != NULL)
			s->rcap = (size_t)atol(w[2]);
	} else if (IS("pwcap") || IS("cwcap")) {
		s = w[0][0] == 'p' ? plainside(c) : cipherside(c);
		if (s != NULL)
			s->wcap = (size_t)atol(w[2]);
	} else if (IS("fault")) {
		snprintf(flt[nflt].call, 16, "%s", w[1]);
		flt[nflt].n = atoi(w[2]);
		flt[nflt].err = eval(w[3]);
		flt[nflt].used = 0;
		nflt++;
	} else if (IS("cred")) {	/* uid gid groups */
		cu[0] = cu[1] = cu[2] = (uid_t)atol(w[1]);
		cg[0] = cg[1] = cg[2] = (gid_t)atol(w[2]);
		cng = atoi(w[3]);
	} else if (IS("heapfail")) {
		heapfail = atoi(w[1]);
	} else if (IS("maxfds")) {
		maxfds = atoi(w[1]);
	} else if (IS("shortrnd")) {
		shortrnd = atoi(w[1]);
	} else if (IS("dns")) {
		snprintf(dnsq[ndns++], 400, "%s", w[1]);
	} else if (IS("dnsdefault")) {
		snprintf(dns_default, 400, "%s", w[1]);
	} else if (IS("dnshold")) {
		dnshold = atoi(w[1]);
	} else if (IS("sched")) {
		sched_mode = atoi(w[1]);
		if (nw > 2)
			rngs = (uint32_t)atoi(w[2]) * 2654435761u + 1;
	} else if (IS("spurious")) {
		spurious = atoi(w[1]);
	} else if (IS("mark")) {
		lg("\"e\":\"Mark\",\"heap\":%d", nheap);
#ifdef SPIPE
	} else if (spipe_cmd(w, nw)) {
		;
#endif
	} else if (IS("end")) {
		sim_finish("End", 0);
	} else {
		fprintf(stderr, "simos: unknown command %s\n", w[0]);
		exit(3);
	}
	return (1);
}

/* What the environment offers on each open connection, at quiescence:
 * [c, plain bytes readable, cipher bytes readable, plain writable, cipher
 * writable, plain end (1 EOF, 2 reset), cipher end] */
static const char *
iosnap(void)
{
	static char o[NCONN * 64];
	size_t k = 0;
	int c, j;
	long v[6];

	o[0] = 0;
	for (c = 0; c < nconn; c++) {
		struct vs * s[2];

		if (Cn[c].A == NULL || Cn[c].A->fd < 0)
			continue;
		s[0] = plainside(c);
		s[1] = cipherside(c);
		for (j = 0; j < 2; j++) {
			v[j] = v[2 + j] = v[4 + j] = 0;
			if (s[j] == NULL || s[j]->connected != 2)
				continue;
			v[j] = (long)avail(s[j]);
			v[2 + j] = s[j]->win != 0 && !s[j]->rst;
			if (avail(s[j]) == s[j]->in.len - s[j]->in.off)
				v[4 + j] = s[j]->rst ? 2 : s[j]->eof;
		}
		k += (size_t)snprintf(o + k, 64, "%s[%d,%ld,%ld,%ld,%ld,%ld,%ld]", k ? "," : "", c,
		    v[0], v[1], v[2], v[3], v[4], v[5]);
	}
	return (o);
}

/* Nothing can run without the environment acting: let it act. */
static int
env_progress(int blocking)
{
	int64_t t;

	(void)blocking;
	step();
	if (idle_mode || advancing) {
		/* quiescent */
		lg("\"e\":\"Idle\",\"to\":%lld,\"heap\":%d,\"lq\":%d,\"lis\":%d,\"io\":[%s]",
		    !polling ? -2LL : pdeadline < 0 ? -1LL : pdeadline - vnow > 2000000000000LL ? 2000000000LL :
		    (long long)((pdeadline - vnow + 999) / 1000), nheap, nlq - lqpos, lisfd >= 0, iosnap());
		if (advancing) {
			t = advtarget;
			if (polling && pdeadline >= 0 && pdeadline < t)
				t = pdeadline;
			if (t > vnow) {
				vnow = t;
				lg("\"e\":\"Time\"");
			}
			if (vnow >= advtarget)
				advancing = 0;
			if (vnow >= advtarget && !(polling && pdeadline >= 0 && pdeadline <= vnow))
				idle_mode = 0;
			else
				idle_mode = 1;
			return (1);
		}
		idle_mode = 0;
	}
	if (!script_step()) {
		sim_finish("End", 0);
	}
	return (1);
}

int
sim_poll(struct pollfd * fds, nfds_t n, int timeout)
{
	int k, t;

	step();
	if (mytid == 0)
		sched_point();
	pfds = fds;
	npfds = n;
	pdeadline = timeout < 0 ? -1 : vnow + (int64_t)timeout * 1000;
	polling = 1;
	for (;;) {
		if (timeout != 0 && pend_eintr) {
			pend_eintr = 0;
			lg("\"e\":\"Eintr\"");
			polling = 0;
			errno = EINTR;
			return (-1);
		}
		k = collect(fds, n);
		if (k > 0 || (timeout >= 0 && pdeadline <= vnow)) {
			if (timeout == 0 && k == 0)
				break;		/* a mere check */
			if (budget > 0) {
				budget--;
				break;
			}
			if (idle_mode || advancing)
				break;
		} else if (budget > 0)
			budget = 0;
		/* other threads first */
		if ((t = pick(0)) != -1) {
			TH[0].pred = poll_ready;
			baton_to(t);
			TH[0].pred = NULL;
			if (t != -1)
				continue;
		}
		if (timeout == 0 && k == 0)
			break;
		env_progress(1);
	}
	polling = 0;
	return (k);
}
int
sim_ppoll(struct pollfd * fds, nfds_t n, const struct timespec * ts, const sigset_t * m)
{
	(void)m;
	return (sim_poll(fds, n, ts == NULL ? -1 : (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000)));
}
int
sim_select(int n, fd_set * r, fd_set * w, fd_set * x, struct timeval * tv)
{
	struct pollfd p[NVFD];
	nfds_t k = 0, j;
	int i, rc, cnt = 0;

	(void)x;
	for (i = 0; i < n; i++) {
		short e = 0;
		if (r && FD_ISSET(i, r))
			e |= POLLIN;
		if (w && FD_ISSET(i, w))
			e |= POLLOUT;
		if (e) {
			p[k].fd = i;
			p[k++].events = e;
		}
	}
	rc = sim_poll(p, k, tv == NULL ? -1 : (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000));
	if (rc < 0)
		return (rc);
	if (r)
		FD_ZERO(r);
	if (w)
		FD_ZERO(w);
	for (j = 0; j < k; j++) {
		if (r && (p[j].events & POLLIN) && (p[j].revents & (POLLIN | POLLERR | POLLHUP))) {
			FD_SET(p[j].fd, r);
			cnt++;
		}
		if (w && (p[j].events & POLLOUT) && (p[j].revents & (POLLOUT | POLLERR | POLLHUP))) {
			FD_SET(p[j].fd, w);
			cnt++;
		}
	}
	return (cnt);
}

/* ----------------------------------------------------------------- driver */
/*
 * Scenario file: blocks of
 *   S <id>
 *   K <hex of key 0> (32 bytes, SHA-256 of key file)   [optional]
 *   A <argv...>
 *   M e|d|spipe-e|...        program role
 *   seed N
 *   C <command>              (script)
 *   E
 * Output: one line per scenario: {"id":"..","ev":[...]}
 */
static void
hex(const char * h, uint8_t * o, int n)
{
	int i;
	unsigned v;

	for (i = 0; i < n; i++) {
		sscanf(h + 2 * i, "%2x", &v);
		o[i] = (uint8_t)v;
	}
}

static void
child(char ** argv_, int argc_, char ** sc, int nsc)
{
	int i;

	script = sc;
	nscript = nsc;
	spos = 0;
	for (i = 0; i < 3; i++)
		F[i].kind = i == 0 ? K_STDIN : i == 1 ? K_STDOUT : K_STDERR;
	for (i = 0; i < NTH; i++)
		TH[i].wjoin = -1;
	TH[0].used = 1;
	mytid = 0;
	vnow = T0;
	rngs = (uint32_t)seed * 2654435761u + 88675123u;
	if (rngs == 0)
		rngs = 1;
	/* set-up commands (before the program starts) are those before "start" */
	{
		int has = 0;
		for (i = 0; i < nscript; i++)
			if (strcmp(script[i], "start") == 0)
				has = 1;
		if (has)
			while (strcmp(script[spos], "start") != 0)
				script_step();
		if (has)
			spos++;
	}
	sim_exit(prog_main(argc_, argv_));
}

int
main(int argc, char ** argv)
{
	FILE * f;
	FILE * out;
	char line[8192], id[64] = "";
	char * sc[4096], * av[64];
	int nsc = 0, ac = 0, st, i;
	pid_t pid;

	if (argc != 3) {
		fprintf(stderr, "usage: sim SCENARIOS OUT\n");
		return (2);
	}
	if ((f = fopen(argv[1], "r")) == NULL || (out = fopen(argv[2], "w")) == NULL)
		return (2);
	ref_init();
	L = mmap(NULL, LOGMAX + sizeof(*L), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (freopen("/dev/null", "r", stdin) == NULL)
		return (2);
	while (fgets(line, sizeof(line), f) != NULL) {
		line[strcspn(line, "\n")] = 0;
		if (strncmp(line, "S ", 2) == 0) {
			snprintf(id, sizeof(id), "%s", line + 2);
			nsc = 0;
			ac = 0;
			seed = 1;
			decr = 0;
			isspipe = 0;
			srcaddr[0] = 0;
		} else if (strncmp(line, "K ", 2) == 0) {
			hex(line + 2, keyK[0], 32);
			for (i = 0; i < 32; i++)
				keyK[1][i] = keyK[0][i] ^ (i == 31 ? 1 : 0);
		} else if (strncmp(line, "M ", 2) == 0) {
			decr = strchr(line + 2, 'd') != NULL;
		} else if (strncmp(line, "seed ", 5) == 0) {
			seed = atoi(line + 5);
		} else if (strncmp(line, "src ", 4) == 0) {
			snprintf(srcaddr, sizeof(srcaddr), "%s", line + 4);
		} else if (strncmp(line, "A ", 2) == 0) {
			av[ac++] = strdup(line + 2);
		} else if (strncmp(line, "C ", 2) == 0) {
			if (nsc < 4096)
				sc[nsc++] = strdup(line + 2);
		} else if (strcmp(line, "E") == 0) {
			av[ac] = NULL;
			L->len = 0;
			L->over = 0;
			fflush(out);
			pid = fork();
			if (pid == 0) {
				int fd = open("/dev/null", O_WRONLY);

				if (getenv("SIM_STDERR") == NULL)
					dup2(fd, 2);
				alarm(30);
				child(av, ac, sc, nsc);
			}
			waitpid(pid, &st, 0);
			fprintf(out, "{\"id\":\"%s\",\"ev\":[", id);
			{
				char * p = L->b, * e = L->b + L->len, * nl;
				int first = 1;

				while (p < e && (nl = memchr(p, '\n', (size_t)(e - p))) != NULL) {
					if (!first)
						fputc(',', out);
					first = 0;
					fwrite(p, 1, (size_t)(nl - p), out);
					p = nl + 1;
				}
				if (WIFSIGNALED(st))
					fprintf(out, "%s{\"t\":0,\"e\":\"Crash\",\"sig\":%d}", first ? "" : ",", WTERMSIG(st));
				else if (WEXITSTATUS(st) == 3) {
					fprintf(stderr, "simos: scenario %s is malformed\n", id);
					return (3);
				}
			}
			fprintf(out, "]}\n");
			for (i = 0; i < nsc; i++)
				free(sc[i]);
			for (i = 0; i < ac; i++)
				free(av[i]);
		}
	}
	fclose(out);
	return (0);
}
