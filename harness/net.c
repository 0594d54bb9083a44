/*
 * Driver for libcperciva/network and libcperciva/netbuf: runs scripts on the
 * real code over simulated sockets, clock and poll; records every call.
 *
 * usage: net IN OUT     (see ev.c for the form of scripts and handlers)
 *
 *   r:slot:h:fd:blen:min  w:slot:h:fd:blen:min  a:slot:h:fd   start operations
 *   k:slot:h:types:variant:usec   connect; one letter per address:
 *        o connects at once, p in progress then ok, i EINTR then ok, q in
 *        progress then error, f fails at once, s no socket, b bind fails,
 *        n cannot be made non-blocking, h never answers, g getsockopt fails
 *        variant 0 plain, 1 with a source address, 2 with a timeout
 *   c:slot                cancel an operation
 *   N:slot:h:fd W:slot:len P:slot C:slot:n X:slot Z:slot   buffered reader:
 *        init, wait, peek, consume, cancel, free
 *   q:fd:items  s:fd:items  what receiving / sending / accepting will give:
 *        n  up to n bytes, E EAGAIN, I EINTR, Z end of stream, R reset,
 *        P broken pipe, c connection, B ECONNABORTED, F EMFILE
 *   Q:fd:items  S:fd:items  the same, but arriving when the program waits
 *   A:usec   R (run until nothing happens)   r1 (run once)
 */
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "events.h"
#include "network.h"
#include "netbuf.h"
#include "sock.h"

static FILE * out;
static long long now = 1000000000LL;
static int firstev = 1, nev, npoll;
static jmp_buf bail;
#define MAXEV 800
static void
ev(const char * fmt, ...)
{
	va_list ap;

	fprintf(out, "%s{", firstev ? "" : ",");
	firstev = 0;
	va_start(ap, fmt);
	vfprintf(out, fmt, ap);
	va_end(ap);
	fputc('}', out);
	if (++nev > MAXEV)
		longjmp(bail, 1);
}

int
sim_clock_gettime(clockid_t c, struct timespec * ts)
{
	ts->tv_sec = now / 1000000;
	ts->tv_nsec = (now % 1000000) * 1000;
	return (0);
}
int sim_gettimeofday(struct timeval * tv, void * z) { tv->tv_sec = now / 1000000; tv->tv_usec = now % 1000000; return (0); }
int sim_clock_getres(clockid_t c, struct timespec * ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1000; } return (0); }

/* Descriptors. */
#define NFD 512
struct q { int n, i; short it[4000]; };	/* > 0: bytes; < 0: -letter */
static struct q inq[NFD], outq[NFD];
static struct { int fd, out; char items[400]; } later[200];
static int nlater, ilater;
static int rcvd[NFD];
static uint8_t pat(int fd, int o) { uint32_t x = (uint32_t)(fd * 7919 + o) * 2654435761u; return (uint8_t)(x >> 13 ^ x >> 24); }
static uint8_t spat(int s, int o) { return pat(s + 1000, o); }
static void
push(struct q * q, const char * s)
{
	while (*s) {
		if (*s == ',') { s++; continue; }
		if (*s >= '0' && *s <= '9')
			q->it[q->n++] = (short)strtol(s, (char **)&s, 10);
		else
			q->it[q->n++] = -*s++;
		if (q->n >= 3990) return;
	}
}
static int have(struct q * q) { return (q->i < q->n); }

/* Operations. */
#define NS 64
static struct op { char k; int live, h, fd, blen, min, lo, sent, bufcap; uint8_t * buf; void * ck; } ops[NS];
static struct nb { int live, w, h, fd, con; struct netbuf_read * R; } nbs[NS];
static int coslot = -1, coaddr, codeadline_on, inconnect, cowantb;
static long long codeadline;
static char cotypes[32];
static struct sock_addr * coas[32];
static char fdtype[NFD];		/* of connecting sockets */
static int fdbound[NFD], isopen[NFD], fdready[NFD];
static int nextfd = 100;
static int closed[16], nclosed = -1;

int
sim_socket(int d, int t, int p)
{
	if (coslot >= 0 && cotypes[coaddr] == 's') {
		ev("\"e\":\"Socket\",\"fd\":-1");
		coaddr++;
		errno = EMFILE;
		return (-1);
	}
	isopen[nextfd] = 1;
	fdbound[nextfd] = 0;
	ev("\"e\":\"Socket\",\"fd\":%d", nextfd);
	return (nextfd++);
}
int sim_setsockopt(int fd, int l, int o, const void * v, socklen_t n) { return (0); }
int
sim_bind(int fd, const struct sockaddr * sa, socklen_t n)
{
	int bad = coslot >= 0 && cotypes[coaddr] == 'b';
	ev("\"e\":\"Prep\",\"fd\":%d,\"bad\":%d", fd, bad);
	fdbound[fd] = ntohs(((struct sockaddr_in *)sa)->sin_port) == 777;
	if (bad) { errno = EADDRINUSE; return (-1); }
	return (0);
}
int
sim_fcntl(int fd, int cmd, ...)
{
	int bad = coslot >= 0 && cotypes[coaddr] == 'n';
	if (bad && cmd == F_SETFL) {
		ev("\"e\":\"Prep\",\"fd\":%d,\"bad\":1", fd);
		errno = EBADF;
		return (-1);
	}
	return (0);
}
int
sim_connect(int fd, const struct sockaddr * sa, socklen_t n)
{
	int i = ntohs(((struct sockaddr_in *)sa)->sin_port) - 1000;
	char t = i >= 0 && i < (int)strlen(cotypes) ? cotypes[i] : 'f';
	int bad = t == 'f';
	ev("\"e\":\"Connect\",\"fd\":%d,\"i\":%d,\"bad\":%d,\"b\":%d,\"wantb\":%d", fd, i, bad, fdbound[fd], cowantb);
	fdtype[fd] = t;
	fdready[fd] = 0;
	if (codeadline_on)
		codeadline = now + codeadline_on;
	if (t == 'o') { fdready[fd] = 1; return (0); }
	errno = t == 'f' ? ECONNREFUSED : t == 'i' ? EINTR : EINPROGRESS;
	return (-1);
}
int
sim_getsockopt(int fd, int l, int o, void * v, socklen_t * n)
{
	int err = fdtype[fd] == 'q' ? ECONNREFUSED : 0;
	if (l == SOL_SOCKET && o == SO_ERROR) {
		ev("\"e\":\"SoErr\",\"fd\":%d,\"err\":%d,\"ready\":%d", fd, fdtype[fd] == 'g' ? -1 : err, fdready[fd]);
		if (fdtype[fd] == 'g') { errno = EBADF; return (-1); }
		*(int *)v = err;
	}
	return (0);
}
int
sim_close(int fd)
{
	if (fd < 100 || fd >= NFD) {
		ev("\"e\":\"CloseFd\",\"fd\":%d", fd);
		return (0);
	}
	if (nclosed >= 0)
		closed[nclosed++] = fd;
	else {
		ev("\"e\":\"CloseFd\",\"fd\":%d", fd);
		coaddr++;
	}
	isopen[fd] = 0;
	return (0);
}

static void
codue(void)
{
	if (codeadline_on && coslot >= 0 && now >= codeadline) {
		ev("\"e\":\"Timeout\"");
		codeadline = 1LL << 60;
	}
}

static ssize_t
dorecv(int fd, void * buf, size_t len, int flags)
{
	struct q * q = &inq[fd];
	int i, res, off = 0, k, e = 0;

	for (i = 0; i < NS; i++)
		if (ops[i].live && ops[i].k == 'r' && ops[i].fd == fd) {
			off = (uint8_t *)buf >= ops[i].buf && (uint8_t *)buf <= ops[i].buf + ops[i].blen ?
			    (int)((uint8_t *)buf - ops[i].buf) : rcvd[fd] - ops[i].lo;
		}
	if (!have(q)) { res = -2; e = EAGAIN; }
	else if (q->it[q->i] > 0) {
		res = q->it[q->i];
		if ((size_t)res > len) {
			q->it[q->i] -= (short)len;
			res = (int)len;
		} else
			q->i++;
		for (k = 0; k < res; k++)
			((uint8_t *)buf)[k] = pat(fd, rcvd[fd] + k);
		rcvd[fd] += res;
	} else switch (-q->it[q->i]) {
	case 'E': q->i++; res = -2; e = EAGAIN; break;
	case 'I': q->i++; res = -2; e = EINTR; break;
	case 'Z': res = 0; break;
	default: res = -1; e = ECONNRESET; break;
	}
	ev("\"e\":\"Recv\",\"fd\":%d,\"len\":%d,\"off\":%d,\"res\":%d", fd, (int)len, off, res);
	errno = e;
	return (res < 0 ? -1 : res);
}
ssize_t sim_recv(int fd, void * buf, size_t len, int flags) { return (dorecv(fd, buf, len, flags)); }
ssize_t sim_read(int fd, void * buf, size_t len) { return (dorecv(fd, buf, len, 0)); }

static ssize_t
dosend(int fd, const void * buf, size_t len, int flags)
{
	struct q * q = &outq[fd];
	int i, k, res, off = -1, e = 0, safe = 1;
	struct sigaction sa;

	for (i = 0; i < NS; i++)
		if (ops[i].live && ops[i].k == 'w' && ops[i].fd == fd) {
			off = ops[i].sent;
			for (k = 0; k < (int)len; k++)
				if (off + k >= ops[i].blen || ((const uint8_t *)buf)[k] != spat(i, off + k)) { off = -1; break; }
			break;
		}
	if (!have(q)) { res = -2; e = EAGAIN; }
	else if (q->it[q->i] > 0) {
		res = q->it[q->i];
		if ((size_t)res > len) {
			q->it[q->i] -= (short)len;
			res = (int)len;
		} else
			q->i++;
		if (i < NS)
			ops[i].sent += res;
	} else switch (-q->it[q->i]) {
	case 'E': q->i++; res = -2; e = EAGAIN; break;
	case 'I': q->i++; res = -2; e = EINTR; break;
	case 'P':
		res = -1; e = EPIPE;
		sigaction(SIGPIPE, NULL, &sa);
		safe = (flags & MSG_NOSIGNAL) || sa.sa_handler != SIG_DFL;
		break;
	default: res = -1; e = ECONNRESET; break;
	}
	ev("\"e\":\"Send\",\"fd\":%d,\"len\":%d,\"off\":%d,\"safe\":%d,\"res\":%d", fd, (int)len, off, safe, res);
	errno = e;
	return (res < 0 ? -1 : res);
}
ssize_t sim_send(int fd, const void * buf, size_t len, int flags) { return (dosend(fd, buf, len, flags)); }
ssize_t sim_write(int fd, const void * buf, size_t len) { return (dosend(fd, buf, len, 0)); }
int
sim_accept(int fd, struct sockaddr * sa, socklen_t * n)
{
	struct q * q = &inq[fd];
	int res, e = EAGAIN;

	if (!have(q)) res = -2;
	else switch (-q->it[q->i]) {
	case 'c': res = nextfd++; q->i++; break;
	case 'F': res = -1; e = EMFILE; break;
	case 'I': res = -2; e = EINTR; q->i++; break;
	case 'B': res = -2; e = ECONNABORTED; q->i++; break;
	default: res = -2; q->i++; break;
	}
	ev("\"e\":\"AcceptCall\",\"fd\":%d,\"res\":%d", fd, res);
	errno = e;
	return (res < 0 ? -1 : res);
}

static int
canread(int fd) { return (have(&inq[fd])); }
static int
canwrite(int fd)
{
	if (fd >= 100)
		return (isopen[fd] && strchr("opiqg", fdtype[fd]) != NULL && fdtype[fd]);
	return (have(&outq[fd]));
}
int
sim_poll(struct pollfd * fds, nfds_t n, int timeout)
{
	nfds_t i;
	int r, k, first;
	long long left;

	if (++npoll > 3000)
		longjmp(bail, 3);
again:
	for (r = 0, i = 0; i < n; i++) {
		fds[i].revents = 0;
		if (fds[i].fd < 0)
			continue;
		if ((fds[i].events & POLLIN) && canread(fds[i].fd)) fds[i].revents |= POLLIN;
		if ((fds[i].events & POLLOUT) && canwrite(fds[i].fd)) {
			fds[i].revents |= POLLOUT;
			fdready[fds[i].fd] = 1;
			if (fdtype[fds[i].fd] == 'q') fds[i].revents |= POLLERR;
		}
		if (fds[i].fd < 100 && canread(fds[i].fd) && inq[fds[i].fd].it[inq[fds[i].fd].i] == -'R') fds[i].revents |= POLLERR | POLLHUP;
		if (fds[i].revents)
			r++;
	}
	if (r || timeout == 0) {
		now += 1;
		codue();
		return (r);
	}
	/* Nothing is ready.  What is due by now? */
	left = timeout < 0 ? -1 : (long long)timeout * 1000;
	if (ilater < nlater) {
		push(later[ilater].out ? &outq[later[ilater].fd] : &inq[later[ilater].fd], later[ilater].items);
		ilater++;
		goto again;
	}
	if (left < 0) {
		fprintf(out, "%s{\"e\":\"Quiet\",\"rd\":[", firstev ? "" : ",");
		firstev = 0;
		for (first = 1, k = 0; k < NFD; k++)
			if (canread(k)) fprintf(out, "%s%d", first ? "" : ",", k), first = 0;
		fprintf(out, "],\"wr\":[");
		for (first = 1, k = 0; k < NFD; k++)
			if (canwrite(k)) fprintf(out, "%s%d", first ? "" : ",", k), first = 0;
		fprintf(out, "]}");
		longjmp(bail, 2);
	}
	now += left;
	codue();
	return (0);
}

/* Scripts. */
#define NW 4000
static char * tok[NW];
static int ntok;
static struct { int lo, hi, rc; } hnd[64];
static void op(const char *);
static int
runhandler(int h)
{
	int i;

	if (h >= 0 && h < 64 && hnd[h].hi) {
		for (i = hnd[h].lo; i < hnd[h].hi; i++)
			op(tok[i]);
	}
	return (0);
}
static int
cb_rd(void * c, ssize_t r)
{
	int s = (int)(intptr_t)c, i, good = 1;

	for (i = 0; i < ops[s].blen; i++) {
		if (i < r) { if (ops[s].buf[i] != pat(ops[s].fd, ops[s].lo + i)) good = 0; }
		else if (r > 0 && ops[s].buf[i] != 0xa5) good = 0;
	}
	ev("\"e\":\"RdDone\",\"s\":%d,\"r\":%zd,\"lo\":%d,\"good\":%d", s, r, ops[s].lo, good);
	ops[s].live = 0;
	free(ops[s].buf);
	return (runhandler(ops[s].h));
}
static int
cb_wr(void * c, ssize_t r)
{
	int s = (int)(intptr_t)c;

	ev("\"e\":\"WrDone\",\"s\":%d,\"r\":%zd", s, r);
	ops[s].live = 0;
	free(ops[s].buf);
	return (runhandler(ops[s].h));
}
static int
cb_ac(void * c, int r)
{
	int s = (int)(intptr_t)c;

	ev("\"e\":\"AcDone\",\"s\":%d,\"r\":%d", s, r);
	ops[s].live = 0;
	return (runhandler(ops[s].h));
}
static void
freeco(void)
{
	coslot = -1;
}
static int
cb_co(void * c, int r)
{
	int s = (int)(intptr_t)c;

	ev("\"e\":\"CoDone\",\"s\":%d,\"r\":%d", s, r);
	ops[s].live = 0;
	freeco();
	return (runhandler(ops[s].h));
}
static int
cb_nb(void * c, int st)
{
	int s = (int)(intptr_t)c;

	ev("\"e\":\"NbDone\",\"s\":%d,\"st\":%d", s, st);
	nbs[s].w = 0;
	return (runhandler(nbs[s].h));
}
static int
busy(int fd, int wr)
{
	int i;
	for (i = 0; i < NS; i++) {
		if (ops[i].live && ops[i].fd == fd && (ops[i].k == 'w') == wr) return (1);
		if (!wr && nbs[i].live && nbs[i].fd == fd) return (1);
	}
	return (0);
}
static struct sock_addr *
mkaddr(int port)
{
	char s[40];
	struct sock_addr ** l, * sa;
	snprintf(s, sizeof(s), "[10.0.0.1]:%d", port);
	l = sock_resolve(s);
	if (!l) abort();
	sa = l[0];
	free(l);
	return (sa);
}
static void
op(const char * w)
{
	int a = 0, b = 0, c = 0, d = 0, e = 0, i, n;
	char items[500] = "";
	uint8_t * p;
	size_t len;
	struct timeval tv;
	static struct sock_addr * src;
	char types[64];

	sscanf(w + 1, ":%d:%d:%d:%d:%d", &a, &b, &c, &d, &e);
	if (strchr("qsQS", w[0]) && w[1] == ':') sscanf(w + 1, ":%d:%499s", &a, items);
	switch (w[0]) {
	case 'r': case 'w':
		if (ops[a].live || busy(c, w[0] == 'w')) return;
		ops[a].k = w[0]; ops[a].h = b; ops[a].fd = c; ops[a].blen = d; ops[a].min = e; ops[a].sent = 0;
		ops[a].lo = rcvd[c];
		ops[a].buf = malloc(d);
		for (i = 0; i < d; i++) ops[a].buf[i] = w[0] == 'r' ? 0xa5 : spat(a, i);
		ops[a].live = 1;
		ev("\"e\":\"%s\",\"s\":%d,\"fd\":%d,\"blen\":%d,\"min\":%d", w[0] == 'r' ? "RdStart" : "WrStart", a, c, d, e);
		ops[a].ck = w[0] == 'r' ? network_read(c, ops[a].buf, d, e, cb_rd, (void *)(intptr_t)a) :
		    network_write(c, ops[a].buf, d, e, cb_wr, (void *)(intptr_t)a);
		if (!ops[a].ck) ev("\"e\":\"StartFailed\"");
		break;
	case 'a':
		if (ops[a].live || busy(c, 0)) return;
		ops[a].k = 'a'; ops[a].h = b; ops[a].fd = c; ops[a].live = 1;
		ev("\"e\":\"AcStart\",\"s\":%d,\"fd\":%d", a, c);
		if (!(ops[a].ck = network_accept(c, cb_ac, (void *)(intptr_t)a))) ev("\"e\":\"StartFailed\"");
		break;
	case 'k':
		if (ops[a].live || coslot >= 0) return;
		sscanf(w + 1, ":%d:%d:%[a-z]:%d:%d", &a, &b, types, &d, &e);
		if (types[0] == '-' ) types[0] = 0;
		strcpy(cotypes, types);
		coslot = a; coaddr = 0;
		cowantb = d == 1;
		codeadline_on = d == 2 ? e : 0;
		codeadline = 1LL << 60;
		n = (int)strlen(types);
		for (i = 0; i < n; i++) coas[i] = mkaddr(1000 + i);
		coas[n] = NULL;
		if (!src) src = mkaddr(777);
		ops[a].k = 'k'; ops[a].h = b; ops[a].fd = -1; ops[a].live = 1;
		ev("\"e\":\"CoStart\",\"s\":%d,\"n\":%d,\"tmo\":%d", a, n, codeadline_on);
		tv.tv_sec = e / 1000000; tv.tv_usec = e % 1000000;
		ops[a].ck = d == 0 ? network_connect(coas, cb_co, (void *)(intptr_t)a) :
		    d == 1 ? network_connect_bind(coas, src, cb_co, (void *)(intptr_t)a) :
		    network_connect_timeo(coas, &tv, cb_co, (void *)(intptr_t)a);
		if (!ops[a].ck) ev("\"e\":\"StartFailed\"");
		break;
	case 'c':
		if (!ops[a].live) return;
		nclosed = 0;
		if (ops[a].k == 'r') network_read_cancel(ops[a].ck), free(ops[a].buf);
		if (ops[a].k == 'w') network_write_cancel(ops[a].ck), free(ops[a].buf);
		if (ops[a].k == 'a') network_accept_cancel(ops[a].ck);
		if (ops[a].k == 'k') network_connect_cancel(ops[a].ck), freeco();
		ops[a].live = 0;
		n = nclosed; nclosed = -1;
		fprintf(out, "%s{\"e\":\"Cancel\",\"s\":%d,\"closed\":[", firstev ? "" : ",", a);
		firstev = 0;
		for (i = 0; i < n; i++) fprintf(out, "%s%d", i ? "," : "", closed[i]);
		fprintf(out, "]}");
		break;
	case 'N':
		if (nbs[a].live || busy(c, 0)) return;
		nbs[a].R = netbuf_read_init(c);
		nbs[a].live = 1; nbs[a].h = b; nbs[a].fd = c; nbs[a].w = 0; nbs[a].con = rcvd[c];
		ev("\"e\":\"NbInit\",\"s\":%d,\"fd\":%d", a, c);
		break;
	case 'W':
		if (!nbs[a].live || nbs[a].w) return;
		nbs[a].w = 1;
		i = netbuf_read_wait(nbs[a].R, b, cb_nb, (void *)(intptr_t)a) == 0;
		ev("\"e\":\"NbWait\",\"s\":%d,\"len\":%d,\"ok\":%d", a, b, i);
		break;
	case 'P':
		if (!nbs[a].live) return;
		netbuf_read_peek(nbs[a].R, &p, &len);
		for (n = 1, i = 0; i < (int)len; i++) if (p[i] != pat(nbs[a].fd, nbs[a].con + i)) n = 0;
		ev("\"e\":\"NbPeek\",\"s\":%d,\"n\":%d,\"lo\":%d,\"good\":%d", a, (int)len, nbs[a].con, n);
		break;
	case 'C':
		if (!nbs[a].live || nbs[a].w) return;
		netbuf_read_peek(nbs[a].R, &p, &len);
		n = b < (int)len ? b : (int)len;
		netbuf_read_consume(nbs[a].R, n);
		nbs[a].con += n;
		ev("\"e\":\"NbConsume\",\"s\":%d,\"n\":%d", a, n);
		break;
	case 'X':
		if (!nbs[a].live) return;
		netbuf_read_wait_cancel(nbs[a].R);
		nbs[a].w = 0;
		ev("\"e\":\"NbCancel\",\"s\":%d", a);
		break;
	case 'Z':
		if (!nbs[a].live || nbs[a].w) return;
		netbuf_read_free(nbs[a].R);
		nbs[a].live = 0;
		ev("\"e\":\"NbFree\",\"s\":%d", a);
		break;
	case 'q': push(&inq[a], items); break;
	case 's': push(&outq[a], items); break;
	case 'Q': case 'S':
		later[nlater].fd = a; later[nlater].out = w[0] == 'S';
		strncpy(later[nlater].items, items, 399);
		if (nlater < 198) nlater++;
		break;
	case 'A': now += a; codue();
		break;
	}
}

static void
script(char * line)
{
	char * w, * sv;
	int i, h, rc;
	char * top[NW];
	int ntop = 0, zero = 0;

	for (w = strtok_r(line, " \n", &sv); w && ntok < NW; w = strtok_r(NULL, " \n", &sv))
		tok[ntok++] = w;
	for (i = 1; i < ntok; i++) {
		if (tok[i][0] == '{') {
			h = atoi(tok[i + 1]);
			hnd[h].lo = i + 2;
			for (i += 2; i < ntok && tok[i][0] != '}'; i++)
				;
			hnd[h].hi = i;
		} else
			top[ntop++] = tok[i];
	}
	fprintf(out, "{\"id\":\"%s\",\"ev\":[", tok[0]);
	switch (setjmp(bail)) {
	case 0:
		for (i = 0; i < ntop; i++) {
			npoll = 0;
			if (strcmp(top[i], "R") == 0) {
				if ((rc = events_spin(&zero)) != 0 && coslot >= 0 && strchr(cotypes, 'g'))
					longjmp(bail, 4);	/* fatal error, reported by the loop */
				ev("\"e\":\"Stopped\",\"rc\":%d", rc);
			} else if (strcmp(top[i], "r1") == 0) {
				/* Do not wait: only run if something is ready. */
				int k, any = 0;
				for (k = 0; k < NFD; k++) any |= canread(k) || canwrite(k);
				if (any && events_run() != 0 && coslot >= 0 && strchr(cotypes, 'g'))
					longjmp(bail, 4);
			} else
				op(top[i]);
		}
		break;
	case 1:
		nev = -1000000;
		ev("\"e\":\"Cut\"");
		break;
	case 3:
		nev = -1000000;
		ev("\"e\":\"Spin\"");
		break;
	}
}

int
main(int argc, char ** argv)
{
	static char line[1 << 20];
	FILE * in = fopen(argv[1], "r");
	FILE * o = fopen(argv[2], "w");
	int st;

	while (fgets(line, sizeof(line), in)) {
		char * buf;
		size_t len;
		FILE * tmp = tmpfile();
		pid_t p;
		if ((p = fork()) == 0) {
			alarm(20);
			freopen("/dev/null", "w", stderr);
			out = tmp;
			setvbuf(out, NULL, _IOFBF, 1 << 16);
			script(line);
			fflush(out);
			_exit(0);
		}
		waitpid(p, &st, 0);
		len = lseek(fileno(tmp), 0, SEEK_END);
		buf = malloc(len + 1);
		pread(fileno(tmp), buf, len, 0);
		fclose(tmp);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			fwrite(buf, 1, len, o);
			fputs("]}\n", o);
		} else {
			char id[64];
			sscanf(line, "%63s", id);
			fprintf(o, "{\"id\":\"%s\",\"ev\":[{\"e\":\"Died\",\"sig\":%d}]}\n", id,
			    WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st));
		}
		free(buf);
	}
	fclose(o);
	return (0);
}
