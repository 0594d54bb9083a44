/*
 * Driver for the event loop: runs scripts against the real libcperciva/events
 * with its own clock and poll, and records what happens.
 *
 * usage: ev IN OUT      one script per line, one JSON trace per line
 *
 * A script is a list of words separated by spaces:
 *   { H rc op op ... }   handler H: performs the operations, returns rc
 *   top-level operations, executed in order.
 * Operations (colon-separated fields):
 *   I:slot:h:prio  i:slot          register / cancel an immediate event
 *   N:fd:op:h      n:fd:op         register / cancel a network event
 *   T:slot:h:sec:usec  D:slot:h:seconds (double)  t:slot (cancel) r:slot (reset)
 *   A:usec         the clock advances
 *   F:fd:mask      readiness of fd becomes mask (1 in, 2 out, 4 hup, 8 err)
 *   X              events_interrupt()
 *   O              set the flag events_spin() waits for
 *   R  S           (top level) events_run, events_spin
 *   B:usec[:fd:mask]  (top level) queue what happens during a blocking poll:
 *                  after usec, fd gets mask; B:usec:-1:0 a signal; B:usec:-2:0 a
 *                  signal whose handler calls events_interrupt()
 *   K:tick:cost    µs by which reading the clock / polling advances it
 */
#define _GNU_SOURCE
#include <sys/time.h>
#include <sys/wait.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "events.h"

static FILE * out;
static long long now = 1000000000LL;	/* µs */
static long long base;
static int tick, cost, firstev = 1, nev, npoll;
static jmp_buf bail;

#define MAXEV 1500
static void
ev(const char * fmt, ...)
{
	va_list ap;
	long long t = now - base;

	fprintf(out, "%s{\"t\":[%lld,%lld],", firstev ? "" : ",", t / 1000000, t % 1000000);
	firstev = 0;
	va_start(ap, fmt);
	vfprintf(out, fmt, ap);
	va_end(ap);
	fputc('}', out);
	if (++nev > MAXEV)
		longjmp(bail, 1);
}

/* Simulated clock and poll. */
int
sim_clock_gettime(clockid_t c, struct timespec * ts)
{
	(void)c;
	now += tick;
	ts->tv_sec = now / 1000000;
	ts->tv_nsec = (now % 1000000) * 1000 + (now * 7919) % 1000;
	return (0);
}
int sim_gettimeofday(struct timeval * tv, void * z)
{ now += tick; tv->tv_sec = now / 1000000; tv->tv_usec = now % 1000000; return (0); }
int sim_clock_getres(clockid_t c, struct timespec * ts)
{ if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return (0); }

#define NFD 2048
static unsigned char ready[NFD];
static struct { long long us; int fd, mask; } blk[256];
static int nblk, iblk;

int
sim_poll(struct pollfd * fds, nfds_t n, int timeout)
{
	nfds_t i;
	int r, first;
	long long el = 0;

	if (++npoll > 20000)
		longjmp(bail, 1);
	fprintf(out, "%s{\"t\":[%lld,%lld],\"e\":\"PollCall\",\"tmo\":%d,\"asked\":[", firstev ? "" : ",",
	    (now - base) / 1000000, (now - base) % 1000000, timeout);
	firstev = 0;
	for (first = 1, i = 0; i < n; i++) {
		if (fds[i].fd < 0)
			continue;
		if (fds[i].events & POLLIN) fprintf(out, "%s[%d,0]", first ? "" : ",", fds[i].fd), first = 0;
		if (fds[i].events & POLLOUT) fprintf(out, "%s[%d,1]", first ? "" : ",", fds[i].fd), first = 0;
	}
	fprintf(out, "]}");
	if (++nev > MAXEV)
		longjmp(bail, 1);
	now += cost;
again:
	r = 0;
	for (i = 0; i < n; i++) {
		int m;
		fds[i].revents = 0;
		if (fds[i].fd < 0)
			continue;
		m = ready[fds[i].fd];
		if ((m & 1) && (fds[i].events & POLLIN)) fds[i].revents |= POLLIN;
		if ((m & 2) && (fds[i].events & POLLOUT)) fds[i].revents |= POLLOUT;
		if (m & 4) fds[i].revents |= POLLHUP;
		if (m & 8) fds[i].revents |= POLLERR;
		if (fds[i].revents)
			r++;
	}
	if (r == 0 && timeout != 0) {
		/* Something happens while we wait. */
		long long left = timeout < 0 ? -1 : (long long)timeout * 1000 - el;
		if (iblk < nblk && (left < 0 || blk[iblk].us <= left)) {
			now += blk[iblk].us;
			el += blk[iblk].us;
			iblk++;
			if (blk[iblk - 1].fd < 0) {
				if (blk[iblk - 1].fd == -2)
					events_interrupt();
				ev("\"e\":\"PollEintr\",\"intr\":%d", blk[iblk - 1].fd == -2);
				errno = EINTR;
				return (-1);
			}
			ready[blk[iblk - 1].fd] = blk[iblk - 1].mask;
			goto again;
		}
		if (left < 0) {
			ev("\"e\":\"Hang\"");
			longjmp(bail, 2);
		}
		now += left;
	}
	fprintf(out, ",{\"t\":[%lld,%lld],\"e\":\"PollRet\",\"res\":[", (now - base) / 1000000, (now - base) % 1000000);
	for (first = 1, i = 0; i < n; i++) {
		if (fds[i].revents & POLLIN) fprintf(out, "%s[%d,0]", first ? "" : ",", fds[i].fd), first = 0;
		if (fds[i].revents & POLLOUT) fprintf(out, "%s[%d,1]", first ? "" : ",", fds[i].fd), first = 0;
	}
	fprintf(out, "],\"hs\":[");
	for (first = 1, i = 0; i < n; i++)
		if (fds[i].revents & (POLLHUP | POLLERR)) fprintf(out, "%s%d", first ? "" : ",", fds[i].fd), first = 0;
	fprintf(out, "]}");
	nev++;
	return (r);
}

/* Scripts. */
#define NW 4000
static char * tok[NW];
static int ntok;
static struct { int lo, hi, rc; } hnd[64];
#define NS 4096
static struct { char live; void * ck; int h; } is[NS], ts[NS];
static int neth[NFD][2];
static int doneflag;
struct evc { int kind, a, b; };
static void op(const char *, int);

static int
runhandler(int h)
{
	int i, rc = 0;

	if (h >= 0 && h < 64 && hnd[h].hi) {
		for (i = hnd[h].lo; i < hnd[h].hi; i++)
			op(tok[i], 0);
		rc = hnd[h].rc;
	}
	ev("\"e\":\"HRet\",\"rc\":%d", rc);
	return (rc);
}
static int
cb(void * cookie)
{
	struct evc c = *(struct evc *)cookie;

	/* The record of the registration stays allocated: stale deliveries are seen. */
	if (c.kind == 0) {
		ev("\"e\":\"FireImm\",\"s\":%d", c.a);
		is[c.a].live = 0;
		return (runhandler(is[c.a].h));
	} else if (c.kind == 1) {
		ev("\"e\":\"FireNet\",\"f\":%d,\"o\":%d", c.a, c.b);
		return (runhandler(neth[c.a][c.b]));
	}
	ev("\"e\":\"FireTimer\",\"s\":%d", c.a);
	ts[c.a].live = 0;
	return (runhandler(ts[c.a].h));
}
static void *
mk(int k, int a, int b)
{
	struct evc * c = malloc(sizeof(struct evc));
	c->kind = k; c->a = a; c->b = b;
	return (c);
}
static const char *
en(void)
{
	return (errno == EEXIST ? "EEXIST" : errno == ENOENT ? "ENOENT" : "other");
}

static void
op(const char * w, int top)
{
	int a = 0, b = 0, c = 0, d = 0, rc, before, h;
	long long t0 = now - base;
	struct timeval tv;
	double x;

	sscanf(w + 1, ":%d:%d:%d:%d", &a, &b, &c, &d);
	switch (w[0]) {
	case 'I':
		if (is[a].live) return;
		is[a].h = b;
		is[a].ck = events_immediate_register(cb, mk(0, a, 0), c);
		is[a].live = is[a].ck != NULL;
		ev("\"e\":\"RegImm\",\"s\":%d,\"p\":%d,\"ok\":%d", a, c, is[a].live);
		break;
	case 'i':
		if (!is[a].live) return;
		events_immediate_cancel(is[a].ck);
		is[a].live = 0;
		ev("\"e\":\"CanImm\",\"s\":%d", a);
		break;
	case 'N':
		errno = 0;
		rc = events_network_register(cb, mk(1, a, b), a, b);
		if (rc == 0) neth[a][b] = c;
		ev("\"e\":\"RegNet\",\"f\":%d,\"o\":%d,\"ok\":%d,\"err\":\"%s\"", a, b, rc == 0, en());
		break;
	case 'n':
		errno = 0;
		rc = events_network_cancel(a, b);
		ev("\"e\":\"CanNet\",\"f\":%d,\"o\":%d,\"ok\":%d,\"err\":\"%s\"", a, b, rc == 0, en());
		break;
	case 'T':
	case 'D':
		if (ts[a].live) return;
		ts[a].h = b;
		if (w[0] == 'T') {
			tv.tv_sec = c; tv.tv_usec = d;
			ts[a].ck = events_timer_register(cb, mk(2, a, 0), &tv);
			ts[a].live = ts[a].ck != NULL;
			ev("\"e\":\"RegTimer\",\"s\":%d,\"ivl\":[%d,%d],\"ivh\":[%d,%d],\"t0\":[%lld,%lld],\"ok\":%d", a, c, d, c, d,
			    t0 / 1000000, t0 % 1000000, ts[a].live);
		} else {
			long s1, u1, s2, u2;
			x = strtod(strchr(strchr(w + 2, ':') + 1, ':') + 1, NULL);
			ts[a].ck = events_timer_register_double(cb, mk(2, a, 0), x);
			ts[a].live = ts[a].ck != NULL;
			if (x >= 1e9) {
				s1 = s2 = 1000000000; u1 = u2 = 0; s2 += 100000000;
			} else {
				long long u = (long long)floor(x * 1e6);
				long long l = u > 0 ? u - 1 : 0;
				s1 = l / 1000000; u1 = l % 1000000;
				u++;
				s2 = u / 1000000; u2 = u % 1000000;
			}
			ev("\"e\":\"RegTimer\",\"s\":%d,\"ivl\":[%ld,%ld],\"ivh\":[%ld,%ld],\"t0\":[%lld,%lld],\"ok\":%d", a, s1, u1, s2, u2,
			    t0 / 1000000, t0 % 1000000, ts[a].live);
		}
		break;
	case 't':
		if (!ts[a].live) return;
		events_timer_cancel(ts[a].ck);
		ts[a].live = 0;
		ev("\"e\":\"CanTimer\",\"s\":%d", a);
		break;
	case 'r':
		if (!ts[a].live) return;
		rc = events_timer_reset(ts[a].ck);
		ev("\"e\":\"ResetTimer\",\"s\":%d,\"t0\":[%lld,%lld],\"ok\":%d", a, t0 / 1000000, t0 % 1000000, rc == 0);
		break;
	case 'A':
		now += a;
		ev("\"e\":\"Advance\"");
		break;
	case 'F':
		ready[a] = b;
		break;
	case 'X':
		if (top) return;
		events_interrupt();
		ev("\"e\":\"Interrupt\"");
		break;
	case 'O':
		if (top) return;
		doneflag = 1;
		ev("\"e\":\"SetDone\"");
		break;
	case 'R':
	case 'S':
		if (!top) return;
		doneflag = 0;
		ev("\"e\":\"Begin\",\"k\":\"%s\"", w[0] == 'R' ? "run" : "spin");
		npoll = 0;
		rc = w[0] == 'R' ? events_run() : events_spin(&doneflag);
		ev("\"e\":\"End\",\"rc\":%d", rc);
		break;
	case 'B':
		if (nblk < 256) {
			blk[nblk].us = a; blk[nblk].fd = b; blk[nblk].mask = c;
			nblk++;
		}
		break;
	case 'K':
		tick = a; cost = b;
		break;
	}
}

static void
script(char * line)
{
	char * w, * sv;
	int i, h;
	char * top[NW];
	int ntop = 0;

	for (w = strtok_r(line, " \n", &sv); w && ntok < NW; w = strtok_r(NULL, " \n", &sv))
		tok[ntok++] = w;
	for (i = 1; i < ntok; i++) {
		if (tok[i][0] == '{') {
			h = atoi(tok[i + 1]);
			hnd[h].rc = atoi(tok[i + 2]);
			hnd[h].lo = i + 3;
			for (i += 3; i < ntok && tok[i][0] != '}'; i++)
				;
			hnd[h].hi = i;
		} else
			top[ntop++] = tok[i];
	}
	base = now;
	fprintf(out, "{\"id\":\"%s\",\"ev\":[", tok[0]);
	switch (setjmp(bail)) {
	case 0:
		for (i = 0; i < ntop; i++)
			op(top[i], 1);
		break;
	case 1:
		nev = -1000000;
		ev("\"e\":\"%s\"", npoll > 20000 ? "Spin" : "Cut");
		break;
	}
}

int
main(int argc, char ** argv)
{
	static char line[1 << 20];
	FILE * in = fopen(argv[1], "r");
	FILE * o = fopen(argv[2], "w");
	int st;

	signal(SIGALRM, SIG_DFL);
	while (fgets(line, sizeof(line), in)) {
		char * buf = NULL;
		size_t len = 0;
		FILE * tmp = tmpfile();
		pid_t p;
		if ((p = fork()) == 0) {
			alarm(20);
			freopen("/dev/null", "w", stderr);
			out = tmp;
			setvbuf(out, NULL, _IOFBF, 1 << 16);
			script(line);
			fflush(out);
			_exit(0);
		}
		waitpid(p, &st, 0);
		/* What the child wrote, closed properly. */
		len = lseek(fileno(tmp), 0, SEEK_END);
		buf = malloc(len + 1);
		pread(fileno(tmp), buf, len, 0);
		fclose(tmp);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			fwrite(buf, 1, len, o);
			fputs("]}\n", o);
		} else {
			/* The trace may be incomplete: only the end matters. */
			char id[64];
			sscanf(line, "%63s", id);
			fprintf(o, "{\"id\":\"%s\",\"ev\":[{\"t\":[0,0],\"e\":\"Died\",\"sig\":%d}]}\n", id,
			    WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st));
		}
		free(buf);
	}
	fclose(o);
	return (0);
}
