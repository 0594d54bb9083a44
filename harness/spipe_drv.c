/*
 * The real spipe program against a reference peer: standard input and output
 * are pipes held by this driver, the target is a socket of this driver.
 * read() and write() are those of the pushing threads (short transfers,
 * interruptions, delays and errors are injected there only).
 */
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "simos.h"

extern int prog_main(int, char **);

/* ------------------------------------------------- inside the program */
static struct shared { volatile int rfail, wfail; } * sh;
static int frate, rerr, werr, inkid;
static unsigned fseed;
static __thread unsigned trng;
static pthread_t mainth;

static unsigned
rn(unsigned m)
{
	if (trng == 0)
		trng = fseed * 2654435761u + (unsigned)syscall(SYS_gettid) % 3 * 40503u + 1;
	trng ^= trng << 13; trng ^= trng >> 17; trng ^= trng << 5;
	return (trng % m);
}

static int
pusher(void)
{
	return (inkid && !pthread_equal(pthread_self(), mainth));
}

static void
dawdle(void)
{
	if (frate && rn(100) < (unsigned)frate && rn(3) == 0)
		usleep(rn(4) ? rn(300) : rn(4000));
}

ssize_t
sim_read(int fd, void * b, size_t n)
{
	static int k;

	if (!pusher())
		return (read(fd, b, n));
	dawdle();
	if (fd == 0 && rerr && ++k == rerr) {
		sh->rfail = 1;
		errno = EIO;
		return (-1);
	}
	if (frate && rn(100) < (unsigned)frate) {
		if (rn(3) == 0) {
			errno = EINTR;
			return (-1);
		}
		if (n > 1)
			n = 1 + rn(n > 16 && rn(2) ? 16 : (unsigned)n);
	}
	return (read(fd, b, n));
}

ssize_t
sim_write(int fd, const void * b, size_t n)
{
	static int k;

	if (!pusher())
		return (write(fd, b, n));
	dawdle();
	if (fd == 1 && werr && ++k == werr) {
		sh->wfail = 1;
		errno = rn(2) ? ENOSPC : EIO;
		return (-1);
	}
	if (frate && rn(100) < (unsigned)frate) {
		if (rn(3) == 0) {
			errno = EINTR;
			return (-1);
		}
		if (n > 1)
			n = 1 + rn(n > 16 && rn(2) ? 16 : (unsigned)n);
	}
	return (write(fd, b, n));
}

/* ------------------------------------------------------------ the log */
static FILE * fo;
static int nev, nlogfail;

static void
put(const char * f, ...)
{
	va_list ap;

	fprintf(fo, "%s{", nev++ ? "," : "");
	va_start(ap, f);
	vfprintf(fo, f, ap);
	va_end(ap);
	fprintf(fo, "}");
}

#define lg(...) do {							\
	if ((sh->rfail || sh->wfail) && !nlogfail) {			\
		nlogfail = 1;						\
		put("\"e\":\"IoFail\",\"err\":1");			\
	}								\
	put(__VA_ARGS__);						\
} while (0)

/* ------------------------------------------------------------- a script */
static int infd, outfd, ls, c, pid, seed, gone, g_g, spoilt, refuse, sig, stdoutgone, hsst, insq;
static long inq, inpos, outpos, gotpos, sentpos, sentbytes;
static int ineof, inclosed, outread, peerread, sendeofq, sendeofd, goteof, exited, exrc, nohup;
static uint8_t * oq;
static size_t oqn, oqp, oqa;
static uint8_t ib[1060];
static size_t ibn;
static uint64_t onum, inum;
static uint8_t eh_c[64], eh_s[64], K[32];
static char dir[] = "/tmp/spdXXXXXX", path[128], keyf[128], tgt[160];

static uint8_t
pat(int which, long i)
{
	uint32_t h = (uint32_t)i * 2654435761u + (uint32_t)which * 97 + (uint32_t)seed * 7919;

	return ((uint8_t)(h >> 13 ^ h >> 24));
}

static double
now(void)
{
	struct timespec t;

	clock_gettime(CLOCK_MONOTONIC, &t);
	return (t.tv_sec + t.tv_nsec / 1e9);
}

static void
oput(const uint8_t * b, size_t n)
{
	if (oqn + n > oqa)
		oq = realloc(oq, oqa = oqn + n + 65536);
	memcpy(oq + oqn, b, n);
	oqn += n;
}

static void
gotbytes(void)
{
	uint8_t m[1024];
	int len, i, good;

	if (ibn < 1060)
		return;
	ibn = 0;
	len = ref_unpkt(eh_c, inum++, ib, m);
	if (len < 1) {
		lg("\"e\":\"Got\",\"n\":0,\"lo\":-1,\"good\":0");
		return;
	}
	for (good = 1, i = 0; i < len; i++)
		if (m[i] != pat(0, gotpos + i))
			good = 0;
	lg("\"e\":\"Got\",\"n\":%d,\"lo\":%ld,\"good\":%d", len, gotpos, good);
	gotpos += len;
}

/* Read what the peer's socket has; returns 0 when there is nothing now. */
static int
rdpeer(void)
{
	ssize_t r;

	if (c == -1 || goteof || hsst != 1)
		return (0);
	r = recv(c, ib + ibn, 1060 - ibn, MSG_DONTWAIT);
	if (r > 0) {
		ibn += r;
		gotbytes();
		return (1);
	}
	if (r == -1 && (errno == EAGAIN || errno == EINTR))
		return (0);
	goteof = 1;
	lg("\"e\":\"GotEof\",\"clean\":%d", r == 0 && ibn == 0);
	return (1);
}

static int
rdout(void)
{
	uint8_t b[3000];
	ssize_t r, i;
	int good = 1;

	if (outfd == -1)
		return (0);
	r = read(outfd, b, sizeof(b));
	if (r > 0) {
		for (i = 0; i < r; i++)
			if (b[i] != pat(1, outpos + i))
				good = 0;
		lg("\"e\":\"Out\",\"n\":%zd,\"lo\":%ld,\"good\":%d", r, outpos, good);
		outpos += r;
		return (1);
	}
	if (r == 0) {
		close(outfd);
		outfd = -1;
	}
	return (0);
}

static void
closein(void)
{
	if (infd != -1) {
		close(infd);
		infd = -1;
		lg("\"e\":\"StdinEof\"");
	}
}

static int
smooth(void)
{
	return (hsst == 1 && infd == -1 && sendeofd && !spoilt && !gone && !stdoutgone && !sig);
}

static int
must(void)
{
	return (smooth() || sig || hsst == 2 || refuse || spoilt || sh->rfail || sh->wfail);
}

static int
settled(void)
{
	return (inq == 0 && gotpos == inpos && outpos == sentpos && oqp == oqn &&
	    (infd != -1 || goteof));
}

static void
drain(void)
{
	while (rdout())
		;
	while (rdpeer())
		;
}

enum { FOR, SETTLE, EXIT, FLUSH };

static void
pump(double sec, int until)
{
	double end = now() + sec;
	struct pollfd p[3];
	uint8_t b[4096];
	ssize_t r, i;
	int n, ki, ko, kc, st, ms, it = 0;

	for (;;) {
		if (!exited && waitpid(pid, &st, WNOHANG) == pid) {
			exited = 1;
			exrc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
			drain();
			lg("\"e\":\"Exit\",\"rc\":%d", exrc);
		}
		if (exited)
			return;
		if (until == SETTLE && settled())
			return;
		if (until == FLUSH && oqp == oqn)
			return;
		if (it++ && now() >= end)
			return;
		if (ineof && inq == 0)
			closein();
		n = 0;
		ki = ko = kc = -1;
		if (infd != -1 && inq > 0)
			p[ki = n++] = (struct pollfd){infd, POLLOUT, 0};
		if (outfd != -1 && outread)
			p[ko = n++] = (struct pollfd){outfd, POLLIN, 0};
		if (c != -1 && hsst == 1) {
			p[kc = n++] = (struct pollfd){c, (peerread && !goteof ? POLLIN : 0) | (oqp < oqn ? POLLOUT : 0), 0};
			if (p[kc].events == 0)
				n--, kc = -1;
		}
		ms = (int)((end - now()) * 1000) + 1;
		if (ms > 5 || ms < 0)
			ms = 5;
		poll(p, n, ms);
		if (ki >= 0 && p[ki].revents) {
			for (i = 0; i < inq && i < (long)sizeof(b); i++)
				b[i] = pat(0, inpos + i);
			/* the log must know of them before the peer sees them:
			 * the peer's socket is read by this thread too */
			r = write(infd, b, i);
			if (r > 0) {
				lg("\"e\":\"Stdin\",\"n\":%zd", r);
				inpos += r;
				inq -= r;
			} else if (r == -1 && errno != EAGAIN)
				inq = 0;	/* nobody reads any more */
		}
		if (ko >= 0 && p[ko].revents)
			rdout();
		if (kc >= 0) {
			if (p[kc].revents & POLLOUT) {
				r = send(c, oq + oqp, oqn - oqp, MSG_DONTWAIT | MSG_NOSIGNAL);
				if (r > 0)
					oqp += r;
				else if (errno != EAGAIN)
					oqp = oqn;
			}
			if ((p[kc].revents & (POLLIN | POLLHUP | POLLERR)) && peerread)
				rdpeer();
		}
		if (sendeofq && !sendeofd && oqp == oqn && c != -1) {
			sendeofd = 1;
			shutdown(c, SHUT_WR);
		}
	}
}

static int
full(int w, uint8_t * b, size_t n)
{
	size_t k = 0;
	ssize_t r;

	while (k < n) {
		r = w ? send(c, b + k, n - k, MSG_NOSIGNAL) : recv(c, b + k, n - k, 0);
		if (r <= 0)
			return (-1);
		k += r;
	}
	return (0);
}

static void
hsresult(int ok)
{
	if (hsst == 0) {
		lg("\"e\":\"Hs\",\"ok\":%d", ok);
		hsst = ok ? 1 : 2;
	}
}

/* Accept and shake hands in the manner k. */
static void
handshake(char k)
{
	uint8_t cn[32], sn[32], mc[32], ms[32], y[256], x[32], d[288], pd[288], h[32], ysc[256], dk2[128], kk[32];
	struct pollfd p = {ls, POLLIN, 0};
	int i, one, first = (seed >> 3) & 1;
	struct timeval tv = {10, 0};

	if (poll(&p, 1, 10000) != 1 || (c = accept(ls, NULL, NULL)) == -1) {
		c = -1;
		return;
	}
	setsockopt(c, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
	if (k == 'X') {
		hsresult(0);
		close(c);
		c = -1;
		return;
	}
	for (i = 0; i < 32; i++) {
		sn[i] = pat(5, i);
		x[i] = pat(6, i);
	}
	if (full(1, sn, 32) || full(0, cn, 32))
		return;
	memcpy(kk, K, 32);
	if (k == 'K') {
		kk[7] ^= 1;
		hsresult(0);
	}
	if (k == 'S') {
		hsresult(0);
		return;
	}
	ref_dk1(kk, cn, sn, mc, ms);
	memset(y, 0, 256);
	if (k == '1')
		y[255] = 1;
	else
		ref_dh_pub(x, y);
	memcpy(d, y, 256);
	ref_hmac(ms, 32, y, 256, d + 256);
	if (k == 'T') {
		d[(seed * 37) % 288] ^= 1 << (seed & 7);
		hsresult(0);
	}
	if (k == 'H') {
		hsresult(0);
		full(1, d, 100);
		close(c);
		c = -1;
		return;
	}
	if (k == '1' && g_g)
		hsresult(0);
	if (first && full(1, d, 288))
		return;
	if (full(0, pd, 288))
		return;
	ref_hmac(mc, 32, pd, 256, h);
	if (k != 'K' && memcmp(h, pd + 256, 32)) {
		lg("\"e\":\"BadPeer\"");
		return;
	}
	if (!first && full(1, d, 288))
		return;
	for (one = 1, i = 0; i < 255; i++)
		if (pd[i])
			one = 0;
	if (one || k == '1') {
		memset(ysc, 0, 256);
		ysc[255] = 1;
	} else
		ref_dh_shared(pd, x, ysc);
	ref_dk2(kk, cn, sn, ysc, dk2);
	memcpy(eh_c, dk2, 64);
	memcpy(eh_s, dk2 + 64, 64);
	fcntl(c, F_SETFL, O_NONBLOCK);
	hsresult(1);
}

static void
sendpkt(int len)
{
	uint8_t m[1024], o[1060];
	int i;

	for (i = 0; i < len; i++)
		m[i] = pat(1, sentpos + i);
	ref_pkt(eh_s, onum++, m, len, len, o);
	lg("\"e\":\"Send\",\"n\":%d", len);
	sentpos += len;
	oput(o, 1060);
}

static double patience = 12;
static int idled;

static void
finish(void)
{
	if (idled)
		return;
	outread = peerread = 1;
	if (!must())
		pump(0.04, EXIT);
	if (must())		/* may have become so */
		pump(patience, EXIT);
	if (exited)
		return;
	if (must() && patience > 3)
		patience /= 2;	/* something is wrong: do not wait so long again */
	lg("\"e\":\"Idle\"");
	idled = 1;
}

static void
op(const char * w)
{
	uint8_t b[1060];
	char k = w[0];
	long v = atol(w + 1);
	int i;

	if (exited || idled)
		return;
	switch (k) {
	case 'i': if (infd != -1 && !ineof) inq += v; pump(0, FOR); break;
	case 'I': ineof = 1; pump(0, FOR); break;
	case 'a': handshake(w[1]); break;
	case 'p':
		if (hsst == 1 && c != -1 && !sendeofq && !nohup) {
			while (v > 0) {
				i = v > 1024 ? 1024 : (int)v;
				sendpkt(i);
				v -= i;
			}
			pump(0, FOR);
		}
		break;
	case 'q':	/* many packets of one byte */
		if (hsst == 1 && c != -1 && !sendeofq && !nohup) {
			while (v-- > 0)
				sendpkt(1);
			pump(0, FOR);
		}
		break;
	case 'P':
		if (c != -1 && hsst == 1 && !sendeofq) {
			lg("\"e\":\"SendEof\"");
			sendeofq = 1;
			pump(0.001, FOR);
		}
		break;
	case 'x':
		if (hsst == 1 && c != -1 && !sendeofq && !nohup) {
			memset(b, 0, 1060);
			for (i = 0; i < 100; i++)
				b[i] = pat(1, sentpos + i);
			if (v == 5)		/* sealed, but of an illegal length */
				ref_pkt(eh_s, onum, b, 0, 0, b);
			else if (v == 6)
				ref_pkt(eh_s, onum, b, 1024, 1025, b);
			else if (v == 7)	/* out of sequence */
				ref_pkt(eh_s, onum + 1, b, 100, 100, b);
			else if (v == 8)	/* reflected direction */
				ref_pkt(eh_c, onum, b, 100, 100, b);
			else {
				ref_pkt(eh_s, onum, b, 100, 100, b);
				b[(v * 211 + seed) % 1060] ^= 4;
			}
			lg("\"e\":\"Spoil\"");
			spoilt = nohup = 1;
			oput(b, 1060);
			pump(0, FOR);
		}
		break;
	case 'y':
		if (hsst == 1 && c != -1 && !sendeofq && !nohup) {
			for (i = 0; i < 300; i++)
				b[i] = pat(1, sentpos + i);
			ref_pkt(eh_s, onum, b, 300, 300, b);
			oput(b, v > 0 && v < 1060 ? v : 500);
			nohup = 1;
			pump(0, FOR);
		}
		break;
	case 'R':
	case 'C':
		if (c == -1)
			break;
		pump(2, FLUSH);
		if (exited)
			break;
		if (!(goteof && sendeofd && oqp == oqn)) {
			lg("\"e\":\"Gone\",\"fl\":%d", k == 'C' && oqp == oqn);
			gone = 1;
		}
		if (k == 'R') {
			struct linger l = {1, 0};
			setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
		}
		close(c);
		c = -1;
		break;
	case 'r': pump(v / 1000.0, FOR); break;
	case 'w':
		outread = peerread = 1;
		if (hsst != 1 || spoilt || gone || sig || stdoutgone || nohup)
			pump(0.02, FOR);
		else {
			pump(patience, SETTLE);
			if (!exited && !settled() && patience > 3)
				patience /= 2;
			if (!exited)
				lg("\"e\":\"Settled\"");
		}
		break;
	case 'o': outread = v; break;
	case 'h': peerread = v; break;
	case 'O':
		if (outfd != -1) {
			lg("\"e\":\"IoFail\",\"err\":0");
			stdoutgone = 1;
			close(outfd);
			outfd = -1;
		}
		break;
	case 'T':
		if (hsst == 0)
			pump(0.15, FOR);
		if (!exited) {
			lg("\"e\":\"Sig\"");
			sig = 1;
			kill(pid, SIGTERM);
		}
		break;
	case 'E': finish(); break;
	}
}

static void
listener(int tcp, int none)
{
	struct sockaddr_un un = {AF_UNIX};
	struct sockaddr_in sin = {AF_INET};
	socklen_t l = sizeof(sin);

	if (tcp) {
		ls = socket(AF_INET, SOCK_STREAM, 0);
		sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (bind(ls, (void *)&sin, sizeof(sin)) || getsockname(ls, (void *)&sin, &l))
			exit(3);
		snprintf(tgt, sizeof(tgt), "[127.0.0.1]:%d", ntohs(sin.sin_port));
	} else {
		unlink(path);
		ls = socket(AF_UNIX, SOCK_STREAM, 0);
		strcpy(un.sun_path, path);
		if (bind(ls, (void *)&un, sizeof(un)))
			exit(3);
		snprintf(tgt, sizeof(tgt), "%s", path);
	}
	if (!none && listen(ls, 5))
		exit(3);
	fcntl(ls, F_SETFD, FD_CLOEXEC);
}

static void
script(char * line)
{
	char * id, * w, * sp = NULL, * av[24], oarg[20];
	int ac = 0, pi[2], po[2], tcp = 0, f = 0, j = 0, o = 0, nul, st;

	id = strtok_r(line, " \n", &sp);
	seed = 0;
	for (w = id; *w; w++)
		if (*w >= '0' && *w <= '9')
			seed = (seed * 10 + *w - '0') % 10007;
	infd = outfd = ls = c = -1;
	gone = g_g = spoilt = refuse = sig = stdoutgone = hsst = 0;
	inq = inpos = outpos = gotpos = sentpos = 0;
	idled = ineof = sendeofq = sendeofd = goteof = exited = nohup = 0;
	outread = peerread = 1;
	oqn = oqp = ibn = 0;
	onum = inum = 0;
	frate = rerr = werr = 0;
	sh->rfail = sh->wfail = 0;
	nev = nlogfail = 0;
	while ((w = strtok_r(NULL, " \n", &sp)) != NULL && strcmp(w, "|")) {
		switch (w[0]) {
		case 't': tcp = 1; break;
		case 'N': refuse = 1; break;
		case 'f': f = 1; break;
		case 'g': g_g = 1; break;
		case 'j': j = 1; break;
		case 'o': o = atoi(w + 1); break;
		case 'F': frate = atoi(w + 1); break;
		case 'e': rerr = atoi(w + 1); break;
		case 'E': werr = atoi(w + 1); break;
		}
	}
	fseed = seed + 17;
	fprintf(fo, "{\"id\":\"%s\",\"ev\":[", id);
	listener(tcp, refuse);
	if (refuse)
		lg("\"e\":\"Refuse\"");
	if (pipe(pi) || pipe(po))
		exit(3);
	fflush(NULL);
	pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(ls);
		fclose(fo);
		dup2(pi[0], 0);
		dup2(po[1], 1);
		nul = open("/dev/null", O_WRONLY);
		dup2(nul, 2);
		for (st = 3; st < 64; st++)
			close(st);
		signal(SIGPIPE, SIG_DFL);
		mainth = pthread_self();
		inkid = 1;
		av[ac++] = "spipe";
		av[ac++] = "-t";
		av[ac++] = tgt;
		av[ac++] = "-k";
		av[ac++] = keyf;
		if (f) av[ac++] = "-f";
		if (g_g) av[ac++] = "-g";
		if (j) av[ac++] = "-j";
		if (o) {
			snprintf(oarg, sizeof(oarg), "%d", o);
			av[ac++] = "-o";
			av[ac++] = oarg;
		}
		av[ac] = NULL;
		exit(prog_main(ac, av));
	}
	close(pi[0]);
	close(po[1]);
	infd = pi[1];
	outfd = po[0];
	fcntl(infd, F_SETFL, O_NONBLOCK);
	fcntl(outfd, F_SETFL, O_NONBLOCK);
	while ((w = strtok_r(NULL, " \n", &sp)) != NULL)
		op(w);
	if (!exited)
		finish();
	if (!exited) {
		kill(pid, SIGKILL);
		waitpid(pid, &st, 0);
	}
	if (infd != -1) close(infd);
	if (outfd != -1) close(outfd);
	if (c != -1) close(c);
	close(ls);
	fprintf(fo, "]}\n");
}

int
main(int argc, char ** argv)
{
	static char line[1 << 20];
	static const char key[] = "key of the spipe driver";
	FILE * fi, * fk;

	signal(SIGPIPE, SIG_IGN);
	ref_init();
	if (argc != 3 || (fi = fopen(argv[1], "re")) == NULL || (fo = fopen(argv[2], "we")) == NULL ||
	    mkdtemp(dir) == NULL)
		return (2);
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	snprintf(path, sizeof(path), "%s/s", dir);
	snprintf(keyf, sizeof(keyf), "%s/k", dir);
	fk = fopen(keyf, "w");
	fwrite(key, 1, sizeof(key), fk);
	fclose(fk);
	ref_sha256(key, sizeof(key), K);
	while (fgets(line, sizeof(line), fi))
		script(line);
	fclose(fo);
	unlink(path);
	unlink(keyf);
	rmdir(dir);
	return (0);
}
