/*
 * The real spiped started as a daemon, with real processes; a failure, an
 * interruption, a delay or a kill is injected at a chosen system call of the
 * starting or of the daemonized process.
 */
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern int prog_main(int, char **);

struct ent { char r; char op[14]; char inj; int ok; int a; };
static struct sh { volatile int n; struct ent e[4000]; volatile int np, nc, gai; } * sh;
static char irole, ikind;
static int inum, gaifail, firstpid, serving;

static struct ent *
ring(const char * op, int ok, int a, char inj)
{
	int i = __sync_fetch_and_add(&sh->n, 1);
	struct ent * e;

	if (i >= 4000)
		_exit(97);
	e = &sh->e[i];
	e->r = getpid() == firstpid ? 'p' : 'c';
	e->ok = ok;
	e->a = a;
	e->inj = inj;
	__sync_synchronize();
	snprintf(e->op, sizeof(e->op), "%s", op);
	return (e);
}

/* What to do at this call: 0, 'F', 'I' or 'A' (the caller must act). */
static char
at(const char * op)
{
	char r = getpid() == firstpid ? 'p' : 'c';
	int k;

	if (serving)
		return (0);
	k = __sync_add_and_fetch(r == 'p' ? &sh->np : &sh->nc, 1);
	if (r != irole || k != inum)
		return (0);
	if (ikind == 'I' && strcmp(op, "read") && strcmp(op, "write"))
		return (0);
	ring(op, 0, 0, ikind);
	if (ikind == 'K')
		kill(getpid(), SIGKILL);
	if (ikind == 'D')
		usleep(80000);
	return (ikind == 'D' ? 0 : ikind);
}

#define CALL(T, bad, op, err, expr, val) do {				\
	T rc_;								\
	char k_ = at(op);						\
	if (k_ == 'F' || k_ == 'I') {					\
		errno = k_ == 'I' ? EINTR : (err);			\
		return (bad);						\
	}								\
	rc_ = (expr);							\
	int e_ = errno;							\
	ring(op, rc_ != (bad), (val), 0);				\
	if (k_ == 'A')							\
		kill(getpid(), SIGKILL);				\
	errno = e_;							\
	return (rc_);							\
} while (0)

int sim_pipe(int * p) { CALL(int, -1, "pipe", EMFILE, pipe(p), 0); }
int sim_pipe2(int * p, int f) { CALL(int, -1, "pipe", EMFILE, pipe2(p, f), 0); }
pid_t sim_setsid(void) { CALL(pid_t, -1, "setsid", EPERM, setsid(), 0); }
int sim_close(int f) { CALL(int, -1, "close", EIO, close(f), f); }
ssize_t sim_read(int f, void * b, size_t n) { CALL(ssize_t, -1, "read", EIO, read(f, b, n), f); }
ssize_t sim_write(int f, const void * b, size_t n) { CALL(ssize_t, -1, "write", EIO, write(f, b, n), f); }
int sim_socket(int d, int t, int p) { CALL(int, -1, "socket", EMFILE, socket(d, t, p), 0); }
int sim_bind(int f, const struct sockaddr * a, socklen_t l) { CALL(int, -1, "bind", EADDRINUSE, bind(f, a, l), f); }
int sim_listen(int f, int n) { CALL(int, -1, "listen", EOPNOTSUPP, listen(f, n), f); }
FILE * sim_fopen(const char * p, const char * m) { CALL(FILE *, NULL, "fopen", EACCES, fopen(p, m), 0); }
int sim_rename(const char * a, const char * b) { CALL(int, -1, "rename", EACCES, rename(a, b), 0); }

int
sim_open(const char * p, int f, ...)
{
	va_list ap;
	int m = 0;

	if (f & O_CREAT) {
		va_start(ap, f);
		m = va_arg(ap, int);
		va_end(ap);
	}
	CALL(int, -1, "open", EACCES, open(p, f, m), 0);
}

int
sim_fprintf(FILE * f, const char * fmt, ...)
{
	va_list ap;
	int r;
	char k;

	va_start(ap, fmt);
	k = f == stderr ? 0 : at("fprintf");
	if (k == 'F') {
		errno = ENOSPC;
		r = -1;
	} else {
		r = vfprintf(f, fmt, ap);
		if (f != stderr)
			ring("fprintf", r >= 0, 0, 0);
		if (k == 'A')
			kill(getpid(), SIGKILL);
	}
	va_end(ap);
	return (r);
}

size_t
sim_fwrite(const void * b, size_t s, size_t n, FILE * f)
{
	if (f == stderr)
		return (fwrite(b, s, n, f));
	CALL(size_t, 0, "fwrite", ENOSPC, fwrite(b, s, n, f), 0);
}

int
sim_fputs(const char * b, FILE * f)
{
	if (f == stderr)
		return (fputs(b, f));
	CALL(int, EOF, "fputs", ENOSPC, fputs(b, f), 0);
}

int
sim_fflush(FILE * f)
{
	char k;

	if (f == stderr || f == NULL)
		return (fflush(f));
	if ((k = at("fflush")) == 'F') {
		__fpurge(f);
		errno = ENOSPC;
		return (EOF);
	}
	return (fflush(f));
}

int
sim_fclose(FILE * f)
{
	char k = at("fclose");
	int r;

	if (k == 'F') {		/* the disk is full */
		__fpurge(f);
		fclose(f);
		errno = ENOSPC;
		return (EOF);
	}
	r = fclose(f);
	ring("fclose", r == 0, 0, 0);
	if (k == 'A')
		kill(getpid(), SIGKILL);
	return (r);
}

pid_t
sim_fork(void)
{
	char k = at("fork");
	pid_t p;

	if (k == 'F') {
		errno = EAGAIN;
		return (-1);
	}
	p = fork();
	if (p == 0)
		ring("born", 1, getpid(), 0);
	else
		ring("fork", p > 0, p, 0);
	return (p);
}

int
sim_getaddrinfo(const char * h, const char * s, const struct addrinfo * hi, struct addrinfo ** r)
{
	if (__sync_fetch_and_add(&sh->gai, 1) < gaifail)
		return (EAI_AGAIN);
	return (getaddrinfo(h, s, hi, r));
}

unsigned
sim_sleep(unsigned n)
{
	usleep(20000 * n);
	return (0);
}

int
sim_poll(struct pollfd * p, nfds_t n, int t)
{
	if (!serving) {
		serving = 1;
		ring("serving", 1, 0, 0);
	}
	return (poll(p, n, t));
}

/* ---------------------------------------------------------------- driver */
static FILE * fo;
static int nev;
static char dir[] = "/tmp/dmnXXXXXX";

static void
put(const char * f, ...)
{
	va_list ap;

	fprintf(fo, "%s{", nev++ ? "," : "");
	va_start(ap, f);
	vfprintf(fo, f, ap);
	va_end(ap);
	fprintf(fo, "}");
}

static double
now(void)
{
	struct timespec t;

	clock_gettime(CLOCK_MONOTONIC, &t);
	return (t.tv_sec + t.tv_nsec / 1e9);
}

static int shown;
static int kid;

static void
flush(void)
{
	struct ent * e;

	for (; shown < sh->n && shown < 4000; shown++) {
		e = &sh->e[shown];
		while (e->op[0] == 0 && now() < 1e12)
			__sync_synchronize();
		if (strcmp(e->op, "fork") == 0 && e->ok)
			kid = e->a;
		if (strcmp(e->op, "born") == 0)
			kid = e->a;
		if (e->inj)
			put("\"e\":\"Inject\",\"r\":\"%c\",\"op\":\"%s\",\"k\":\"%c\"", e->r, e->op, e->inj);
		else if (strchr("sflb", e->op[0]) && strcmp(e->op, "fclose") && strcmp(e->op, "fopen") &&
		    strcmp(e->op, "bind") && strcmp(e->op, "socket"))
			put("\"e\":\"Sys\",\"r\":\"%c\",\"op\":\"%s\",\"ok\":%d", e->r, e->op, e->ok);
	}
}

static int
pidok(const char * pidf, int want)
{
	char b[64], w[32];
	FILE * f = fopen(pidf, "r");
	size_t n;

	if (f == NULL)
		return (0);
	n = fread(b, 1, sizeof(b) - 1, f);
	fclose(f);
	b[n] = 0;
	snprintf(w, sizeof(w), "%d", want);
	return (strlen(b) == n && strcmp(b, w) == 0);
}

static int
tryconn(const char * src)
{
	struct sockaddr_un un = {AF_UNIX};
	struct sockaddr_in sin = {AF_INET};
	struct sockaddr * sa;
	socklen_t l;
	char ip[64];
	int s, port, r;

	if (src[0] == '/') {
		strcpy(un.sun_path, src);
		sa = (void *)&un;
		l = sizeof(un);
	} else {
		if (sscanf(src, "[%63[0-9.]]:%d", ip, &port) != 2) {
			if (sscanf(src, "localhost:%d", &port) != 1)
				return (0);
			strcpy(ip, "127.0.0.1");
		}
		inet_aton(ip, &sin.sin_addr);
		sin.sin_port = htons(port);
		sa = (void *)&sin;
		l = sizeof(sin);
	}
	s = socket(sa->sa_family, SOCK_STREAM, 0);
	r = connect(s, sa, l) == 0;
	close(s);
	return (r);
}

/* Is process p (reparented to us) running? */
static int
alive(int p)
{
	siginfo_t si;

	if (p <= 0)
		return (0);
	si.si_pid = 0;
	if (waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT) != 0)
		return (kill(p, 0) == 0);
	return (si.si_pid == 0);
}

static void
script(char * line)
{
	char * w, * sp = NULL, * av[24], src[128] = "", tgt[128] = "/nonexistent/t", pidf[160], keyf[128], defpid[160];
	int ac = 0, D = 0, F = 0, pflag = 0, p, st, rc, i, nul, ok, acc, al, sid, served, pid;
	struct stat sb;
	double end;

	w = strtok_r(line, " \n", &sp);
	nev = shown = kid = 0;
	memset((void *)sh, 0, sizeof(*sh));
	irole = ikind = 0;
	inum = gaifail = 0;
	fprintf(fo, "{\"id\":\"%s\",\"ev\":[", w);
	snprintf(keyf, sizeof(keyf), "%s/k", dir);
	snprintf(src, sizeof(src), "%s/src", dir);
	snprintf(pidf, sizeof(pidf), "%s/pidfile", dir);
	nul = 0;
	while ((w = strtok_r(NULL, " \n", &sp)) != NULL) {
		switch (w[0]) {
		case 'D': D = 1; break;
		case 'F': F = 1; break;
		case 'p': pflag = 1; break;
		case 'P': pflag = 1; snprintf(pidf, sizeof(pidf), "%s/no/such/dir/pid", dir); break;
		case 'V': pflag = 1; snprintf(pidf, sizeof(pidf), "/dev/full"); break;
		case 'Q': pflag = 1; nul = 1; break;	/* an old pid file is there */
		case 't': snprintf(src, sizeof(src), "[127.%d.%d.7]:%d", 1 + (getpid() >> 8) % 120, getpid() % 255, 9000 + atoi(w + 1)); break;
		case 'T': snprintf(tgt, sizeof(tgt), "localhost:9"); break;
		case 'k': snprintf(keyf, sizeof(keyf), "%s/nokey", dir); break;
		case 'g': gaifail = atoi(w + 1); snprintf(tgt, sizeof(tgt), "localhost:9"); break;
		case 'b': snprintf(src, sizeof(src), "[203.0.113.7]:9"); break;
		case 'I': irole = w[1]; ikind = w[2]; inum = atoi(w + 3); break;
		}
	}
	if (!pflag) {
		if (src[0] != '/')
			pflag = 1;
		else
			snprintf(pidf, sizeof(pidf), "%s.pid", src);
	}
	snprintf(defpid, sizeof(defpid), "%s.pid", src);
	if (strcmp(pidf, "/dev/full"))
		unlink(pidf);
	if (src[0] == '/') {
		unlink(defpid);
		unlink(src);
	}
	if (nul) {
		FILE * f = fopen(pidf, "w");
		fprintf(f, "1234567890123");
		fclose(f);
	}
	fflush(NULL);
	p = fork();
	if (p == 0) {
		firstpid = getpid();
		fclose(fo);
		nul = open("/dev/null", O_RDWR);
		dup2(nul, 0);
		dup2(nul, 1);
		dup2(nul, 2);
		for (i = 3; i < 64; i++)
			close(i);
		alarm(60);
		av[ac++] = "spiped";
		av[ac++] = "-e";
		av[ac++] = "-s";
		av[ac++] = src;
		av[ac++] = "-t";
		av[ac++] = tgt;
		av[ac++] = "-k";
		av[ac++] = keyf;
		if (D) av[ac++] = "-D";
		if (F) av[ac++] = "-F";
		if (pflag) {
			av[ac++] = "-p";
			av[ac++] = pidf;
		}
		av[ac] = NULL;
		exit(prog_main(ac, av));
	}
	end = now() + 10;
	pid = 0;
	while (now() < end && (pid = waitpid(p, &st, WNOHANG)) == 0) {
		if (F && sh->n > 0) {
			for (i = 0; i < sh->n; i++)
				if (strcmp(sh->e[i].op, "serving") == 0)
					break;
			if (i < sh->n)
				break;
		}
		usleep(300);
	}
	if (F && pid == 0) {
		flush();
		ok = stat(pidf, &sb) == 0;
		put("\"e\":\"Fore\",\"acc\":%d,\"pidfile\":%d", tryconn(src), ok);
		kill(p, SIGKILL);
		waitpid(p, &st, 0);
	} else if (pid == 0) {
		flush();
		put("\"e\":\"Hang\"");
		kill(p, SIGKILL);
		waitpid(p, &st, 0);
	} else {
		rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
		/* the pid first: nothing below may wait */
		for (i = 0; i < sh->n; i++)
			if (strcmp(sh->e[i].op, "fork") == 0 || strcmp(sh->e[i].op, "born") == 0)
				if (sh->e[i].a > 0)
					kid = sh->e[i].a;
		ok = pidok(pidf, kid);
		sid = kid > 0 && getsid(kid) == kid;
		acc = tryconn(src);
		al = alive(kid);
		flush();
		put("\"e\":\"Return\",\"rc\":%d,\"pidok\":%d,\"sid\":%d,\"acc\":%d,\"alive\":%d", rc, ok, sid, acc, al);
		/* does it serve in the end? */
		served = 0;
		end = now() + (rc == 0 && inum == 0 ? 10 : rc == 0 ? 2 : 0.2);
		while (alive(kid) && now() < end && !served) {
			for (i = 0; i < sh->n; i++)
				if (strcmp(sh->e[i].op, "serving") == 0)
					served = 1;
			if (served && !tryconn(src))
				served = 0;
			if (!served)
				usleep(2000);
		}
		flush();
		put("\"e\":\"Final\",\"alive\":%d,\"serves\":%d,\"pidok\":%d,\"sid\":%d", alive(kid), served, pidok(pidf, kid),
		    kid > 0 && getsid(kid) == kid);
	}
	if (kid > 0)
		kill(kid, SIGKILL);
	while (waitpid(-1, &st, 0) > 0)
		;
	if (strcmp(pidf, "/dev/full"))
		unlink(pidf);
	if (src[0] == '/')
		unlink(src);
	fprintf(fo, "],\"np\":%d,\"nc\":%d,\"D\":%d,\"F\":%d}\n", sh->np, sh->nc, D, F);
}

int
main(int argc, char ** argv)
{
	static char line[1 << 16], b[200];
	FILE * fi, * fk;

	signal(SIGPIPE, SIG_IGN);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	if (argc != 3 || (fi = fopen(argv[1], "re")) == NULL || (fo = fopen(argv[2], "we")) == NULL ||
	    mkdtemp(dir) == NULL)
		return (2);
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	snprintf(b, sizeof(b), "%s/k", dir);
	fk = fopen(b, "w");
	fprintf(fk, "a key");
	fclose(fk);
	while (fgets(line, sizeof(line), fi))
		script(line);
	fclose(fo);
	unlink(b);
	rmdir(dir);
	return (0);
}
