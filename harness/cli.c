/*
 * The real program's handling of its command line: what it does first which
 * shows that it has accepted it, or how it exits.
 */
#include <errno.h>
#include <netdb.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern int prog_main(int, char **);
static volatile int * socks;

int sim_socket(int d, int t, int p) { ++*socks; return (socket(AF_UNIX, SOCK_STREAM, 0)); }
int sim_bind(int f, const struct sockaddr * a, socklen_t l) { return (0); }
int sim_listen(int f, int n) { return (0); }
int sim_setsockopt(int f, int a, int b, const void * v, socklen_t l) { return (0); }
int sim_connect(int f, const struct sockaddr * a, socklen_t l) { _exit(201); }
int sim_poll(struct pollfd * p, nfds_t n, int t) { _exit(200); }
int sim_fork(void) { _exit(202); }
unsigned sim_sleep(unsigned n) { _exit(203); }
int sim_socketpair(int d, int t, int p, int * s) { return (socketpair(AF_UNIX, SOCK_STREAM, 0, s)); }
int sim_setuid(int u) { return (0); }
int sim_setgid(int u) { return (0); }
int sim_setgroups(size_t n, const int * u) { return (0); }

int
sim_getaddrinfo(const char * h, const char * s, const struct addrinfo * hi, struct addrinfo ** r)
{
	if (strcmp(h, "localhost") != 0)
		return (EAI_NONAME);
	return (getaddrinfo("127.0.0.1", s, hi, r));
}

static char *
decode(char * w)
{
	char * o = w, * p = w;
	unsigned x;

	for (; *p; p++) {
		if (*p == '%') {
			if (p[1] == 0)
				break;
			sscanf(p + 1, "%2x", &x);
			*o++ = x;
			p += 2;
		} else
			*o++ = *p;
	}
	*o = 0;
	return (w);
}

int
main(int argc, char ** argv)
{
	static char line[1 << 16], keyf[] = "/tmp/cliXXXXXX", buf[4096];
	char * av[200], * w, * sp, * id;
	int ac, p, st, pe[2], n, nul, i, msg, rc;
	const char * out;
	FILE * fi, * fo;

	if (argc != 3 || (fi = fopen(argv[1], "re")) == NULL || (fo = fopen(argv[2], "we")) == NULL || (n = mkstemp(keyf)) == -1)
		return (2);
	if (write(n, "key", 3) != 3)
		return (2);
	close(n);
	socks = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while (fgets(line, sizeof(line), fi)) {
		id = strtok_r(line, " \n", &sp);
		ac = 0;
		av[ac++] = "prog";
		while ((w = strtok_r(NULL, " \n", &sp)) != NULL && ac < 199) {
			av[ac++] = decode(w);
			if ((w = strstr(av[ac - 1], "@KEY@")) != NULL) {
				n = w - av[ac - 1];
				av[ac - 1] = strcpy(malloc(n + 100), av[ac - 1]);
				strcpy(av[ac - 1] + n, keyf);
			}
		}
		av[ac] = NULL;
		*socks = 0;
		if (pipe2(pe, O_CLOEXEC))
			return (2);
		fflush(NULL);
		p = fork();
		if (p == 0) {
			alarm(20);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			nul = open("/dev/null", O_RDWR);
			dup2(nul, 0);
			dup2(nul, 1);
			dup2(pe[1], 2);
			for (i = 3; i < 64; i++)
				close(i);
			exit(prog_main(ac, av));
		}
		close(pe[1]);
		msg = 0;
		while ((n = read(pe[0], buf, sizeof(buf))) > 0)
			msg = 1;
		close(pe[0]);
		waitpid(p, &st, 0);
		rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
		out = rc == 200 ? "serve" : rc == 201 ? "connect" : rc == 202 ? "fork" : rc == 203 ? "wait" : rc < 0 ? "signal" : "exit";
		fprintf(fo, "{\"id\":\"%s\",\"ev\":[{\"e\":\"Run\",\"out\":\"%s\",\"rc\":%d,\"msg\":%d,\"socks\":%d}]}\n", id, out, rc, msg, *socks);
	}
	fclose(fo);
	unlink(keyf);
	return (0);
}
