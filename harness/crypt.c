/*
 * Driver for lib/proto/proto_crypt: seals and opens packets with the real
 * code and compares with the reference implementation (refcrypto.c).
 *
 * usage: crypt IN OUT      one script per line, "id op ..."
 *   S:s:seed:wc:ws      session s; wc/ws: client/server without forward secrecy
 *   V:seed:cls:mac:req  offer a handshake value; mac 0 right, n > 0 bit n-1 flipped
 *   E:s:d:cnt:len       seal cnt packets (len 0: of many lengths)
 *   D:s:d:cnt:len       offer the next cnt packets
 *   X:s:d:what:arg      offer something else
 */
#include <sys/types.h>
#include <sys/wait.h>
#include <openssl/bn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "proto_crypt.h"
#include "simos.h"

static FILE * out;
static int firstev = 1;
#define EV(...) do { fprintf(out, "%s{", firstev ? "" : ","); firstev = 0; fprintf(out, __VA_ARGS__); fputc('}', out); } while (0)

/* Deterministic "randomness" for the code under test. */
static uint64_t rs = 1;
static uint32_t rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return ((uint32_t)(rs >> 33)); }
static uint8_t secret[32];
static struct proto_secret * K;

#define NSESS 8
static struct {
	int live;
	struct proto_keys * k[2][2];		/* [end: 0 client, 1 server][direction: 0 c, 1 s] */
	uint8_t dk2[2][128];	/* of each end, which talks to the reference */
	uint64_t e[2], d[2];
	int end[2];		/* an illegal length ends a direction */
} S[NSESS];

static void
one(uint8_t y[256]) { memset(y, 0, 256); y[255] = 1; }

static void
payload(uint64_t n, int d, int len, uint8_t * b)
{
	int i;
	uint32_t x = (uint32_t)(n * 2654435761u + (unsigned)d * 97);
	for (i = 0; i < len; i++) {
		x = x * 1664525u + 1013904223u;
		b[i] = (uint8_t)(x >> 24);
	}
}
static int
plen(uint64_t n, int len)
{
	static const int L[] = { 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 511, 512, 1000, 1008, 1022, 1023, 1024 };
	return (len ? len : L[n % (sizeof(L) / sizeof(L[0]))]);
}

static int
plausible(const uint8_t * y)
{
	int i, top = 0;

	for (i = 0; i < 128; i++) top |= y[i];
	return (top != 0 && memcmp(y, ref_p, 256) < 0);
}

static void
session(int s, int seed, int wc, int ws)
{
	uint8_t nc[32], ns[32], mcl[32], mcr[32], msl[32], msr[32], rc[32], rs_[32];
	uint8_t yc[PCRYPT_YH_LEN], ys[PCRYPT_YH_LEN], xc[PCRYPT_X_LEN], xs[PCRYPT_X_LEN];
	uint8_t y[256], m[32], ysc[256], rx[32], ry[PCRYPT_YH_LEN];
	int macs, okc, oks, val;

	rs = (uint64_t)seed * 1000 + (uint64_t)s;
	for (int i = 0; i < 32; i++) { nc[i] = (uint8_t)rnd(); ns[i] = (uint8_t)rnd(); }
	if (S[s].live)
		for (int i = 0; i < 4; i++) proto_crypt_free(S[s].k[i / 2][i % 2]);
	memset(&S[s], 0, sizeof(S[s]));
	/* The client's and the server's MAC keys; l and r seen from each. */
	proto_crypt_dhmac(K, nc, ns, mcl, mcr, 0);
	proto_crypt_dhmac(K, ns, nc, msl, msr, 1);
	ref_dk1(secret, nc, ns, rc, rs_);
	macs = !memcmp(mcl, rc, 32) && !memcmp(mcr, rs_, 32) && !memcmp(msl, rs_, 32) && !memcmp(msr, rc, 32);
	memset(xc, 0, 32); memset(xs, 0, 32);
	if (proto_crypt_dh_generate(yc, xc, mcl, wc) || proto_crypt_dh_generate(ys, xs, msl, ws)) {
		EV("\"e\":\"GenFailed\"");
		return;
	}
	/* What each sends: 1, or something which nobody could foresee; MACed. */
	one(y);
	ref_hmac(rc, 32, yc, 256, m);
	okc = (wc ? !memcmp(y, yc, 256) : plausible(yc)) && !memcmp(m, yc + 256, 32);
	ref_hmac(rs_, 32, ys, 256, m);
	oks = (ws ? !memcmp(y, ys, 256) : plausible(ys)) && !memcmp(m, ys + 256, 32);
	val = !proto_crypt_dh_validate(ys, mcr, !wc && !ws) && !proto_crypt_dh_validate(yc, msr, !wc && !ws);
	/* Each talks to the reference, in the role of the other. */
	for (int i = 0; i < 32; i++) rx[i] = (uint8_t)rnd();
	if (ws) one(ry); else ref_dh_pub(rx, ry);
	ref_hmac(rs_, 32, ry, 256, ry + 256);
	if (wc || ws) one(ysc); else ref_dh_shared(yc, rx, ysc);
	ref_dk2(secret, nc, ns, ysc, S[s].dk2[0]);
	if (proto_crypt_dh_validate(ry, mcr, 0)) val = 0;
	if (proto_crypt_mkkeys(K, nc, ns, ry, xc, wc, 0, &S[s].k[0][0], &S[s].k[0][1])) {
		EV("\"e\":\"KeysFailed\"");
		return;
	}
	if (wc) one(ry); else ref_dh_pub(rx, ry);
	ref_hmac(rc, 32, ry, 256, ry + 256);
	if (wc || ws) one(ysc); else ref_dh_shared(ys, rx, ysc);
	ref_dk2(secret, nc, ns, ysc, S[s].dk2[1]);
	if (proto_crypt_dh_validate(ry, msr, 0)) val = 0;
	if (proto_crypt_mkkeys(K, ns, nc, ry, xs, ws, 1, &S[s].k[1][0], &S[s].k[1][1])) {
		EV("\"e\":\"KeysFailed\"");
		return;
	}
	S[s].live = 1;
	EV("\"e\":\"Session\",\"s\":%d,\"wc\":%d,\"ws\":%d,\"macs\":%d,\"yc\":%d,\"ys\":%d,\"val\":%d", s, wc, ws, macs, okc, oks, val);
}

static void
validate(int seed, const char * cls, int mac, int req)
{
	uint8_t nc[32], ns[32], a[32], b[32], rc[32], rs_[32], yh[PCRYPT_YH_LEN];
	int i;

	rs = (uint64_t)seed;
	for (i = 0; i < 32; i++) { nc[i] = (uint8_t)rnd(); ns[i] = (uint8_t)rnd(); }
	proto_crypt_dhmac(K, ns, nc, a, b, 1);
	ref_dk1(secret, nc, ns, rc, rs_);
	memset(yh, 0, sizeof(yh));
	if (!strcmp(cls, "gen")) for (i = 1; i < 256; i++) yh[i] = (uint8_t)rnd();
	else if (!strcmp(cls, "one")) yh[255] = 1;
	else if (!strcmp(cls, "two")) yh[255] = 2;
	else if (!strcmp(cls, "zero")) ;
	else if (!strcmp(cls, "top")) yh[0] = 1, yh[255] = 1;		/* 1 with another byte set */
	else if (!strcmp(cls, "low")) yh[255] = 1, yh[rnd() % 255] = (uint8_t)(1 << rnd() % 8), yh[0] &= 0x7f;
	else {
		memcpy(yh, ref_p, 256);
		if (!strcmp(cls, "pm1")) yh[255] -= 1;			/* p ends in 0xff */
		else if (!strcmp(cls, "pp1")) { for (i = 255; ++yh[i] == 0; i--) ; }
		else if (!strcmp(cls, "ones")) memset(yh, 0xff, 256);
		else if (!strcmp(cls, "mid")) yh[100] = 0xff, yh[101] = 0xff, yh[99] = 0xff;
	}
	if (!strcmp(cls, "low")) { int z = 1; for (i = 0; i < 255; i++) z &= !yh[i]; if (z) yh[254] = 1; }
	if (!strcmp(cls, "mid") && memcmp(yh, ref_p, 256) < 0) cls = "low";
	ref_hmac(rc, 32, yh, 256, yh + 256);
	if (mac)
		yh[256 + (mac - 1) / 8 % 32] ^= (uint8_t)(1 << (mac - 1) % 8);
	EV("\"e\":\"Validate\",\"cls\":\"%s\",\"mac\":%d,\"req\":%d,\"ok\":%d", cls, mac == 0, req,
	    proto_crypt_dh_validate(yh, b, req) == 0);
}

static void
op(char * w)
{
	uint8_t m[1100], p[PCRYPT_ESZ], q[PCRYPT_ESZ], o[1100];
	int s = 0, d = 0, i, n, len, good = 0, r;
	long long arg = 0;
	char what[32];
	uint64_t num;

	switch (w[0]) {
	case 'S': {
		int wc, ws;
		sscanf(w, "S:%d:%d:%d:%d", &s, &i, &wc, &ws);
		session(s, i, wc, ws);
		return;
	}
	case 'V': {
		int mac, req;
		sscanf(w, "V:%d:%31[a-z0-9]:%d:%d", &i, what, &mac, &req);
		validate(i, what, mac, req);
		return;
	}
	case 'E':
		sscanf(w, "E:%d:%d:%d:%d", &s, &d, &n, &len);
		if (!S[s].live) return;
		for (i = 0; i < n; i++) {
			num = S[s].e[d]++;
			r = plen(num, len);
			payload(num, d, r, m);
			/* Direction c is sealed by the client. */
			proto_crypt_enc(m, (size_t)r, p, S[s].k[d][d]);
			ref_pkt(S[s].dk2[d] + 64 * d, num, m, (size_t)r, (uint32_t)r, q);
			if (!memcmp(p, q, PCRYPT_ESZ) && good == i) good++;
		}
		EV("\"e\":\"Seal\",\"s\":%d,\"d\":%d,\"cnt\":%d,\"good\":%d", s, d, n, good);
		return;
	case 'D':
		sscanf(w, "D:%d:%d:%d:%d", &s, &d, &n, &len);
		if (!S[s].live || S[s].end[d]) return;
		for (i = 0; i < n; i++) {
			num = S[s].d[d];
			r = plen(num, len);
			payload(num, d, r, m);
			ref_pkt(S[s].dk2[1 - d] + 64 * d, num, m, (size_t)r, (uint32_t)r, p);
			memset(o, 0xa5, sizeof(o));
			if (proto_crypt_dec(p, o, S[s].k[1 - d][d]) != r || memcmp(o, m, (size_t)r) || o[r] != 0xa5) break;
			good++;
			S[s].d[d]++;
		}
		EV("\"e\":\"OpenGood\",\"s\":%d,\"d\":%d,\"cnt\":%d,\"good\":%d", s, d, n, good);
		return;
	case 'X':
		sscanf(w, "X:%d:%d:%31[a-z]:%lld", &s, &d, what, &arg);
		if (!S[s].live || S[s].end[d]) return;
		if (!strcmp(what, "len")) S[s].end[d] = 1;
		num = S[s].d[d];
		len = 1 + (int)(num * 37 % 1024);
		payload(num, d, 1024, m);
		ref_pkt(S[s].dk2[1 - d] + 64 * d, num, m, (size_t)len, (uint32_t)len, p);
		if (!strcmp(what, "num")) {
			if (arg == 0) return;
			ref_pkt(S[s].dk2[1 - d] + 64 * d, num + (uint64_t)arg, m, (size_t)len, (uint32_t)len, p);
		} else if (!strcmp(what, "dir"))
			ref_pkt(S[s].dk2[1 - d] + 64 * !d, num + (uint64_t)arg, m, (size_t)len, (uint32_t)len, p);
		else if (!strcmp(what, "sess")) {
			i = (s + 1) % NSESS;
			if (!S[i].live) return;
			ref_pkt(S[i].dk2[1 - d] + 64 * d, num, m, (size_t)len, (uint32_t)len, p);
		} else if (!strcmp(what, "mix")) {	/* MACed with one key, encrypted with the other */
			uint8_t k[64];
			memcpy(k, S[s].dk2[1 - d] + 64 * d, 32);
			memcpy(k + 32, S[s].dk2[1 - d] + 64 * !d + 32, 32);
			ref_pkt(k, num, m, (size_t)len, (uint32_t)len, p);
		} else if (!strcmp(what, "len"))	/* correctly sealed, illegal length */
			ref_pkt(S[s].dk2[1 - d] + 64 * d, num, m, 1024, (uint32_t)arg, p);
		else if (!strcmp(what, "flip"))
			p[arg / 8 % PCRYPT_ESZ] ^= (uint8_t)(1 << arg % 8);
		else if (!strcmp(what, "byte"))
			p[arg % PCRYPT_ESZ] ^= 0xff;
		else if (!strcmp(what, "swap")) {	/* two bytes of the MAC altered alike */
			p[1028 + arg % 32] ^= 0x55;
			p[1028 + (arg + 1) % 32] ^= 0x55;
		} else if (!strcmp(what, "zero"))
			memset(p + 1028, 0, 32);
		else if (!strcmp(what, "part"))		/* MAC right up to some byte only */
			memset(p + 1028 + arg % 32, 0x5c, (size_t)(32 - arg % 32)), p[1028 + arg % 32] ^= 1;
		{
			uint8_t chk[1024];
			if (ref_unpkt(S[s].dk2[1 - d] + 64 * d, num, p, chk) > 0) return;	/* not bad after all */
		}
		r = (int)proto_crypt_dec(p, o, S[s].k[1 - d][d]);
		EV("\"e\":\"OpenBad\",\"s\":%d,\"d\":%d,\"what\":\"%s\",\"off\":\"%lld\",\"ok\":%d", s, d, what, arg, r != -1);
		return;
	}
}

int
main(int argc, char ** argv)
{
	static char line[1 << 20];
	FILE * in = fopen(argv[1], "r"), * o = fopen(argv[2], "w"), * f;
	char kf[] = "/tmp/vcryptXXXXXX";
	int st;

	f = fdopen(mkstemp(kf), "w");
	for (int i = 0; i < 3000; i++) fputc(i * 7 + i / 256, f);
	fclose(f);
	{
		uint8_t b[3000];
		for (int i = 0; i < 3000; i++) b[i] = (uint8_t)(i * 7 + i / 256);
		ref_init();
		ref_sha256(b, 3000, secret);
	}
	K = proto_crypt_secret(kf);
	unlink(kf);
	if (K == NULL) return (1);
	while (fgets(line, sizeof(line), in)) {
		FILE * tmp = tmpfile();
		char * buf, * w, * sv, id[64];
		long len;
		sscanf(line, "%63s", id);
		if (fork() == 0) {
			alarm(120);
			freopen("/dev/null", "w", stderr);
			out = tmp;
			fprintf(out, "{\"id\":\"%s\",\"ev\":[", id);
			strtok_r(line, " \n", &sv);
			while ((w = strtok_r(NULL, " \n", &sv)))
				op(w);
			fflush(out);
			_exit(0);
		}
		wait(&st);
		len = lseek(fileno(tmp), 0, SEEK_END);
		buf = malloc((size_t)len + 1);
		pread(fileno(tmp), buf, (size_t)len, 0);
		fclose(tmp);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			fwrite(buf, 1, (size_t)len, o);
			fputs("]}\n", o);
		} else
			fprintf(o, "{\"id\":\"%s\",\"ev\":[{\"e\":\"Died\",\"sig\":%d}]}\n", id, WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st));
		free(buf);
	}
	fclose(o);
	return (0);
}
