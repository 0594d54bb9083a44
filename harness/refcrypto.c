/*
 * Independent reference implementation of the spiped protocol's cryptography
 * on top of OpenSSL's EVP/BN, written from DESIGN.md of spiped.
 */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <stdlib.h>
#include <string.h>
#include "simos.h"

uint8_t ref_p[256];
static BIGNUM * P;
static BN_CTX * C;

void
ref_init(void)
{
	if (P != NULL)
		return;
	P = BN_get_rfc3526_prime_2048(NULL);
	C = BN_CTX_new();
	BN_bn2binpad(P, ref_p, 256);
}

void
ref_sha256(const void * b, size_t n, uint8_t out[32])
{
	SHA256(b, n, out);
}

void
ref_hmac(const uint8_t * k, size_t kl, const void * b, size_t n, uint8_t out[32])
{
	unsigned int l = 32;
	HMAC(EVP_sha256(), k, (int)kl, b, n, out, &l);
}

void
ref_pbkdf2(const uint8_t K[32], const uint8_t * salt, size_t sl, uint8_t * out, size_t ol)
{
	PKCS5_PBKDF2_HMAC((const char *)K, 32, salt, (int)sl, 1, EVP_sha256(),
	    (int)ol, out);
}

void
ref_ctr(const uint8_t key[32], uint64_t nonce, const uint8_t * in, uint8_t * out, size_t n)
{
	EVP_CIPHER_CTX * c = EVP_CIPHER_CTX_new();
	uint8_t iv[16];
	int i, l;

	memset(iv, 0, 16);
	for (i = 0; i < 8; i++)
		iv[i] = (uint8_t)(nonce >> (56 - 8 * i));
	EVP_EncryptInit_ex(c, EVP_aes_256_ctr(), NULL, key, iv);
	EVP_EncryptUpdate(c, out, &l, in, (int)n);
	EVP_CIPHER_CTX_free(c);
}

void
ref_dh_shared(const uint8_t base[256], const uint8_t x[32], uint8_t out[256])
{
	BIGNUM * b = BN_bin2bn(base, 256, NULL);
	BIGNUM * e = BN_bin2bn(x, 32, NULL);
	BIGNUM * r = BN_new();

	/* The documented private keys are x + 2^256 .. or any exponent: the
	 * result only depends on the value used consistently. */
	BN_mod_exp(r, b, e, P, C);
	BN_bn2binpad(r, out, 256);
	BN_free(b);
	BN_free(e);
	BN_free(r);
}

void
ref_dh_pub(const uint8_t x[32], uint8_t y[256])
{
	uint8_t two[256];

	memset(two, 0, 256);
	two[255] = 2;
	ref_dh_shared(two, x, y);
}

void
ref_dk1(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32],
    uint8_t mac_c[32], uint8_t mac_s[32])
{
	uint8_t n[64], o[64];

	memcpy(n, nc, 32);
	memcpy(n + 32, ns, 32);
	ref_pbkdf2(K, n, 64, o, 64);
	memcpy(mac_c, o, 32);
	memcpy(mac_s, o + 32, 32);
}

void
ref_dk2(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32],
    const uint8_t ysc[256], uint8_t dk2[128])
{
	uint8_t n[64 + 256];

	memcpy(n, nc, 32);
	memcpy(n + 32, ns, 32);
	memcpy(n + 64, ysc, 256);
	ref_pbkdf2(K, n, 64 + 256, dk2, 128);
}

static void
mac_pkt(const uint8_t H[32], uint64_t num, const uint8_t * ct, uint8_t out[32])
{
	uint8_t b[1028 + 8];
	int i;

	memcpy(b, ct, 1028);
	for (i = 0; i < 8; i++)
		b[1028 + i] = (uint8_t)(num >> (56 - 8 * i));
	ref_hmac(H, 32, b, 1036, out);
}

void
ref_pkt(const uint8_t eh[64], uint64_t num, const uint8_t * m, size_t len,
    uint32_t lenfield, uint8_t out[1060])
{
	uint8_t b[1028];

	memset(b, 0, sizeof(b));
	memcpy(b, m, len);
	b[1024] = (uint8_t)(lenfield >> 24);
	b[1025] = (uint8_t)(lenfield >> 16);
	b[1026] = (uint8_t)(lenfield >> 8);
	b[1027] = (uint8_t)lenfield;
	ref_ctr(eh, num, b, out, 1028);
	mac_pkt(eh + 32, num, out, out + 1028);
}

int
ref_unpkt(const uint8_t eh[64], uint64_t num, const uint8_t in[1060],
    uint8_t out[1024])
{
	uint8_t m[32], b[1028];
	size_t len, i;

	mac_pkt(eh + 32, num, in, m);
	if (memcmp(m, in + 1028, 32))
		return (-1);
	ref_ctr(eh, num, in, b, 1028);
	len = ((size_t)b[1024] << 24) | ((size_t)b[1025] << 16) |
	    ((size_t)b[1026] << 8) | b[1027];
	if (len < 1 || len > 1024)
		return (-2);
	for (i = len; i < 1024; i++)
		if (b[i] != 0)
			return (-3);
	memcpy(out, b, len);
	return ((int)len);
}
