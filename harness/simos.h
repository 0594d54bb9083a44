/* Deterministic simulated operating system: shared declarations. */
#ifndef SIMOS_H_
#define SIMOS_H_
#include <stddef.h>
#include <stdint.h>

#define NCONN 320
#define NVFD 512

/* ---- log ---- */
void lg(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_finish(const char * why, int code) __attribute__((noreturn));

/* ---- reference cryptography (refcrypto.c) ---- */
void ref_init(void);
void ref_sha256(const void *, size_t, uint8_t[32]);
void ref_hmac(const uint8_t *, size_t, const void *, size_t, uint8_t[32]);
void ref_pbkdf2(const uint8_t K[32], const uint8_t *, size_t, uint8_t *, size_t);
void ref_ctr(const uint8_t key[32], uint64_t nonce, const uint8_t *, uint8_t *, size_t);
/* y = 2^x mod p; x is 32 bytes */
void ref_dh_pub(const uint8_t x[32], uint8_t y[256]);
/* out = base^x mod p */
void ref_dh_shared(const uint8_t base[256], const uint8_t x[32], uint8_t out[256]);
extern uint8_t ref_p[256];	/* the modulus */
void ref_dk1(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32],
    uint8_t mac_c[32], uint8_t mac_s[32]);
void ref_dk2(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32],
    const uint8_t ysc[256], uint8_t dk2[128]);
/* eh = E(32)||H(32); writes 1060 bytes; lenfield normally == len */
void ref_pkt(const uint8_t eh[64], uint64_t num, const uint8_t * m, size_t len,
    uint32_t lenfield, uint8_t out[1060]);
/* returns payload length or -1; strict: padding must be zero */
int ref_unpkt(const uint8_t eh[64], uint64_t num, const uint8_t in[1060],
    uint8_t out[1024]);
#endif
