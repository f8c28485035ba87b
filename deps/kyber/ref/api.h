// Stand-in for the absent submodule: sizes and prototypes of the Kyber reference interface.
#ifndef VT_KYBER_API_H
#define VT_KYBER_API_H
#ifndef KYBER_K
#define KYBER_K 3
#endif
#define KYBER_SYMBYTES 32
#define KYBER_POLYVECCOMPRESSEDBYTES (KYBER_K * 352)
#define KYBER_PUBLICKEYBYTES (KYBER_POLYVECCOMPRESSEDBYTES + KYBER_SYMBYTES)
#define KYBER_SECRETKEYBYTES (KYBER_K * 416 + KYBER_PUBLICKEYBYTES + 2 * KYBER_SYMBYTES)
#define KYBER_CIPHERTEXTBYTES (KYBER_POLYVECCOMPRESSEDBYTES + 96)
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
#endif
