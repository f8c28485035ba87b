#ifndef VT_RANDOMBYTES_H
#define VT_RANDOMBYTES_H
void randombytes(unsigned char *x, unsigned long long xlen);
#endif
