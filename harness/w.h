#ifndef VERIF_W_H
#define VERIF_W_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
typedef struct { unsigned char *p; size_t n; } arg_t;
typedef struct { const char *name; void (*fn)(void); } op_t;
extern arg_t A[64];
extern int NA;
/* results of the operation */
void out(const void *data, size_t n);
void out_s(const char *s);
void out_i(long long v);
/* argument i as a fresh null terminated string / exact buffer (never released) */
char *arg_s(int i);
unsigned char *arg_b(int i, size_t *n);
long long arg_i(int i);
/* record reader */
typedef struct { unsigned char *p, *e; } rd_t;
rd_t rd_arg(int i);
int rd_more(rd_t *r);
unsigned char rd_u8(rd_t *r);
uint32_t rd_u32(rd_t *r);
uint64_t rd_u64(rd_t *r);
unsigned char *rd_bytes(rd_t *r, size_t *n);   /* exact malloc'd copy */
char *rd_str(rd_t *r);                          /* null terminated copy */
extern op_t ops_structs[], ops_codec[], ops_text[], ops_http[], ops_stream[], ops_mpool[];
#endif
/* text accumulator: space separated tokens, one line per result */
void t_reset(void);
void tf(const char *fmt, ...);
void thex(const void *p, size_t n);
void t_out(void);
