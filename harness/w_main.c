/* worker process: executes operations of the library in a loop, one request per message on stdin/stdout.
   message = u32 total, then items: u32 length + bytes; item 0 is the name of the operation */
#include "w.h"
#include <errno.h>
arg_t A[64]; int NA;
static unsigned char *O; static size_t ON, OC;
static int ofd;
static void ensure(size_t n) { if(ON + n > OC) { OC = (ON + n) * 2 + 4096; O = realloc(O, OC); } }
void out(const void *data, size_t n) { uint32_t l = (uint32_t) n; ensure(n + 4); memcpy(O + ON, &l, 4); if(n) memcpy(O + ON + 4, data, n); ON += n + 4; }
void out_s(const char *s) { if(s) out(s, strlen(s)); else out("\0<null>", 7); }
void out_i(long long v) { char b[32]; int n = sprintf(b, "%lld", v); out(b, (size_t) n); }
char *arg_s(int i) { char *s = malloc(A[i].n + 1); memcpy(s, A[i].p, A[i].n); s[A[i].n] = 0; return s; }
unsigned char *arg_b(int i, size_t *n) { unsigned char *s = malloc(A[i].n ? A[i].n : 1); memcpy(s, A[i].p, A[i].n); if(!A[i].n) { s = malloc(0); } if(n) *n = A[i].n; return s; }
long long arg_i(int i) { char *s = arg_s(i); long long v = atoll(s); free(s); return v; }
rd_t rd_arg(int i) { rd_t r; r.p = A[i].p; r.e = A[i].p + A[i].n; return r; }
int rd_more(rd_t *r) { return r->p < r->e; }
unsigned char rd_u8(rd_t *r) { return *r->p++; }
uint32_t rd_u32(rd_t *r) { uint32_t v; memcpy(&v, r->p, 4); r->p += 4; return v; }
uint64_t rd_u64(rd_t *r) { uint64_t v; memcpy(&v, r->p, 8); r->p += 8; return v; }
unsigned char *rd_bytes(rd_t *r, size_t *n) { uint32_t l = rd_u32(r); unsigned char *b = malloc(l); if(l) memcpy(b, r->p, l); r->p += l; *n = l; return b; }
char *rd_str(rd_t *r) { uint32_t l = rd_u32(r); char *b = malloc(l + 1); memcpy(b, r->p, l); b[l] = 0; r->p += l; return b; }
#include <stdarg.h>
static char *TB; static size_t TN, TC;
static void tens(size_t n) { if(TN + n > TC) { TC = (TN + n) * 2 + 4096; TB = realloc(TB, TC); } }
void t_reset(void) { TN = 0; }
void tf(const char *fmt, ...) { va_list a; int n; tens(512); va_start(a, fmt); n = vsnprintf(TB + TN, 512, fmt, a); va_end(a); TN += n > 511 ? 511 : (size_t) n; }
void thex(const void *p, size_t n) { size_t i; const unsigned char *b = p; static const char h[] = "0123456789abcdef"; tens(2 * n + 1); TB[TN++] = 'x'; for(i = 0; i < n; i++) { TB[TN++] = h[b[i] >> 4]; TB[TN++] = h[b[i] & 15]; } }
void t_out(void) { out(TB, TN); }
static int full(int fd, void *b, size_t n) {
    unsigned char *p = b;
    while(n) { ssize_t k = read(fd, p, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return 0; p += k; n -= (size_t) k; }
    return 1;
}
static void push(int fd, const void *b, size_t n) {
    const unsigned char *p = b;
    while(n) { ssize_t k = write(fd, p, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) exit(3); p += k; n -= (size_t) k; }
}
int main(void) {
    op_t *tables[] = { ops_structs, ops_codec, ops_text, ops_http, ops_stream, ops_mpool, NULL };
    ofd = dup(1);
    if(freopen("/dev/null", "w", stdout) == NULL) return 3;
    while(1) {
        uint32_t total; unsigned char *m; size_t off = 0; int i, found = 0;
        if(!full(0, &total, 4)) return 0;
        m = malloc(total + 1);
        if(!full(0, m, total)) return 0;
        NA = 0;
        while(off < total && NA < 64) { uint32_t l; memcpy(&l, m + off, 4); A[NA].p = m + off + 4; A[NA].n = l; off += 4 + l; NA++; }
        ON = 0; ensure(4); ON = 4;
        for(i = 0; tables[i] && !found; i++) {
            op_t *o;
            for(o = tables[i]; o->name; o++) {
                if(strlen(o->name) == A[0].n && memcmp(o->name, A[0].p, A[0].n) == 0) {
                    /* shift the arguments so that A[0] is the first one */
                    memmove(A, A + 1, sizeof(arg_t) * 63); NA--;
                    o->fn(); found = 1; break;
                }
            }
        }
        if(!found) { fprintf(stderr, "unknown operation\n"); exit(4); }
        fflush(stdout);
        { uint32_t l = (uint32_t)(ON - 4); memcpy(O, &l, 4); }
        push(ofd, O, ON);
        free(m);
    }
}
