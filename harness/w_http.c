/* HTTP parser, byte ranges and basic authentication */
#include "viriatum.h"
#include "w.h"
#include <sanitizer/asan_interface.h>

static int in_body, in_msg;
static void close_body(void) { if(in_body) { tf("\n"); in_body = 0; } }
static void hex(const unsigned char *p, size_t n) {
    /* thex writes a leading mark, which body pieces must not have */
    thex(p, n);
}
static ERROR_CODE on_begin(struct http_parser_t *p) { close_body(); tf("BEGIN\n"); in_msg = 1; RAISE_NO_ERROR; }
static ERROR_CODE on_url(struct http_parser_t *p, const unsigned char *d, size_t n) { close_body(); tf("URL "); hex(d, n); tf("\n"); RAISE_NO_ERROR; }
static ERROR_CODE on_line(struct http_parser_t *p) { close_body(); tf("LINE\n"); RAISE_NO_ERROR; }
static ERROR_CODE on_field(struct http_parser_t *p, const unsigned char *d, size_t n) { close_body(); tf("F "); hex(d, n); tf("\n"); RAISE_NO_ERROR; }
static ERROR_CODE on_value(struct http_parser_t *p, const unsigned char *d, size_t n) { close_body(); tf("V "); hex(d, n); tf("\n"); RAISE_NO_ERROR; }
static ERROR_CODE on_headers(struct http_parser_t *p) {
    close_body();
    if(p->type == HTTP_REQUEST) { tf("HEAD %s %d.%d\n", get_http_method_string((enum http_method_e) p->method), p->http_major, p->http_minor); }
    else { tf("HEAD %d %d.%d\n", p->status_code, p->http_major, p->http_minor); }
    RAISE_NO_ERROR;
}
static ERROR_CODE on_body(struct http_parser_t *p, const unsigned char *d, size_t n) {
    size_t i; static const char h[] = "0123456789abcdef";
    if(!in_body) { tf("BODY x"); in_body = 1; }
    for(i = 0; i < n; i++) { char b[3]; b[0] = h[d[i] >> 4]; b[1] = h[d[i] & 15]; b[2] = 0; if(n < 64) { tf("%s", b); } else { break; } }
    if(n >= 64) {
        char *t = malloc(2 * n + 1); size_t o = 0;
        for(i = 0; i < n; i++) { t[2 * i] = h[d[i] >> 4]; t[2 * i + 1] = h[d[i] & 15]; }
        t[2 * n] = 0;
        while(o < 2 * n) { char c = 0; size_t e = o + 400 > 2 * n ? 2 * n : o + 400; c = t[e]; t[e] = 0; tf("%s", t + o); t[e] = c; o = e; }
        free(t);
    }
    RAISE_NO_ERROR;
}
static ERROR_CODE on_complete(struct http_parser_t *p) {
    close_body();
    tf("DONE %d %d\n", p->flags & FLAG_KEEP_ALIVE ? 1 : 0, p->flags & FLAG_CLOSE ? 1 : 0); in_msg = 0; RAISE_NO_ERROR;
}
/* request flag, data, lengths of the reads (u32 each; the rest arrives in a last read) */
static void parse(void) {
    struct http_parser_t *p; struct http_settings_t *s;
    size_t n = A[1].n, fed = 0, off = 0; unsigned char *b = malloc(n + 1); rd_t r = rd_arg(2); int err = 0;
    char request = (char) arg_i(0);
    memcpy(b, A[1].p, n); t_reset(); in_body = in_msg = 0;
    create_http_parser(&p, request); create_http_settings(&s);
    s->on_message_begin = on_begin; s->on_url = on_url; s->on_line = on_line; s->on_header_field = on_field; s->on_header_value = on_value;
    s->on_headers_complete = on_headers; s->on_body = on_body; s->on_message_complete = on_complete;
    __asan_poison_memory_region(b, n);
    while(fed < n && !err) {
        size_t k = rd_more(&r) ? rd_u32(&r) : n - fed; if(k > n - fed) { k = n - fed; } if(k == 0) { continue; }
        /* only what was received is readable */
        __asan_unpoison_memory_region(b, fed + k); fed += k;
        if(fed < n) { __asan_poison_memory_region(b + fed, n - fed); }
        while(1) {
            size_t left = fed - off; int done;
            if(left == 0) { break; }
            done = process_data_http_parser(p, s, b + off, left);
            if(done == -1) { err = 1; break; }
            if(done < 0 || (size_t) done > left) { close_body(); tf("OVERRUN\n"); err = 1; break; }
            off += (size_t) done;
            if(done == 0 || (size_t) done == left) { break; }
        }
    }
    /* the end of the connection */
    if(!err) { process_data_http_parser(p, s, b + n, 0); }
    close_body();
    tf("%s\n", err ? "ERROR" : "OK");
    __asan_unpoison_memory_region(b, n);
    delete_http_parser(p); delete_http_settings(s); free(b);
    t_out();
}
static void range(void) {
    size_t first = 0xdead, last = 0xbeef; ERROR_CODE e;
    e = get_http_range_limits((unsigned char *) arg_s(0), &first, &last, (size_t) arg_i(1));
    out_i(e ? 1 : 0); out_i((long long) first); out_i((long long) last);
}
static void auth(void) {
    FILE *f = fopen("auth.pw", "wb"); unsigned char result = 77; ERROR_CODE e;
    fwrite(A[0].p, 1, A[0].n, f); fclose(f);
    e = auth_http("auth.pw", arg_s(1), &result);
    out_i(e ? 1 : 0); out_i(result);
}
op_t ops_http[] = { {"parse", parse}, {"range", range}, {"auth", auth}, {NULL, NULL} };
