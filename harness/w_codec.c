/* codecs, checksums, ciphers, urls and password files */
#include "viriatum.h"
#include "w.h"

static void b64e(void) { size_t n, m = 0; unsigned char *b = arg_b(0, &n), *o = NULL; ERROR_CODE e = encode_base64(b, n, &o, &m); out_i(e ? 1 : 0); if(!e) out(o, m); free(b); free(o); }
static void b64d(void) { size_t n, m = 0; unsigned char *b = arg_b(0, &n), *o = NULL; ERROR_CODE e = decode_base64(b, n, &o, &m); out_i(e ? 1 : 0); if(!e) { out(o, m); free(o); } free(b); }

/* percent: allocated interface and caller provided buffer with a guard after it */
static void pce(void) {
    size_t n, m = 0, k, i, bad = 0; unsigned char *b = arg_b(0, &n), *o = NULL, *g; ERROR_CODE e;
    e = url_encode(b, n, &o, &m); out_i(e ? 1 : 0); out(o, m); k = m + 1;
    g = malloc(k); e = encode_percent(b, n, g, &m); out_i(e ? 1 : 0); out(g, m);
    for(i = m; i < k; i++) if(g[i]) bad++;
    out_i((long long) bad); free(g); free(o); free(b);
}
static void pcd(void) {
    size_t n, m = 0, i, k, bad = 0; unsigned char *b = arg_b(0, &n), *o = NULL, *g; ERROR_CODE e;
    e = url_decode(b, n, &o, &m); out_i(e ? 1 : 0); out(o, e ? 0 : m); free(o);
    /* the exact room the result needs when it is valid */
    if(!e) {
        k = m + 1; g = malloc(k); memset(g, 0xee, k);
        e = decode_percent(b, n, g, &m); out_i(e ? 1 : 0); out(g, m);
        for(i = m; i < k; i++) if(g[i]) bad++;
        out_i((long long) bad); free(g);
    }
    free(b);
}

static struct type_t *be_read(rd_t *r) {
    struct type_t *t; unsigned char k = rd_u8(r); uint32_t n, i; size_t l; unsigned char *b; char *s;
    switch(k) {
        case 'i': create_type(&t, INTEGER_TYPE); t->value.value_int = (int) rd_u32(r); return t;
        case 's': b = rd_bytes(r, &l); create_type(&t, STRING_TYPE); s = malloc(l + 1); memcpy(s, b, l); s[l] = 0; free(b); *t = buffer_type(s, l); return t;
        case 'l': {
            struct linked_list_t *ls; create_linked_list(&ls); n = rd_u32(r);
            for(i = 0; i < n; i++) append_value_linked_list(ls, be_read(r));
            create_type(&t, LIST_TYPE); *t = list_type(ls); return t;
        }
        case 'm': {
            struct hash_map_t *m; create_hash_map(&m, 0); n = rd_u32(r);
            for(i = 0; i < n; i++) { s = rd_str(r); set_value_string_hash_map(m, (unsigned char *) s, be_read(r)); }
            create_type(&t, MAP_TYPE); *t = map_type(m); return t;
        }
        default: {
            struct sort_map_t *m; create_sort_map(&m, 0); n = rd_u32(r);
            for(i = 0; i < n; i++) { s = rd_str(r); set_value_string_sort_map(m, (unsigned char *) s, be_read(r)); }
            create_type(&t, SORT_MAP_TYPE); *t = sort_map_type(m); return t;
        }
    }
}
static void be_dump(struct type_t *t) {
    struct iterator_t *it; struct type_t *c; struct hash_map_element_t *e;
    switch(t->type) {
        case INTEGER_TYPE: tf("i%d ", t->value.value_int); break;
        case STRING_TYPE: thex(t->value.value_string, t->size); tf(" "); break;
        case LIST_TYPE:
            tf("[ "); create_iterator_linked_list(t->value.value_list, &it);
            while(1) { get_next_iterator(it, (void **) &c); if(c == NULL) { break; } be_dump(c); }
            delete_iterator_linked_list(t->value.value_list, it); tf("] "); break;
        case MAP_TYPE:
            tf("{ "); create_element_iterator_hash_map(t->value.value_map, &it);
            while(1) { get_next_iterator(it, (void **) &e); if(e == NULL) { break; } thex(e->key_string, strlen((char *) e->key_string)); tf(" "); be_dump((struct type_t *) e->value); }
            delete_iterator_hash_map(t->value.value_map, it); tf("} "); break;
        case SORT_MAP_TYPE:
            tf("{ "); create_element_iterator_sort_map(t->value.value_sort_map, &it);
            while(1) { get_next_iterator(it, (void **) &e); if(e == NULL) { break; } thex(e->key_string, strlen((char *) e->key_string)); tf(" "); be_dump((struct type_t *) e->value); }
            delete_iterator_sort_map(t->value.value_sort_map, it); tf("} "); break;
        default: tf("? "); break;
    }
}
static void bee(void) {
    rd_t r = rd_arg(0); struct type_t *t = be_read(&r); unsigned char *o = NULL; size_t m = 0; ERROR_CODE e = encode_bencoding(t, &o, &m);
    out_i(e ? 1 : 0); if(!e) out(o, m); free(o); free_type(t);
}
static void bed(void) {
    size_t n; unsigned char *b = arg_b(0, &n); struct type_t *t = NULL; ERROR_CODE e = decode_bencoding(b, n, &t); t_reset();
    free(b); out_i(e ? 1 : 0); if(!e && t) { be_dump(t); t_out(); free_type(t); } else { out("", 0); }
}
static void bef(void) {
    rd_t r = rd_arg(0); struct type_t *t = be_read(&r), *u = NULL; char *p = arg_s(1); ERROR_CODE e; t_reset();
    e = encode_bencoding_file(p, t); out_i(e ? 1 : 0); e = decode_bencoding_file(p, &u); out_i(e ? 1 : 0);
    if(!e) { be_dump(u); free_type(u); } t_out(); free_type(t); unlink(p); free(p);
}

/* data, then the sizes of the updates: digests in one call and in parts, whether the data was changed */
static void digests(void) {
    size_t n, off = 0; unsigned char *b = arg_b(0, &n), *c = arg_b(0, &n); rd_t r = rd_arg(1);
    unsigned char d[20]; struct md5_context_t m; struct sha1_context_t s;
    md5(b, (unsigned int) n, d); out(d, 16); sha1(b, (unsigned int) n, d); out(d, 20); out_i((long long) (crc_32(b, (unsigned int) n) & 0xffffffff));
    init_md5(&m); init_sha1(&s);
    while(rd_more(&r)) {
        size_t k = rd_u32(&r); unsigned char *p; if(k > n - off) k = n - off;
        p = malloc(k); memcpy(p, b + off, k); update_md5(&m, p, k); update_sha1(&s, p, k);
        if(memcmp(p, c + off, k)) b[0] ^= 1;
        free(p); off += k;
    }
    update_md5(&m, b + off, n - off); update_sha1(&s, b + off, n - off);
    final_md5(&m, d); out(d, 16); final_sha1(&s, d); out(d, 20);
    out_i(memcmp(b, c, n) == 0); free(b); free(c);
}
/* many bytes: the digest (0 md5, 1 sha1), the repeated piece, then the sizes of the updates, each of the piece repeated */
static void digests_big(void) {
    size_t n, size = 0, i; int kind = (int) arg_i(0); unsigned char *b = arg_b(1, &n), *p = NULL; rd_t r = rd_arg(2);
    unsigned char d[20]; struct md5_context_t m; struct sha1_context_t s;
    init_md5(&m); init_sha1(&s);
    while(rd_more(&r)) {
        size_t k = rd_u32(&r);
        if(k > size) { p = realloc(p, k); for(i = 0; i < k; i += n) memcpy(p + i, b, k - i < n ? k - i : n); size = k; }
        if(kind) update_sha1(&s, p, (unsigned int) k); else update_md5(&m, p, (unsigned int) k);
    }
    if(kind) { final_sha1(&s, d); out(d, 20); } else { final_md5(&m, d); out(d, 16); }
    free(p); free(b);
}
static void rc4_op(void) {
    char *key = arg_s(0); size_t n, off = 0; unsigned char *b = arg_b(1, &n), *c = arg_b(1, &n), *o = malloc(n ? n : 1), *q = malloc(n ? n : 1); rd_t r = rd_arg(2); struct rc4_t *x; char *z = NULL;
    create_rc4(key, &x);
    while(rd_more(&r)) { size_t k = rd_u32(&r); unsigned char *p, *w; if(k > n - off) k = n - off; p = malloc(k); w = malloc(k); memcpy(p, b + off, k); cipher_rc4(x, (char *) p, k, (char *) w); memcpy(o + off, w, k); free(p); free(w); off += k; }
    cipher_rc4(x, (char *) b + off, n - off, (char *) o + off); delete_rc4(x);
    out(o, n); memcpy(q, o, n);
    create_rc4(key, &x); cipher_rc4(x, (char *) q, n, (char *) q); delete_rc4(x); out(q, n);
    out_i(memcmp(b, c, n) == 0);
    { char *msg = malloc(n + 1); memcpy(msg, b, n); msg[n] = 0; if(strlen(msg) == n) { crypt_rc4(msg, key, &z); out(z, n); free(z); } free(msg); }
    free(b); free(c); free(o); free(q); free(key);
}
static void urlc(const char *name, struct string_t *s) { tf("%s ", name); if(s->buffer) thex(s->buffer, s->length); else tf("-"); tf("\n"); }
static void urlp(void) {
    size_t n; unsigned char *b = arg_b(0, &n); struct url_t u; ERROR_CODE e; t_reset();
    memset(&u, 0x5a, sizeof(u)); e = parse_url((char *) b, n, &u); out_i(e ? 1 : 0);
    if(!e) { urlc("scheme", &u.scheme); urlc("user", &u.username); urlc("password", &u.password); urlc("host", &u.host); urlc("path", &u.path); urlc("query", &u.query); urlc("fragment", &u.fragment); tf("port %u\n", u.port); }
    t_out(); free(b);
}
static void st(const char *name, char *s, size_t n) { size_t l = strnlen(s, n); tf("%s ", name); if(l == n) tf("unterminated"); else thex(s, l); tf("\n"); }
static void urls(void) {
    size_t n; unsigned char *b = arg_b(0, &n); struct url_static_t *u = malloc(sizeof(struct url_static_t)); ERROR_CODE e; t_reset();
    memset(u, 0x5a, sizeof(*u)); e = parse_url_static((char *) b, n, u); out_i(e ? 1 : 0);
    if(!e) { st("scheme", u->scheme, sizeof(u->scheme)); st("user", u->username, sizeof(u->username)); st("password", u->password, sizeof(u->password)); st("host", u->host, sizeof(u->host)); st("path", u->path, sizeof(u->path)); st("query", u->query, sizeof(u->query)); st("fragment", u->fragment, sizeof(u->fragment)); tf("port %u\n", u->port); }
    t_out(); free(b); free(u);
}
static void passwd(void) {
    size_t n; unsigned char *b = arg_b(0, &n); FILE *f = fopen("passwd.tmp", "wb"); struct hash_map_t *m = NULL; ERROR_CODE e; struct iterator_t *it; struct hash_map_element_t *el; rd_t r = rd_arg(1); void *g; char *s; t_reset();
    fwrite(b, 1, n, f); fclose(f);
    e = process_passwd_file("passwd.tmp", &m); unlink("passwd.tmp"); out_i(e ? 1 : 0);
    if(!e) {
        create_element_iterator_hash_map(m, &it);
        while(1) { get_next_iterator(it, (void **) &el); if(el == NULL) { break; } thex(el->key_string, strlen((char *) el->key_string)); tf(" "); thex(el->value, strlen((char *) el->value)); tf("\n"); }
        delete_iterator_hash_map(m, it); t_out(); t_reset();
        while(rd_more(&r)) { s = rd_str(&r); g = NULL; get_value_string_hash_map(m, (unsigned char *) s, &g); if(g) thex(g, strlen(g)); else tf("-"); tf("\n"); free(s); }
        t_out();
    }
    free(b);
}
op_t ops_codec[] = { {"b64e", b64e}, {"b64d", b64d}, {"pce", pce}, {"pcd", pcd}, {"bee", bee}, {"bed", bed}, {"bef", bef}, {"digests", digests}, {"digests_big", digests_big}, {"rc4", rc4_op}, {"urlp", urlp}, {"urls", urls}, {"passwd", passwd}, {NULL, NULL} };
