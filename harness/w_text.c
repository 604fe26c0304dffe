/* templates, configuration, text and file helpers, request parameters */
#include "viriatum.h"
#include "w.h"
#include <sys/stat.h>

static void put(const char *p, const void *b, size_t n) { FILE *f = fopen(p, "wb"); if(f) { fwrite(b, 1, n, f); fclose(f); } }

static struct type_t *val(rd_t *r) {
    struct type_t *t; unsigned char k = rd_u8(r); uint32_t n, i;
    switch(k) {
        case 'i': create_type(&t, INTEGER_TYPE); t->value.value_int = (int) rd_u32(r); return t;
        case 'f': create_type(&t, FLOAT_TYPE); { uint32_t v = rd_u32(r); float f; memcpy(&f, &v, 4); t->value.value_float = f; } return t;
        case 's': create_type(&t, STRING_TYPE); t->value.value_string = rd_str(r); return t;
        case 'l': {
            struct linked_list_t *l; create_linked_list(&l); n = rd_u32(r);
            for(i = 0; i < n; i++) append_value_linked_list(l, val(r));
            create_type(&t, LIST_TYPE); t->value.value_list = l; return t;
        }
        default: {
            struct hash_map_t *m; create_hash_map(&m, 0); n = rd_u32(r);
            for(i = 0; i < n; i++) { char *s = rd_str(r); set_value_string_hash_map(m, (unsigned char *) s, val(r)); }
            create_type(&t, MAP_TYPE); t->value.value_map = m; return t;
        }
    }
}
static void tpl(void) {
    struct template_handler_t *h; rd_t r = rd_arg(1); put("t.tpl", A[0].p, A[0].n);
    create_template_handler(&h);
    while(rd_more(&r)) {
        char *name = rd_str(&r); struct type_t *t; unsigned char k = *r.p;
        t = val(&r);
        if(k == 'i') assign_integer_template_handler(h, (unsigned char *) name, t->value.value_int);
        else if(k == 's') assign_string_template_handler(h, (unsigned char *) name, t->value.value_string);
        else if(k == 'l') assign_list_template_handler(h, (unsigned char *) name, t->value.value_list);
        else assign_template_handler(h, (unsigned char *) name, t);
    }
    process_template_handler(h, (unsigned char *) "t.tpl");
    out_s((char *) h->string_value);
    delete_template_handler(h);
}

static void smap(struct sort_map_t *c, int top) {
    struct iterator_t *it; struct hash_map_element_t *e;
    create_element_iterator_sort_map(c, &it);
    while(1) {
        get_next_iterator(it, (void **) &e); if(e == NULL) { break; }
        if(top) { tf("S "); thex(e->key_string, strlen((char *) e->key_string)); tf("\n"); smap((struct sort_map_t *) e->value, 0); }
        else { tf("K "); thex(e->key_string, strlen((char *) e->key_string)); tf(" "); thex(e->value, strlen((char *) e->value)); tf("\n"); }
    }
    delete_iterator_sort_map(c, it);
}
static void ini(void) {
    struct sort_map_t *c = NULL; ERROR_CODE e; t_reset(); put("i.ini", A[0].p, A[0].n);
    e = process_ini_file("i.ini", &c);
    out_i(e ? 1 : 0); if(c) { smap(c, 1); delete_configuration(c, 1); } t_out();
}
static int list(int i, char **v) { rd_t r = rd_arg(i); int n = 0; while(rd_more(&r) && n < 62) v[n++] = rd_str(&r); v[n] = NULL; return n; }
static void args(void) {
    char *v[64]; int n; struct hash_map_t *m; struct iterator_t *it; struct hash_map_element_t *e; t_reset();
    n = list(0, v); process_arguments(n, v, &m);
    create_element_iterator_hash_map(m, &it);
    while(1) {
        struct argument_t *a; get_next_iterator(it, (void **) &e); if(e == NULL) { break; }
        a = (struct argument_t *) e->value;
        thex(e->key_string, strlen((char *) e->key_string)); tf(" %s ", a->type == VALUE_ARGUMENT ? "v" : "s"); thex(a->value, a->type == VALUE_ARGUMENT ? strlen(a->value) : 0); tf("\n");
    }
    delete_iterator_hash_map(m, it); tf("%zu\n", m->size); t_out(); delete_arguments(m);
}
static void xs(const char *k, const void *s) { tf("%s ", k); if(s) thex(s, strlen((const char *) s)); else tf("-"); tf("\n"); }
static void opts(void) {
    char *v[64]; int n, had = (int) arg_i(0); size_t i; struct hash_map_t *m; struct service_t *s; struct service_options_t *o; ERROR_CODE e; t_reset();
    mkdir("conf", 0755);
    if(had) put("conf/viriatum.ini", A[1].p, A[1].n); else unlink("conf/viriatum.ini");
    n = list(2, v); process_arguments(n, v, &m);
    create_service(&s, (unsigned char *) "viriatum", (unsigned char *) "viriatum");
    e = load_options_service(s, m); o = s->options;
    calculate_options_service(s);
    if(s->configuration) calculate_locations_service(s);
    tf("status %d\nport %d\n", e ? 1 : 0, (int) o->port); xs("_port", o->_port); xs("host", o->address); tf("ip6 %d\n", !!o->ip6); xs("ip6_host", o->address6);
    tf("ssl %d\n", !!o->ssl); xs("ssl_csr", o->ssl_csr); xs("ssl_key", o->ssl_key); xs("handler", o->handler_name); tf("local %d\nworkers %d\nuse_template %d\n", !!o->local, (int) o->workers, !!o->use_template);
    tf("index_count %zu\n", o->index_count);
    for(i = 0; i < o->index_count && i < 32; i++) xs("index", o->index[i]);
    for(i = 0; i < s->locations.count; i++) { xs("location", s->locations.values[i].name); xs("path", s->locations.values[i].path); xs("lhandler", s->locations.values[i].handler); }
    n = list(3, v);
    for(i = 0; (int) i < n; i++) { char *t = s->get_mime_type(s, v[i]); xs("mime", t); }
    t_out(); delete_service(s); delete_arguments(m); unlink("conf/viriatum.ini");
}

static void sut(void) {
    char k = *arg_s(0); char *s = arg_s(1), *p; size_t n, m;
    switch(k) {
        case 't': {
            char last = A[1].n ? (char) A[1].p[A[1].n - 1] : 0; p = (char *) trim((unsigned char *) s); out_s(p);
            if(p != s) { p = (char *) untrim((unsigned char *) p, last); } out_s(p); break;
        }
        case 'l': lowercase(s); out_s(s); break;
        case 'u': uppercase(s); out_s(s); break;
        case 'n': normalize_path(s); out_s(s); break;
        case 'x': p = extension_path(s); out_s(p); out_i(p - s); break;
        case 'b': out_i(atob(s) ? 1 : 0); break;
        case 'e': out_i(ends_with_string((unsigned char *) s, (unsigned char *) arg_s(2)) ? 1 : 0); break;
        case 'T': p = (char *) arg_b(1, &n); out_i((long long) trailing_size(p, n)); free(p); break;
        case 'L': p = (char *) arg_b(1, &n); out_i((long long) leading_offset(p, n)); free(p); break;
        case 's': {
            size_t e = (size_t) arg_i(2), c = (size_t) arg_i(3), i; p = malloc(e * c); memset(p, 0x5a, e * c);
            n = split(s, p, e, (char) A[4].p[0]); out_i((long long) n);
            for(i = 0; i < n && i < c; i++) out_s(p + i * e);
            free(p); break;
        }
        case 'd': {
            n = (size_t) arg_i(2); p = malloc(n); memset(p, 0x5a, n); m = format_delta(p, n, strtoull(arg_s(3), NULL, 10), (size_t) arg_i(4));
            out(p, strnlen(p, n)); out_i((long long) m); free(p); break;
        }
        case 'f': {
            n = (size_t) arg_i(2); p = malloc(n); memset(p, 0x5a, n); m = format_bytes(p, n, (size_t) strtoull(arg_s(3), NULL, 10));
            out(p, strnlen(p, n)); out_i((long long) m); free(p); break;
        }
    }
    free(s);
}

static void fsu(void) {
    char k = *arg_s(0); char *p = arg_s(1); size_t n = 0; unsigned char *b = NULL; ERROR_CODE e; t_reset();
    switch(k) {
        case 'w': b = arg_b(2, &n); e = write_file(p, b, n); out_i(e ? 1 : 0); free(b); break;
        case 'r': e = read_file(p, &b, &n); out_i(e ? 1 : 0); if(!e) { out(b, n); free(b); } break;
        case 'c': n = 77; e = count_file(p, &n); out_i(e ? 1 : 0); out_i((long long) n); break;
        case 't': { struct date_time_t d; memset(&d, 0, sizeof(d)); e = get_write_time_file(p, &d); out_i(e ? 1 : 0); if(!e) { char z[64]; snprintf(z, 64, "%04d-%02d-%02d %02d:%02d:%02d", d.year, d.month, d.day, d.hour, d.minute, d.second); out_s(z); } break; }
        case 'd': { unsigned int d = 7; e = is_directory_file(p, &d); out_i(e ? 1 : 0); out_i(d); break; }
        case 'l': {
            struct linked_list_t *l, *m; struct iterator_t *it; struct file_t *f; struct type_t *t, *v;
            create_linked_list(&l); e = list_directory_file(p, l); out_i(e ? 1 : 0);
            if(!e) {
                create_iterator_linked_list(l, &it);
                while(1) { get_next_iterator(it, (void **) &f); if(f == NULL) { break; } thex(f->name, strlen((char *) f->name)); tf(" %d %zu %04d-%02d-%02d %02d:%02d\n", (int) f->type, f->size, f->time.year, f->time.month, f->time.day, f->time.hour, f->time.minute); }
                delete_iterator_linked_list(l, it); t_out(); t_reset();
                entries_to_map_file(l, &m); create_iterator_linked_list(m, &it);
                while(1) {
                    get_next_iterator(it, (void **) &t); if(t == NULL) { break; }
                    get_value_string_hash_map(t->value.value_map, (unsigned char *) "name", (void **) &v); thex(v->value.value_string, strlen(v->value.value_string));
                    get_value_string_hash_map(t->value.value_map, (unsigned char *) "type", (void **) &v); tf(" %d", v->value.value_int);
                    get_value_string_hash_map(t->value.value_map, (unsigned char *) "size", (void **) &v); tf(" %d", v->value.value_int);
                    get_value_string_hash_map(t->value.value_map, (unsigned char *) "time", (void **) &v); tf(" %s", v->value.value_string);
                    get_value_string_hash_map(t->value.value_map, (unsigned char *) "size_string", (void **) &v); tf(" %s\n", v->value.value_string);
                }
                delete_iterator_linked_list(m, it); t_out();
                delete_directory_entries_map_file(m); delete_linked_list(m);
            }
            delete_directory_entries_file(l); delete_linked_list(l); break;
        }
        case 'j': { char *nm = arg_s(2), *o; n = A[1].n + A[2].n + 2; o = malloc(n); memset(o, 0x5a, n); join_path_file(p, nm, o); out(o, strnlen(o, n)); free(o); free(nm); break; }
        case 'v': {
            char *v[64]; size_t c = (size_t) list(2, v), sz = (size_t) arg_i(3), i; char *buf = calloc(c ? c : 1, sz), *g;
            for(i = 0; i < c; i++) strcpy(buf + i * sz, v[i]);
            g = validate_file(p, buf, c, sz); out_i(g ? (long long) ((g - buf) / (long) sz) : -1); free(buf); break;
        }
    }
    free(p);
}

static void parm(void) {
    rd_t r = rd_arg(0); struct hash_map_t *m; static struct string_t s[4000]; unsigned char *b; size_t n = 0, i, l, bad = 0; static unsigned char *keep[4000];
    create_hash_map(&m, 0);
    while(rd_more(&r) && n < 4000) { char *k = rd_str(&r); s[n].buffer = rd_bytes(&r, &l); s[n].length = l; keep[n] = malloc(l); memcpy(keep[n], s[n].buffer, l); set_value_string_hash_map(m, (unsigned char *) k, &s[n]); n++; }
    out_i(parameters_http(m, &b, &l) ? 1 : 0); out(b, l); free(b);
    for(i = 0; i < n; i++) if(memcmp(keep[i], s[i].buffer, s[i].length)) bad++;
    out_i((long long) bad);
    for(i = 0; i < n; i++) { free(keep[i]); free(s[i].buffer); }
    delete_hash_map(m);
}
static void parmc(void) {
    rd_t r = rd_arg(1); size_t size = (size_t) arg_i(0), n = 0, l[8]; char *k[8], *v[8], *b = malloc(size); ERROR_CODE e;
    memset(l, 0, sizeof(l)); memset(k, 0, sizeof(k)); memset(v, 0, sizeof(v)); if(size) memset(b, 0x5a, size);
    while(rd_more(&r) && n < 8) { k[n] = rd_str(&r); v[n] = (char *) rd_bytes(&r, &l[n]); n++; }
    e = parameters_http_c(b, size, n, k[0], v[0], l[0], k[1], v[1], l[1], k[2], v[2], l[2], k[3], v[3], l[3], k[4], v[4], l[4], k[5], v[5], l[5], k[6], v[6], l[6], k[7], v[7], l[7]);
    out_i(e ? 1 : 0); if(!e) out(b, strnlen(b, size)); else out("", 0);
    free(b);
}
op_t ops_text[] = { { "tpl", tpl }, { "ini", ini }, { "args", args }, { "opts", opts }, { "sut", sut }, { "fsu", fsu }, { "parm", parm }, { "parmc", parmc }, { NULL, NULL } };
