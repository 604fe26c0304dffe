/* structures: maps, lists, queues, buffers, sorting */
#include "viriatum.h"
#include "w.h"
#define V(x) ((void *) (size_t) (x))

static void hm(void) {
    struct hash_map_t *m; rd_t r = rd_arg(1); t_reset();
    create_hash_map(&m, (size_t) arg_i(0));
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint64_t k, v; char *s; void *g = V(77); struct iterator_t *it; struct hash_map_element_t *e; size_t n = 0;
        switch(op) {
            case 1: k = rd_u64(&r); v = rd_u64(&r); set_value_hash_map(m, (size_t) k, NULL, V(v)); break;
            case 2: s = rd_str(&r); v = rd_u64(&r); set_value_string_hash_map(m, (unsigned char *) s, V(v)); memset(s, '!', strlen(s)); free(s); break;
            case 3: k = rd_u64(&r); s = rd_str(&r); v = rd_u64(&r); set_value_hash_map(m, (size_t) k, (unsigned char *) s, V(v)); memset(s, '!', strlen(s)); free(s); break;
            case 4: k = rd_u64(&r); get_value_hash_map(m, (size_t) k, NULL, &g); tf("%zu\n", (size_t) g); break;
            case 5: s = rd_str(&r); get_value_string_hash_map(m, (unsigned char *) s, &g); tf("%zu\n", (size_t) g); free(s); break;
            case 6: k = rd_u64(&r); s = rd_str(&r); get_value_hash_map(m, (size_t) k, (unsigned char *) s, &g); tf("%zu\n", (size_t) g); free(s); break;
            case 7: tf("%zu\n", m->size); break;
            case 8:
                create_element_iterator_hash_map(m, &it);
                while(n++ < 100000) { get_next_iterator(it, (void **) &e); if(e == NULL) { break; } tf("%zu,", e->key); if(e->key_string) thex(e->key_string, strlen((char *) e->key_string)); else tf("-"); tf(",%zu ", (size_t) e->value); }
                delete_iterator_hash_map(m, it); tf("\n"); break;
            case 9: {
                size_t *kp;
                create_iterator_hash_map(m, &it);
                while(n++ < 100000) { get_next_iterator(it, (void **) &kp); if(kp == NULL) { break; } tf("%zu ", *kp); }
                delete_iterator_hash_map(m, it); tf("\n"); break;
            }
            case 10: /* partial iteration followed by a reset of the iterator */
                create_element_iterator_hash_map(m, &it);
                get_next_iterator(it, (void **) &e); reset_iterator_hash_map(m, it);
                while(n < 100000) { get_next_iterator(it, (void **) &e); if(e == NULL) { break; } n++; }
                delete_iterator_hash_map(m, it); tf("%zu\n", n); break;
        }
    }
    delete_hash_map(m); t_out();
}

static void sm(void) {
    struct sort_map_t *m; rd_t r = rd_arg(1); t_reset();
    create_sort_map(&m, (size_t) arg_i(0));
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint64_t k, v; char *s; void *g = V(77); struct iterator_t *it; struct hash_map_element_t *e; size_t n = 0; void *kp;
        switch(op) {
            case 2: s = rd_str(&r); v = rd_u64(&r); set_value_string_sort_map(m, (unsigned char *) s, V(v)); memset(s, '!', strlen(s)); free(s); break;
            case 3: k = rd_u64(&r); s = rd_str(&r); v = rd_u64(&r); set_value_sort_map(m, (size_t) k, (unsigned char *) s, V(v)); memset(s, '!', strlen(s)); free(s); break;
            case 5: s = rd_str(&r); get_value_string_sort_map(m, (unsigned char *) s, &g); tf("%zu\n", (size_t) g); free(s); break;
            case 6: k = rd_u64(&r); s = rd_str(&r); get_value_sort_map(m, (size_t) k, (unsigned char *) s, &g); tf("%zu\n", (size_t) g); free(s); break;
            case 8:
                create_element_iterator_sort_map(m, &it);
                while(n++ < 100000) { get_next_iterator(it, (void **) &e); if(e == NULL) { break; } tf("%zu,", e->key); if(e->key_string) thex(e->key_string, strlen((char *) e->key_string)); else tf("-"); tf(",%zu ", (size_t) e->value); }
                delete_iterator_sort_map(m, it); tf("\n"); break;
            case 9:
                create_iterator_sort_map(m, &it);
                while(n < 100000) { get_next_iterator(it, &kp); if(kp == NULL) { break; } n++; }
                delete_iterator_sort_map(m, it); tf("%zu\n", n); break;
            case 10:
                create_element_iterator_sort_map(m, &it);
                get_next_iterator(it, (void **) &e); reset_iterator_sort_map(m, it);
                while(n < 100000) { get_next_iterator(it, (void **) &e); if(e == NULL) { break; } n++; }
                delete_iterator_sort_map(m, it); tf("%zu\n", n); break;
        }
    }
    delete_sort_map(m); t_out();
}

static int cmp_val(void *a, void *b) { long x = (long) a >> 8, y = (long) b >> 8; return x < y ? -1 : x > y; }
static int cmp_rev(void *a, void *b) { return -cmp_val(a, b) * 1000; }
static int cmp_big(void *a, void *b) { return cmp_val(a, b) * 0x7fffffff; }
static int cmp_eq(void *a, void *b) { (void) a; (void) b; return 0; }
static int (*cmps[])(void *, void *) = { cmp_val, cmp_rev, cmp_big, cmp_eq };

static void ll(void) {
    struct linked_list_t *l; rd_t r = rd_arg(0); t_reset();
    create_linked_list(&l);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint64_t v = rd_u32(&r), i = rd_u32(&r); void *g = V(77), *h; struct iterator_t *it; struct linked_list_node_t *n; void **seq; size_t c = 0, j;
        switch(op) {
            case 1: append_value_linked_list(l, V(v)); break;
            case 2: append_front_value_linked_list(l, V(v)); break;
            case 3: append_index_value_linked_list(l, V(v), (size_t) i); break;
            case 4: create_linked_list_node(&n); n->value = V(v); append_linked_list(l, n); break;
            case 5: create_linked_list_node(&n); n->value = V(v); append_front_linked_list(l, n); break;
            case 6: create_linked_list_node(&n); n->value = V(v); append_index_linked_list(l, n, (size_t) i); break;
            case 7: remove_value_linked_list(l, V(v), TRUE); break;
            case 8: if(i < l->size) { remove_index_linked_list(l, (size_t) i, TRUE); } break;
            case 9: if(i < l->size) { get_linked_list(l, (size_t) i, &n); remove_linked_list(l, n, TRUE); } break;
            case 10: if(i < l->size) { get_value_linked_list(l, (size_t) i, &g); tf("%zu\n", (size_t) g); } break;
            case 11: peek_value_linked_list(l, &g); peek_top_value_linked_list(l, &h); tf("%zu %zu\n", (size_t) g, (size_t) h); break;
            case 12: pop_value_linked_list(l, &g, TRUE); tf("%zu\n", (size_t) g); break;
            case 13: pop_top_value_linked_list(l, &g, TRUE); tf("%zu\n", (size_t) g); break;
            case 14: pop_linked_list(l, &n); tf("%zu\n", n ? (size_t) n->value : 0); if(n) delete_linked_list_node(n); break;
            case 15: pop_top_linked_list(l, &n); tf("%zu\n", n ? (size_t) n->value : 0); if(n) delete_linked_list_node(n); break;
            case 16: clear_linked_list(l); break;
            case 17: sort_linked_list(l, cmps[i & 3]); break;
            case 18: tf("%zu\n", l->size); break;
            case 19: create_iterator_linked_list(l, &it); while(c++ < 100000) { get_next_iterator(it, &g); if(g == NULL) { break; } tf("%zu ", (size_t) g); } delete_iterator_linked_list(l, it); tf("\n"); break;
            case 20: to_sequence_linked_list(l, &seq); for(j = 0; j < l->size; j++) tf("%zu ", (size_t) seq[j]); free(seq); tf("\n"); break;
            case 21: for(n = l->last; n && c++ < 100000; n = n->previous) tf("%zu ", (size_t) n->value); tf("\n"); break;
            case 22: create_iterator_linked_list(l, &it); for(j = 0; j < i; j++) get_next_iterator(it, &g); reset_iterator_linked_list(l, it); while(c++ < 100000) { get_next_iterator(it, &g); if(g == NULL) { break; } tf("%zu ", (size_t) g); } delete_iterator_linked_list(l, it); tf("\n"); break;
        }
    }
    delete_linked_list(l); t_out();
}

static void al(void) {
    struct array_list_t *l; size_t es = (size_t) arg_i(0), n = (size_t) arg_i(1); rd_t r = rd_arg(2); t_reset();
    create_array_list(&l, es, n);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint32_t i = rd_u32(&r); void *g; unsigned char *b; size_t k;
        if(op == 1) { b = rd_bytes(&r, &k); set_array_list(l, i, b); memset(b, 0x55, k); free(b); }
        else { get_array_list(l, i, &g); thex(g, es); tf("\n"); }
    }
    delete_array_list(l); t_out();
}

static void pq(void) {
    struct priority_queue_t *q; rd_t r = rd_arg(1); t_reset();
    create_priority_queue(&q, (comparator) cmps[arg_i(0) & 3]);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint64_t v = rd_u32(&r); void *g = V(77);
        if(op == 1) { push_priority_queue(q, V(v)); }
        else if(op == 2) { pop_priority_queue(q, &g); tf("%zu\n", (size_t) g); }
        else { tf("%zu\n", q->size); }
    }
    delete_priority_queue(q); t_out();
}

static void sb(void) {
    struct string_buffer_t *b; rd_t r = rd_arg(0); size_t n; unsigned char *p, *j; struct string_t st; t_reset();
    create_string_buffer(&b);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r);
        switch(op) {
            case 1: append_string_buffer(b, (unsigned char *) rd_str(&r)); break;
            case 2: p = rd_bytes(&r, &n); append_string_l_buffer(b, p, n); break;
            case 3: p = rd_bytes(&r, &n); st.buffer = p; st.length = n; append_string_t_buffer(b, &st); break;
            case 4: _append_string_buffer(b, (unsigned char *) rd_str(&r)); break;
            case 5: p = rd_bytes(&r, &n); _append_string_l_buffer(b, p, n); break;
            case 6: p = rd_bytes(&r, &n); st.buffer = p; st.length = n; _append_string_t_buffer(b, &st); break;
            case 7: j = NULL; join_string_buffer(b, &j); thex(j, b->string_length + 1); tf(" %zu\n", b->string_length); free(j); break;
        }
    }
    delete_string_buffer(b); t_out();
}

static void lb(void) {
    struct linked_buffer_t *b; rd_t r = rd_arg(0); size_t n; unsigned char *p, *j; t_reset();
    create_linked_buffer(&b);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r);
        switch(op) {
            case 1: p = rd_bytes(&r, &n); append_linked_buffer(b, p, n, FALSE); break;
            case 2: p = rd_bytes(&r, &n); append_linked_buffer(b, p, n, TRUE); break;
            case 3: p = rd_bytes(&r, &n); _append_linked_buffer(b, p, n); break;
            case 7: j = NULL; join_linked_buffer(b, &j); thex(j, b->buffer_length); tf(" %zu\n", b->buffer_length); free(j); break;
        }
    }
    delete_linked_buffer(b); t_out();
}

typedef struct { void **s; size_t beg, end; comparator c; } qs_job;
static void *qs_run(void *p) { qs_job *j = (qs_job *) p; sort_quicksort(j->s, j->beg, j->end, j->c); return NULL; }

static void qs(void) {
    size_t n, i; unsigned char *raw = arg_b(1, &n); size_t cnt = n / 4, beg = (size_t) arg_i(2), end = (size_t) arg_i(3);
    void **s = malloc(cnt * sizeof(void *)); t_reset();
    for(i = 0; i < cnt; i++) { uint32_t v; memcpy(&v, raw + 4 * i, 4); s[i] = V(v); }
    qs_job job = { s, beg, end, (comparator) cmps[arg_i(0) & 3] };
    if(arg_i(4)) {
        /* sorts in a thread whose stack is small, the way the worker threads of a server may be */
        pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t) arg_i(4));
        if(pthread_create(&t, &a, qs_run, &job)) abort();
        pthread_join(t, NULL); pthread_attr_destroy(&a);
    } else qs_run(&job);
    for(i = 0; i < cnt; i++) tf("%zu ", (size_t) s[i]);
    t_out();
}

op_t ops_structs[] = { {"hm", hm}, {"sm", sm}, {"ll", ll}, {"al", al}, {"pq", pq}, {"sb", sb}, {"lb", lb}, {"qs", qs}, {NULL, NULL} };
