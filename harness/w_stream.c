/* streams, bit streams and huffman coding */
#include "viriatum.h"
#include "w.h"

static void slurp(const char *p) {
    FILE *f = fopen(p, "rb"); unsigned char b[4096]; size_t n, t = 0; unsigned char *all = NULL;
    if(f == NULL) { out("", 0); return; }
    while((n = fread(b, 1, sizeof(b), f)) > 0) { all = realloc(all, t + n); memcpy(all + t, b, n); t += n; }
    fclose(f); out(all ? (void *) all : (void *) "", t); free(all);
}
static void put(const char *p, const void *b, size_t n) { FILE *f = fopen(p, "wb"); fwrite(b, 1, n, f); fclose(f); }

static void bits(void) {
    struct file_stream_t *fs; struct bit_stream_t *bs; rd_t r = rd_arg(0); t_reset();
    create_file_stream(&fs, (unsigned char *) "bits.tmp", (unsigned char *) "wb"); create_bit_stream(&bs, fs->stream); open_bit_stream(bs);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint32_t v = rd_u32(&r); unsigned char n = rd_u8(&r);
        if(op == 1) write_byte_bit_stream(bs, (unsigned char) v, n); else write_word_bit_stream(bs, (unsigned short) v, n);
    }
    tf("%zu\n", bs->bit_counter_write);
    close_bit_stream(bs); delete_bit_stream(bs); delete_file_stream(fs);
    slurp("bits.tmp");
    create_file_stream(&fs, (unsigned char *) "bits.tmp", (unsigned char *) "rb"); create_bit_stream(&bs, fs->stream); open_bit_stream(bs);
    r = rd_arg(1);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint32_t v = rd_u32(&r); unsigned char b = 0xaa; unsigned short w = 0xaaaa;
        if(op == 1) { read_byte_bit_stream(bs, &b, (unsigned char) v); tf("%u\n", b); }
        else if(op == 2) { read_word_bit_stream(bs, &w, (unsigned char) v); tf("%u\n", w); }
        else seek_bit_stream(bs, (long long) v);
    }
    tf("%zu\n", bs->bit_counter_read);
    close_bit_stream(bs); delete_bit_stream(bs); delete_file_stream(fs); unlink("bits.tmp"); t_out();
}

static void strm(void) {
    int file = (int) arg_i(0); rd_t r = rd_arg(1); struct memory_stream_t *ms = NULL; struct file_stream_t *fs = NULL; struct stream_t *s; size_t n, k; unsigned char *b; t_reset();
    if(file) { create_file_stream(&fs, (unsigned char *) "strm.tmp", (unsigned char *) "wb+"); s = get_stream_file_stream(fs); }
    else { create_memory_stream(&ms); s = get_stream_memory_stream(ms); }
    s->open(s);
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r); uint32_t v;
        switch(op) {
            case 1: b = rd_bytes(&r, &n); tf("%zu\n", s->write(s, b, n)); free(b); break;
            case 2: v = rd_u32(&r); b = malloc(v); k = s->read(s, b, v); thex(b, k > v ? v : k); tf(" %zu\n", k); free(b); break;
            case 3: v = rd_u32(&r); s->seek(s, v); break;
            case 4: tf("%zu\n", s->tell(s)); break;
            case 5: tf("%zu\n", s->size(s)); break;
            case 6: s->flush(s); break;
        }
    }
    s->close(s);
    if(file) delete_file_stream(fs); else delete_memory_stream(ms);
    if(file) { slurp("strm.tmp"); unlink("strm.tmp"); }
    t_out();
}

static void huff(void) {
    size_t n, i, j; unsigned char *b = arg_b(0, &n); struct huffman_t *h; struct file_stream_t *in, *o; int prefix = 0; t_reset();
    put("h.in", b, n); free(b);
    create_file_stream(&in, (unsigned char *) "h.in", (unsigned char *) "rb"); create_file_stream(&o, (unsigned char *) "h.enc", (unsigned char *) "wb");
    create_huffman(&h); generate_table_huffman(h, in->stream); if(arg_i(1)) generate_prefix_huffman(h);
    encode_huffman(h, in->stream, o->stream); delete_file_stream(o); delete_file_stream(in);
    if(!arg_i(1)) generate_prefix_huffman(h);
    for(i = 0; i < 256; i++) for(j = 0; j < 256; j++) {
        struct huffman_node_t *x = h->nodes[i], *y = h->nodes[j];
        if(i == j || !x || !y || x->bit_count > y->bit_count) continue;
        if((y->code >> (y->bit_count - x->bit_count)) == x->code) prefix++;
    }
    for(i = 0; i < 256; i++) if(h->nodes[i]) tf("%zu,%u,%zu ", i, h->nodes[i]->bit_count, h->freqs[i]);
    tf("\n%lld %d\n", h->bit_count, prefix); t_out();
    slurp("h.enc");
    for(i = 0; i < 3; i++) {
        create_file_stream(&in, (unsigned char *) "h.enc", (unsigned char *) "rb"); create_file_stream(&o, (unsigned char *) "h.out", (unsigned char *) "wb");
        if(i == 0) decode_huffman(h, in->stream, o->stream); else if(i == 1) decode_tree_huffman(h, in->stream, o->stream); else decode_table_huffman(h, in->stream, o->stream);
        delete_file_stream(o); delete_file_stream(in); slurp("h.out"); unlink("h.out");
    }
    unlink("h.in"); unlink("h.enc"); delete_huffman(h);
}
op_t ops_stream[] = { {"bits", bits}, {"strm", strm}, {"huff", huff}, {NULL, NULL} };
