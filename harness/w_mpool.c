/* the memory pool, which only a build with --enable-mpool uses */
#define HAVE_MPOOL 1
#include "stdafx.h"
#include "viriatum_commons/memory/memory_pool.c"
#include "w.h"
typedef struct { unsigned char *p; uint32_t id; } block_t;
static block_t *live; static size_t count, room, size;
static uint64_t state;
static size_t rnd(size_t n) { state = state * 6364136223846793005ULL + 1442695040888963407ULL; return (size_t)((state >> 33) % n); }
static int intact(block_t *b) { size_t i; for(i = 0; i < size; i++) { if(b->p[i] != (unsigned char)((b->id >> (8 * (i % 4))) ^ i)) return 0; } return 1; }
static void mpool(void) {
    struct memory_pool_t pool; rd_t r = rd_arg(2); uint32_t next = 1; char text[256];
    memset(&pool, 0, sizeof(pool));
    size = (size_t) arg_i(0); state = (uint64_t) arg_i(1); count = 0; t_reset();
    while(rd_more(&r)) {
        unsigned char op = rd_u8(&r), how = rd_u8(&r); size_t n = rd_u32(&r), i, j, at, bad = 0;
        if(op == 1) {
            for(i = 0; i < n; i++) {
                block_t b; b.id = next++; b.p = palloc(&pool, size);
                if(((size_t) b.p) % (size % 16 == 0 ? 16 : size % 8 == 0 ? 8 : size % 4 == 0 ? 4 : 1)) bad++;
                for(j = 0; j < size; j++) b.p[j] = (unsigned char)((b.id >> (8 * (j % 4))) ^ j);
                if(count == room) { room = room * 2 + 1024; live = realloc(live, room * sizeof(block_t)); }
                live[count++] = b;
            }
        }
        else if(op == 2) {
            /* the last ones, any, the first ones, some of the last ones */
            if(n > count) n = count;
            for(i = 0; i < n; i++) {
                at = how == 0 ? count - 1 : how == 1 ? rnd(count) : how == 2 ? i : count - 1 - rnd(count < 40 ? count : 40);
                if(!intact(&live[at])) bad++;
                pfree(&pool, live[at].p);
                if(how == 2) continue;
                if(how == 1) live[at] = live[--count];
                else { memmove(live + at, live + at + 1, (count - at - 1) * sizeof(block_t)); count--; }
            }
            if(how == 2) { count -= n; memmove(live, live + n, count * sizeof(block_t)); }
        }
        else if(op == 3) { for(i = 0; i < count; i++) bad += !intact(&live[i]); }
        else if(pool.chunks != NULL) { for(i = 0; i < count; i++) bad += !intact(&live[i]); release_memory_pool(&pool); count = 0; }
        pdiag(&pool, text, sizeof(text)); 
        tf("%lld %lld %lld %s", (long long) bad, (long long) count, (long long)(pool.chunks == NULL ? 0 : pool.items_max_size), pool.chunks == NULL ? "-\n" : text);
    }
    if(pool.chunks != NULL) release_memory_pool(&pool);
    pool_counter = 0;
    t_out();
}
op_t ops_mpool[] = { {"mpool", mpool}, {NULL, NULL} };
