/* one thread pool history per process. input (stdin): threads inserters, then per inserter: count, then task id, pause before, work, nested id + 1 (0: none).
   output: the tasks in the order in which they started; "LOST" when some did not run in time */
#include "stdafx.h"
#include "thread/thread_pool.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#include <stdatomic.h>
#define N 256
#define MAXLOG 20000
static struct thread_pool_t *pool;
static struct thread_pool_task_t *tasks[N];
static int work_of[N], nested_of[N];
static atomic_int started, finished, expected;
static int log_of[MAXLOG];
static void pause_for(int k) { int i; if(k == 1) { sched_yield(); } else if(k == 2) { usleep(100); } else if(k == 3) { for(i = 0; i < 8; i++) { sched_yield(); } } else if(k == 4) { usleep(1500); } }
static void ran(int id) {
    int at = atomic_fetch_add(&started, 1); if(at < MAXLOG) { log_of[at] = id; }
    pause_for(work_of[id]);
    if(nested_of[id]) { insert_task_thread_pool(pool, tasks[nested_of[id] - 1]); }
    atomic_fetch_add(&finished, 1);
}
#define F1(n) static int f##n(void *a) { ran(0x##n); return 0; }
#define F16(n) F1(n##0) F1(n##1) F1(n##2) F1(n##3) F1(n##4) F1(n##5) F1(n##6) F1(n##7) F1(n##8) F1(n##9) F1(n##a) F1(n##b) F1(n##c) F1(n##d) F1(n##e) F1(n##f)
F16(0) F16(1) F16(2) F16(3) F16(4) F16(5) F16(6) F16(7) F16(8) F16(9) F16(a) F16(b) F16(c) F16(d) F16(e) F16(f)
#define R16(n) f##n##0, f##n##1, f##n##2, f##n##3, f##n##4, f##n##5, f##n##6, f##n##7, f##n##8, f##n##9, f##n##a, f##n##b, f##n##c, f##n##d, f##n##e, f##n##f
static int (*table[N])(void *) = { R16(0), R16(1), R16(2), R16(3), R16(4), R16(5), R16(6), R16(7), R16(8), R16(9), R16(a), R16(b), R16(c), R16(d), R16(e), R16(f) };
typedef struct { int n; int *id, *wait; } ins_t;
static void *inserter(void *p) { ins_t *s = p; int i; for(i = 0; i < s->n; i++) { pause_for(s->wait[i]); insert_task_thread_pool(pool, tasks[s->id[i]]); } return NULL; }
int main(void) {
    int threads, ni, i, j, late = 0; ins_t s[16]; pthread_t t[16];
    if(scanf("%d %d", &threads, &ni) != 2) return 3;
    for(i = 0; i < N; i++) { tasks[i] = calloc(1, sizeof(struct thread_pool_task_t)); tasks[i]->start_function = table[i]; }
    for(i = 0; i < ni; i++) {
        if(scanf("%d", &s[i].n) != 1) return 3;
        s[i].id = malloc(sizeof(int) * (s[i].n + 1)); s[i].wait = malloc(sizeof(int) * (s[i].n + 1));
        for(j = 0; j < s[i].n; j++) {
            int w, k; if(scanf("%d %d %d %d", &s[i].id[j], &s[i].wait[j], &w, &k) != 4) return 3;
            work_of[s[i].id[j]] = w; nested_of[s[i].id[j]] = k; atomic_fetch_add(&expected, k ? 2 : 1);
        }
    }
    create_thread_pool(&pool, threads, 1, threads);
    for(i = 0; i < ni; i++) pthread_create(&t[i], NULL, inserter, &s[i]);
    for(i = 0; i < ni; i++) pthread_join(t[i], NULL);
    while(atomic_load(&finished) < atomic_load(&expected) && late < 15000) { usleep(1000); late++; }
    usleep(2000);
    j = atomic_load(&started);
    for(i = 0; i < j && i < MAXLOG; i++) printf("%d ", log_of[i]);
    printf("%s\n", atomic_load(&finished) < atomic_load(&expected) ? "LOST" : "END");
    fflush(stdout);
    _exit(0);
}
