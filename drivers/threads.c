/* The thread pool under many producers: every task leaves a record. */
#include "common.h"

#include <pthread.h>
#include <stdatomic.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>

#define KINDS 256
#define LOG 65536

static struct thread_pool_t *pool;
static atomic_ulong counts[KINDS], given[KINDS];
static atomic_ulong total, running, peak, waiting, wrong;
static atomic_int order[LOG];
static unsigned long secrets[KINDS];    /* plain memory: published by the insertion */
static int mode, threads;
static unsigned delay_mask;
static struct thread_pool_task_t tasks[KINDS];

static __thread unsigned long noise_ = 88172645463325252UL;
static unsigned long noise(void) { noise_ ^= noise_ << 13; noise_ ^= noise_ >> 7; noise_ ^= noise_ << 17; return noise_; }

static void pause_(void) {
    switch(noise() & delay_mask) {
        case 1: sched_yield(); break;
        case 2: usleep(noise() % 50); break;
        case 3: { volatile int spin; for(spin = 0; spin < 500; spin++) { } } break;
        default: break;
    }
}

static void insert(int kind) {
    atomic_fetch_add(&given[kind], 1);
    insert_task_thread_pool(pool, &tasks[kind]);
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static int body(int kind) {
    unsigned long current = atomic_fetch_add(&running, 1) + 1;
    unsigned long high = atomic_load(&peak);
    unsigned long position;
    double start;
    while(current > high && !atomic_compare_exchange_weak(&peak, &high, current)) { }
    position = atomic_fetch_add(&total, 1);
    if(position < LOG) { atomic_store(&order[position], kind + 1); }
    if(secrets[kind] != 1000UL + kind) { atomic_fetch_add(&wrong, 1); }
    if(mode == 'b') {
        /* every thread of the pool has to be here at the same time */
        unsigned long last = (atomic_fetch_add(&waiting, 1) / threads + 1) * threads;
        start = now();
        while(atomic_load(&waiting) < last && now() - start < 20) { usleep(100); }
        if(now() - start >= 20) { atomic_fetch_add(&wrong, 1000); }
    }
    if(mode == 'n' && kind < KINDS / 2) { insert(kind + KINDS / 2); }
    pause_();
    atomic_fetch_add(&counts[kind], 1);
    atomic_fetch_sub(&running, 1);
    return 0;
}

#define F(n) static int task_##n(void *arguments) { return body(0x##n); }
#define R(h) F(h##0) F(h##1) F(h##2) F(h##3) F(h##4) F(h##5) F(h##6) F(h##7) F(h##8) F(h##9) F(h##a) F(h##b) F(h##c) F(h##d) F(h##e) F(h##f)
R(0) R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(a) R(b) R(c) R(d) R(e) R(f)
#define N(n) task_##n,
#define T(h) N(h##0) N(h##1) N(h##2) N(h##3) N(h##4) N(h##5) N(h##6) N(h##7) N(h##8) N(h##9) N(h##a) N(h##b) N(h##c) N(h##d) N(h##e) N(h##f)
static int (*functions[KINDS])(void *) = {T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9) T(a) T(b) T(c) T(d) T(e) T(f)};

static unsigned long sequence[LOG];
static int producers, amount;
static atomic_int stop;

static void *produce(void *argument) {
    int id = (int) (size_t) argument;
    int index;
    int span = mode == 'n' ? KINDS / 2 : KINDS;
    noise_ += id * 7919UL + amount;
    for(index = 0; index < amount; index++) {
        int kind = producers == 1 ? index % span : (id + producers * (index % (span / producers))) % span;
        insert(kind);
        pause_();
    }
    return NULL;
}

/* wakes that no insertion asked for, as the operating system is allowed to */
static void *disturb(void *argument) {
    noise_ += 3;
    while(!atomic_load(&stop)) {
        pthread_cond_broadcast(pool->task_condition);
        usleep(noise() % 300);
    }
    return NULL;
}

static unsigned long sum(atomic_ulong *values) {
    unsigned long out = 0;
    int index;
    for(index = 0; index < KINDS; index++) { out += atomic_load(&values[index]); }
    return out;
}

int main(void) {
    while(next_line()) {
        /* mode threads producers amount delays spurious */
        pthread_t ids[64], other;
        int index, spurious, settled = 1;
        double start;
        mode = word()[0];
        threads = (int) number(); producers = (int) number(); amount = (int) number();
        delay_mask = (unsigned) number(); spurious = (int) number();
        for(index = 0; index < KINDS; index++) {
            atomic_store(&counts[index], 0); atomic_store(&given[index], 0);
            secrets[index] = 1000UL + index;
            memset(&tasks[index], 0, sizeof(tasks[index]));
            tasks[index].start_function = functions[index];
        }
        atomic_store(&total, 0); atomic_store(&running, 0); atomic_store(&peak, 0); atomic_store(&waiting, 0); atomic_store(&wrong, 0); atomic_store(&stop, 0);
        create_thread_pool(&pool, threads, 1, threads * 2);
        if(spurious) { pthread_create(&other, NULL, disturb, NULL); }
        if(mode == 'i') {
            /* the pool is idle before every task */
            for(index = 0; index < amount && settled; index++) {
                unsigned long before = atomic_load(&total);
                insert(index % KINDS);
                start = now();
                while(sum(counts) == before && now() - start < 20) { sched_yield(); }
                settled = sum(counts) == before + 1;
            }
        } else {
            for(index = 0; index < producers; index++) { pthread_create(&ids[index], NULL, produce, (void *) (size_t) index); }
            for(index = 0; index < producers; index++) { pthread_join(ids[index], NULL); }
        }
        start = now();
        while((sum(counts) < sum(given) || atomic_load(&running) > 0) && now() - start < 60) { usleep(200); }
        usleep(mode == 'i' ? 100 : 3000);
        if(spurious) { atomic_store(&stop, 1); pthread_join(other, NULL); }
        printf("given=%lu run=%lu ", sum(given), sum(counts));
        {
            int bad = 0;
            unsigned long left, workers;
            pthread_mutex_lock(pool->task_condition_lock);
            left = pool->task_queue->size;
            workers = pool->worker_threads_list->size;
            pthread_mutex_unlock(pool->task_condition_lock);
            for(index = 0; index < KINDS; index++) { bad += atomic_load(&counts[index]) != atomic_load(&given[index]); }
            printf("different=%d peak=%lu wrong=%lu settled=%d left=%lu workers=%lu order=", bad, atomic_load(&peak), atomic_load(&wrong), settled, left, workers);
        }
        if(threads == 1) {
            for(index = 0; index < (int) atomic_load(&total) && index < LOG; index++) { printf("%02x", atomic_load(&order[index]) - 1); }
        }
        printf("\n");
        fflush(stdout);
        /* the threads of a pool never end: they are left waiting */
    }
    fflush(stdout);
    _exit(0);
}
