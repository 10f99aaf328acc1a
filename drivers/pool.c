/* The memory pool under allocation histories; compiled only where it is enabled. */
#include "common.h"

#ifndef VIRIATUM_MPOOL
#error "the memory pool is not enabled"
#endif

struct held { unsigned char *buffer; unsigned long id; };
static struct held *live;
static size_t count, room, peak;
static struct memory_pool_t *made[64], *current;
static size_t made_count;
#define pool (*current)
static size_t size;
static unsigned long next_id, state;

static unsigned long noise(void) { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }

static void fill(struct held *item) {
    size_t index;
    for(index = 0; index < size; index++) { item->buffer[index] = (unsigned char) (item->id >> (8 * (index & 7))); }
}

static int kept(struct held *item) {
    size_t index;
    for(index = 0; index < size; index++) { if(item->buffer[index] != (unsigned char) (item->id >> (8 * (index & 7)))) { return 0; } }
    return 1;
}

static int by_address(const void *a, const void *b) {
    const struct held *x = *(struct held * const *) a, *y = *(struct held * const *) b;
    return x->buffer < y->buffer ? -1 : x->buffer > y->buffer;
}

/* distinct, apart, with their contents, and counted by the pool */
static int verify(void) {
    struct held **sorted = (struct held **) malloc(sizeof(struct held *) * (count + 1));
    size_t index, allocated = 0, bits = 0, other, mapped = 0;
    for(index = 0; index < count; index++) {
        sorted[index] = &live[index];
        if(!kept(&live[index])) { printf("contents of %lu changed", live[index].id); free(sorted); return 0; }
    }
    qsort(sorted, count, sizeof(*sorted), by_address);
    for(index = 1; index < count; index++) {
        if(sorted[index]->buffer < sorted[index - 1]->buffer + size) { printf("%lu and %lu overlap", sorted[index]->id, sorted[index - 1]->id); free(sorted); return 0; }
    }
    free(sorted);
    for(index = 0; index < pool.chunk_count; index++) {
        allocated += pool.chunks[index]->item_alloc;
        for(other = 0; other < CHUNK_SIZE; other++) { bits += pool.chunks[index]->bitmap[other]; }
    }
    if(count > 0) { mapped = pool.items_max_size - pavailable(&pool); }
    if(allocated != count || bits != count || mapped != count) { printf("the pool counts %lu, marks %lu and maps %lu of %lu", (unsigned long) allocated, (unsigned long) bits, (unsigned long) mapped, (unsigned long) count); return 0; }
    return 1;
}

int main(void) {
    while(next_line()) {
        char *op = word();
        if(is(op, "new")) {
            size = number(); state = number() * 2654435761UL + 88172645463325252UL;
            made[made_count++] = current = (struct memory_pool_t *) calloc(1, sizeof(struct memory_pool_t));
            count = 0; peak = 0; next_id = 1;
        } else if(is(op, "alloc")) {
            size_t times = number();
            while(times--) {
                if(count == room) { room = room ? room * 2 : 1024; live = (struct held *) realloc(live, sizeof(struct held) * room); }
                live[count].buffer = (unsigned char *) palloc(&pool, size);
                live[count].id = next_id++ * 0x9E3779B97F4A7C15UL;
                fill(&live[count]);
                count++;
            }
            if(count > peak) { peak = count; }
        } else if(is(op, "free")) {
            char *how = word();
            size_t times = number(), at;
            while(times-- && count > 0) {
                at = how[0] == 'l' ? count - 1 : how[0] == 'f' ? 0 : how[0] == 'm' ? count / 2 : noise() % count;
                if(!kept(&live[at])) { printf("contents changed"); times = 0; }
                memset(live[at].buffer, 0xdd, size);
                pfree(&pool, live[at].buffer);
                if(how[0] == 'f' || how[0] == 'm') { memmove(&live[at], &live[at + 1], (count - at - 1) * sizeof(struct held)); }
                else { live[at] = live[count - 1]; }
                count--;
            }
        } else if(is(op, "check")) {
            if(verify()) { printf("%lu %lu %lu", (unsigned long) count, (unsigned long) pool.chunk_count, (unsigned long) peak); }
        } else if(is(op, "end")) {
        }
        putchar('\n');
    }
    free(live);
    /* every pool is released here, so that what it keeps is leaked otherwise */
    cleanup_palloc();
    while(made_count > 0) { free(made[--made_count]); }
    return 0;
}
