/* Containers of the commons library, driven by commands. */
#include "common.h"

#define SLOTS 64

static struct hash_map_t *hm[SLOTS];
static struct sort_map_t *sm[SLOTS];
static struct linked_list_t *ll[SLOTS];
static struct array_list_t *al[SLOTS];
static struct priority_queue_t *pq[SLOTS];
static struct string_buffer_t *sb[SLOTS];
static struct linked_buffer_t *lb[SLOTS];
static void *held[1 << 16];
static size_t held_count;

static void hold(void *pointer) { held[held_count++] = pointer; }

static int compare(void *first, void *second) {
    size_t a = (size_t) first / 1000;
    size_t b = (size_t) second / 1000;
    return a < b ? -1 : a > b ? 1 : 0;
}

static void put_value(void *value) { printf("%zu", (size_t) value); }

static void walk(struct iterator_t *iterator) {
    void *value;
    printf("[");
    while(1) {
        get_next_iterator(iterator, &value);
        if(value == NULL) { break; }
        put_value(value);
        printf(" ");
    }
    printf("]");
}

static void elements(struct iterator_t *iterator) {
    struct hash_map_element_t *element;
    printf("[");
    while(1) {
        get_next_iterator(iterator, (void **) &element);
        if(element == NULL) { break; }
        if(element->key_string) { put_bytes(element->key_string, strlen((char *) element->key_string)); }
        else { printf("%zu", element->key); }
        printf(":%zu ", (size_t) element->value);
    }
    printf("]");
}

static void keys(struct iterator_t *iterator) {
    size_t *key;
    printf("[");
    while(1) {
        get_next_iterator(iterator, (void **) &key);
        if(key == NULL) { break; }
        printf("%zu ", *key);
    }
    printf("]");
}

static void do_hm(void) {
    char *op = word();
    size_t id = number();
    size_t key, index;
    unsigned char *text;
    void *value = NULL;
    struct iterator_t *iterator;
    if(is(op, "new")) { create_hash_map(&hm[id], number()); }
    else if(is(op, "set")) { key = number(); set_value_hash_map(hm[id], key, NULL, (void *) number()); }
    else if(is(op, "sets")) {
        /* the map has to keep its own copy of the key */
        text = string_arg();
        set_value_string_hash_map(hm[id], text, (void *) number());
        memset(text, 'x', strlen((char *) text));
        free(text);
    }
    else if(is(op, "get")) { get_value_hash_map(hm[id], number(), NULL, &value); put_value(value); }
    else if(is(op, "gets")) { text = string_arg(); get_value_string_hash_map(hm[id], text, &value); put_value(value); free(text); }
    else if(is(op, "iter")) { create_element_iterator_hash_map(hm[id], &iterator); elements(iterator); reset_iterator_hash_map(hm[id], iterator); elements(iterator); delete_iterator_hash_map(hm[id], iterator); }
    else if(is(op, "keys")) { create_iterator_hash_map(hm[id], &iterator); keys(iterator); delete_iterator_hash_map(hm[id], iterator); }
    else if(is(op, "size")) { put_value((void *) hm[id]->size); }
    else if(is(op, "values")) {
        /* a map of allocated values gives all of them back */
        struct hash_map_t *map;
        size_t count = number();
        create_hash_map(&map, id);
        for(index = 0; index < count; index++) { set_value_hash_map(map, index * 7919, NULL, malloc(8)); }
        delete_values_hash_map(map);
        delete_hash_map(map);
    }
    else if(is(op, "del")) { delete_hash_map(hm[id]); hm[id] = NULL; }
}

static void do_sm(void) {
    char *op = word();
    size_t id = number();
    size_t key;
    unsigned char *text;
    void *value = NULL;
    struct iterator_t *iterator;
    if(is(op, "new")) { create_sort_map(&sm[id], number()); }
    else if(is(op, "set")) { key = number(); set_value_sort_map(sm[id], key, NULL, (void *) number()); }
    else if(is(op, "sets")) {
        text = string_arg();
        set_value_string_sort_map(sm[id], text, (void *) number());
        memset(text, 'x', strlen((char *) text));
        free(text);
    }
    else if(is(op, "get")) { get_value_sort_map(sm[id], number(), NULL, &value); put_value(value); }
    else if(is(op, "gets")) { text = string_arg(); get_value_string_sort_map(sm[id], text, &value); put_value(value); free(text); }
    else if(is(op, "iter")) { create_element_iterator_sort_map(sm[id], &iterator); elements(iterator); reset_iterator_sort_map(sm[id], iterator); elements(iterator); delete_iterator_sort_map(sm[id], iterator); }
    else if(is(op, "keys")) { create_iterator_sort_map(sm[id], &iterator); keys(iterator); delete_iterator_sort_map(sm[id], iterator); }
    else if(is(op, "del")) { delete_sort_map(sm[id]); sm[id] = NULL; }
}

static void dump_list(struct linked_list_t *list) {
    struct iterator_t *iterator;
    struct linked_list_node_t *node;
    size_t index;
    create_iterator_linked_list(list, &iterator);
    walk(iterator);
    reset_iterator_linked_list(list, iterator);
    walk(iterator);
    delete_iterator_linked_list(list, iterator);
    /* backwards, over exactly the number of nodes */
    printf(" %zu [", list->size);
    for(node = list->last, index = 0; node != NULL && index <= list->size; node = node->previous, index++) { printf("%zu ", (size_t) node->value); }
    printf("]");
}

static void do_ll(void) {
    char *op = word();
    size_t id = number();
    void *value = NULL;
    void **sequence;
    size_t index;
    if(is(op, "new")) { create_linked_list(&ll[id]); }
    else if(is(op, "app")) { append_value_linked_list(ll[id], (void *) number()); }
    else if(is(op, "front")) { append_front_value_linked_list(ll[id], (void *) number()); }
    else if(is(op, "at")) { index = number(); append_index_value_linked_list(ll[id], (void *) number(), index); }
    else if(is(op, "rmv")) { remove_value_linked_list(ll[id], (void *) number(), TRUE); }
    else if(is(op, "rmi")) { remove_index_linked_list(ll[id], number(), TRUE); }
    else if(is(op, "get")) { get_value_linked_list(ll[id], number(), &value); put_value(value); }
    else if(is(op, "pop")) { pop_value_linked_list(ll[id], &value, TRUE); put_value(value); }
    else if(is(op, "poptop")) { pop_top_value_linked_list(ll[id], &value, TRUE); put_value(value); }
    else if(is(op, "peek")) { peek_value_linked_list(ll[id], &value); put_value(value); }
    else if(is(op, "peektop")) { peek_top_value_linked_list(ll[id], &value); put_value(value); }
    else if(is(op, "clear")) { clear_linked_list(ll[id]); }
    else if(is(op, "sort")) { sort_linked_list(ll[id], compare); }
    else if(is(op, "seq")) {
        to_sequence_linked_list(ll[id], &sequence);
        printf("[");
        for(index = 0; index < ll[id]->size; index++) { printf("%zu ", (size_t) sequence[index]); }
        printf("]");
        free(sequence);
    }
    else if(is(op, "dump")) { dump_list(ll[id]); }
    else if(is(op, "del")) { delete_linked_list(ll[id]); ll[id] = NULL; }
}

static void do_al(void) {
    char *op = word();
    size_t id = number();
    size_t index;
    size_t size;
    unsigned char *data;
    void *element;
    if(is(op, "new")) { size = number(); create_array_list(&al[id], size, number()); printf("%zu", al[id]->elements_buffer_size); }
    else if(is(op, "set")) { index = number(); data = bytes(&size); set_array_list(al[id], index, data); free(data); }
    else if(is(op, "get")) { get_array_list(al[id], number(), &element); put_bytes(element, al[id]->element_size); }
    else if(is(op, "del")) { delete_array_list(al[id]); al[id] = NULL; }
}

static void do_pq(void) {
    char *op = word();
    size_t id = number();
    void *value = NULL;
    if(is(op, "new")) { create_priority_queue(&pq[id], compare); }
    else if(is(op, "push")) { push_priority_queue(pq[id], (void *) number()); printf("%zu", pq[id]->size); }
    else if(is(op, "pop")) { pop_priority_queue(pq[id], &value); put_value(value); printf(" %zu", pq[id]->size); }
    else if(is(op, "del")) { delete_priority_queue(pq[id]); pq[id] = NULL; }
}

static void do_sort(void) {
    size_t size = number();
    size_t index;
    void **sequence = (void **) malloc(size * sizeof(void *));
    for(index = 0; index < size; index++) { sequence[index] = (void *) number(); }
    sort_quicksort(sequence, 0, size, compare);
    printf("[");
    for(index = 0; index < size; index++) { printf("%zu ", (size_t) sequence[index]); }
    printf("]");
    free(sequence);
}

static void do_sb(void) {
    char *op = word();
    size_t id = number();
    size_t size;
    unsigned char *data;
    struct string_t string;
    if(is(op, "new")) { create_string_buffer(&sb[id]); }
    else if(is(op, "app")) { data = string_arg(); hold(data); append_string_buffer(sb[id], data); }
    else if(is(op, "appl")) { data = bytes(&size); hold(data); append_string_l_buffer(sb[id], data, size); }
    else if(is(op, "appt")) { data = bytes(&size); hold(data); string.buffer = data; string.length = size; append_string_t_buffer(sb[id], &string); }
    else if(is(op, "own")) { _append_string_buffer(sb[id], string_arg()); }
    else if(is(op, "ownl")) { data = bytes(&size); _append_string_l_buffer(sb[id], data, size); }
    else if(is(op, "ownt")) { data = bytes(&size); string.buffer = data; string.length = size; _append_string_t_buffer(sb[id], &string); }
    else if(is(op, "join")) {
        join_string_buffer(sb[id], &data);
        printf("%zu ", sb[id]->string_length);
        put_bytes(data, sb[id]->string_length + 1);
        free(data);
    }
    else if(is(op, "del")) { delete_string_buffer(sb[id]); sb[id] = NULL; }
}

static void do_lb(void) {
    char *op = word();
    size_t id = number();
    size_t size;
    unsigned char *data;
    if(is(op, "new")) { create_linked_buffer(&lb[id]); }
    else if(is(op, "app")) { data = bytes(&size); hold(data); append_linked_buffer(lb[id], data, size, 0); }
    else if(is(op, "own")) { data = bytes(&size); append_linked_buffer(lb[id], data, size, 1); }
    else if(is(op, "own2")) { data = bytes(&size); _append_linked_buffer(lb[id], data, size); }
    else if(is(op, "join")) {
        join_linked_buffer(lb[id], &data);
        put_bytes(data, lb[id]->buffer_length);
        free(data);
    }
    else if(is(op, "del")) { delete_linked_buffer(lb[id]); lb[id] = NULL; }
}

/* a value in prefix notation: i number, f number, s hex, L count values..., M/S count (hex value)... */
static struct type_t *parse_type(void) {
    char *op = word();
    struct type_t *type;
    size_t count, index;
    unsigned char *key;
    if(is(op, "i")) { create_type(&type, INTEGER_TYPE); *type = integer_type((int) integer()); return type; }
    if(is(op, "f")) { create_type(&type, FLOAT_TYPE); *type = float_type((float) strtod(word(), NULL)); return type; }
    if(is(op, "s")) { create_type(&type, STRING_TYPE); *type = string_type((char *) string_arg()); return type; }
    count = number();
    if(is(op, "L")) {
        struct linked_list_t *list;
        create_linked_list(&list);
        create_type(&type, LIST_TYPE);
        *type = list_type(list);
        for(index = 0; index < count; index++) { append_value_linked_list(list, parse_type()); }
    } else if(is(op, "M")) {
        struct hash_map_t *map;
        create_hash_map(&map, 0);
        create_type(&type, MAP_TYPE);
        *type = map_type(map);
        for(index = 0; index < count; index++) { key = string_arg(); set_value_string_hash_map(map, key, parse_type()); free(key); }
    } else {
        struct sort_map_t *map;
        create_sort_map(&map, 0);
        create_type(&type, SORT_MAP_TYPE);
        *type = sort_map_type(map);
        for(index = 0; index < count; index++) { key = string_arg(); set_value_string_sort_map(map, key, parse_type()); free(key); }
    }
    return type;
}

static void do_type(void) {
    struct type_t *type = parse_type();
    unsigned char *text;
    to_string_type(type, &text);
    put_bytes(text, strlen((char *) text) + 1);
    free(text);
    putchar(' ');
    print_type(type);
    free_type(type);
}

int main(void) {
    size_t index;
    while(next_line()) {
        char *group = word();
        if(is(group, "hm")) { do_hm(); }
        else if(is(group, "sm")) { do_sm(); }
        else if(is(group, "ll")) { do_ll(); }
        else if(is(group, "al")) { do_al(); }
        else if(is(group, "pq")) { do_pq(); }
        else if(is(group, "sort")) { do_sort(); }
        else if(is(group, "sb")) { do_sb(); }
        else if(is(group, "lb")) { do_lb(); }
        else if(is(group, "type")) { do_type(); }
        putchar('\n');
    }
    fflush(stdout);
    for(index = 0; index < held_count; index++) { free(held[index]); }
    free(line_);
    return 0;
}
