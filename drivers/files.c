/* Files, directories and the text utilities, driven by commands. Paths are
relative to the working directory, a scratch one. */
#include "common.h"

#include <unistd.h>
#include <sys/stat.h>
#include <utime.h>

static void put_code(ERROR_CODE code) { printf(IS_ERROR_CODE(code) ? "error" : "ok"); }

static void put_entries(char *path, int map) {
    struct linked_list_t *entries, *values;
    struct file_t *entry;
    struct type_t *type, *value;
    struct iterator_t *iterator;
    size_t index;
    static char *names[] = {"type", "name", "size", "time", "size_string"};
    create_linked_list(&entries);
    if(IS_ERROR_CODE(list_directory_file(path, entries))) { printf("error"); }
    else if(!map) {
        create_iterator_linked_list(entries, &iterator);
        while(1) {
            get_next_iterator(iterator, (void **) &entry);
            if(entry == NULL) { break; }
            printf("%d:", (int) entry->type);
            put_bytes(entry->name, strlen((char *) entry->name));
            printf(":%llu:%04d-%02d-%02d-%02d-%02d-%02d ", (unsigned long long) entry->size, entry->time.year, entry->time.month, entry->time.day,
                   entry->time.hour, entry->time.minute, entry->time.second);
        }
        delete_iterator_linked_list(entries, iterator);
    } else {
        entries_to_map_file(entries, &values);
        create_iterator_linked_list(values, &iterator);
        while(1) {
            get_next_iterator(iterator, (void **) &type);
            if(type == NULL) { break; }
            for(index = 0; index < 5; index++) {
                get_value_string_hash_map(type->value.value_map, (unsigned char *) names[index], (void **) &value);
                if(value->type == INTEGER_TYPE) { printf("%d", value->value.value_int); }
                else { put_bytes(value->value.value_string, strlen(value->value.value_string)); }
                putchar(index == 4 ? ' ' : ':');
            }
        }
        delete_iterator_linked_list(values, iterator);
        delete_directory_entries_map_file(values);
        delete_linked_list(values);
    }
    delete_directory_entries_file(entries);
    delete_linked_list(entries);
}

static void file_command(char *op) {
    char *path = (char *) string_arg();
    if(is(op, "write")) {
        size_t size;
        unsigned char *data = bytes(&size);
        put_code(write_file(path, data, size));
        free(data);
    } else if(is(op, "read")) {
        unsigned char *data = NULL;
        size_t size = 0;
        if(IS_ERROR_CODE(read_file(path, &data, &size))) { printf("error"); }
        else { put_bytes(data, size); free(data); }
    } else if(is(op, "count")) {
        size_t size = 0;
        if(IS_ERROR_CODE(count_file(path, &size))) { printf("error"); } else { printf("%llu", (unsigned long long) size); }
    } else if(is(op, "isdir")) {
        unsigned int value = 7;
        is_directory_file(path, &value);
        printf("%u", value);
    } else if(is(op, "time")) {
        struct date_time_t time;
        memset(&time, 0, sizeof(time));
        if(IS_ERROR_CODE(get_write_time_file(path, &time))) { printf("error"); }
        else { printf("%04d-%02d-%02d-%02d-%02d-%02d", time.year, time.month, time.day, time.hour, time.minute, time.second); }
    } else if(is(op, "open")) {
        FILE *file = NULL;
        char *mode = word();
        if(IS_ERROR_CODE(open_file(path, mode, &file))) { printf("error"); } else { printf("ok"); fclose(file); }
    } else if(is(op, "join")) {
        char *name = (char *) string_arg();
        size_t room = strlen(path) + strlen(name) + 2;
        char *out = (char *) malloc(room);
        join_path_file(path, name, out);
        put_bytes(out, strlen(out));
        free(out);
        free(name);
    } else if(is(op, "list")) { put_entries(path, 0); }
    else if(is(op, "map")) { put_entries(path, 1); }
    free(path);
}

static void text_command(char *op) {
    size_t size, room, count, index;
    char *buffer;
    if(is(op, "bytes")) {
        unsigned long long value = number();
        buffer = (char *) malloc(128);
        count = format_bytes(buffer, 128, (size_t) value);
        printf("%s %d", count == strlen(buffer) ? "exact" : "count", 0);
        putchar(' ');
        put_bytes(buffer, strlen(buffer));
        free(buffer);
    } else if(is(op, "delta")) {
        unsigned long long value = number();
        count = number();
        room = number();
        buffer = (char *) malloc(room);
        format_delta(buffer, room, value, count);
        put_bytes(buffer, strnlen(buffer, room));
        free(buffer);
    } else if(is(op, "trail") || is(op, "lead")) {
        buffer = (char *) bytes(&size);
        printf("%llu", (unsigned long long) (is(op, "trail") ? trailing_size(buffer, size) : leading_offset(buffer, size)));
        free(buffer);
    } else if(is(op, "ends")) {
        char *end;
        buffer = (char *) string_arg();
        end = (char *) string_arg();
        printf("%d", ends_with_string((unsigned char *) buffer, (unsigned char *) end));
        free(buffer);
        free(end);
    } else if(is(op, "random")) {
        room = number();
        buffer = (char *) malloc(room > 0 ? room : 1);
        random_buffer((unsigned char *) buffer, room);
        for(index = 0; index < room; index++) { if(buffer[index] < 34) { break; } }
        printf("%s", index == room ? "ok" : "outside");
        free(buffer);
    } else {
        buffer = (char *) string_arg();
        if(is(op, "lower")) { lowercase(buffer); put_bytes(buffer, strlen(buffer)); }
        else if(is(op, "upper")) { uppercase(buffer); put_bytes(buffer, strlen(buffer)); }
        else if(is(op, "normal")) { normalize_path(buffer); put_bytes(buffer, strlen(buffer)); }
        else if(is(op, "extension")) { char *out = extension_path(buffer); put_bytes(out, strlen(out)); }
        else if(is(op, "base")) { char *out = (char *) base_string_value((unsigned char *) buffer); put_bytes(out, strlen(out)); }
        else if(is(op, "bool")) { printf("%d", atob(buffer)); }
        free(buffer);
    }
}

int main(void) {
    while(next_line()) {
        char *group = word();
        char *op = word();
        if(is(group, "file")) { file_command(op); }
        else { text_command(op); }
        putchar('\n');
    }
    return 0;
}
