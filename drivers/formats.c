/* Bencoding, URLs, passwd and ini files, command line arguments and templates,
driven by commands. */
#include "common.h"

#include <fcntl.h>
#include <unistd.h>

/* the value in a canonical form: integers, quoted hexadecimal strings, lists
and maps in the order of their iteration */
static void put_type(struct type_t *type) {
    struct type_t *current;
    struct iterator_t *iterator;
    struct hash_map_element_t *element;
    if(type == NULL) { printf("none"); return; }
    switch(type->type) {
        case INTEGER_TYPE: printf("i%d", type->value.value_int); break;
        case STRING_TYPE: putchar('s'); put_bytes(type->value.value_string, type->size); break;
        case LIST_TYPE:
            putchar('[');
            create_iterator_linked_list(type->value.value_list, &iterator);
            while(1) {
                get_next_iterator(iterator, (void **) &current);
                if(current == NULL) { break; }
                put_type(current);
                putchar(',');
            }
            delete_iterator_linked_list(type->value.value_list, iterator);
            putchar(']');
            break;
        case SORT_MAP_TYPE:
            putchar('{');
            create_element_iterator_sort_map(type->value.value_sort_map, &iterator);
            while(1) {
                get_next_iterator(iterator, (void **) &element);
                if(element == NULL) { break; }
                put_bytes(element->key_string, strlen((char *) element->key_string));
                putchar(':');
                put_type((struct type_t *) element->value);
                putchar(',');
            }
            delete_iterator_sort_map(type->value.value_sort_map, iterator);
            putchar('}');
            break;
        default: printf("?%d", type->type); break;
    }
}

/* a value in prefix notation: i number, s hex, L count values..., S count (hex value)... */
static struct type_t *parse_type(void) {
    char *op = word();
    struct type_t *type;
    size_t count, index, size;
    unsigned char *key;
    char *data;
    if(is(op, "i")) { create_type(&type, INTEGER_TYPE); *type = integer_type((int) integer()); return type; }
    if(is(op, "s")) { data = (char *) bytes_(&size, 1); create_type(&type, STRING_TYPE); *type = buffer_type(data, size); return type; }
    count = number();
    if(is(op, "L")) {
        struct linked_list_t *list;
        create_linked_list(&list);
        create_type(&type, LIST_TYPE);
        *type = list_type(list);
        for(index = 0; index < count; index++) { append_value_linked_list(list, parse_type()); }
    } else if(is(op, "M")) {
        struct hash_map_t *map;
        create_hash_map(&map, 0);
        create_type(&type, MAP_TYPE);
        *type = map_type(map);
        for(index = 0; index < count; index++) { key = string_arg(); set_value_string_hash_map(map, key, parse_type()); free(key); }
    } else {
        struct sort_map_t *map;
        create_sort_map(&map, 0);
        create_type(&type, SORT_MAP_TYPE);
        *type = sort_map_type(map);
        for(index = 0; index < count; index++) { key = string_arg(); set_value_string_sort_map(map, key, parse_type()); free(key); }
    }
    return type;
}

static void put_file(const char *name, const void *data, size_t size) {
    FILE *file = fopen(name, "wb");
    fwrite(data, 1, size, file);
    fclose(file);
}

static void do_ben(void) {
    char *op = word();
    struct type_t *type = NULL;
    unsigned char *data;
    size_t size;
    ERROR_CODE code;
    if(is(op, "enc")) {
        type = parse_type();
        code = encode_bencoding(type, &data, &size);
        if(IS_ERROR_CODE(code)) { printf("error"); }
        else { put_bytes(data, size); free(data); }
        free_type(type);
    } else if(is(op, "encf")) {
        type = parse_type();
        code = encode_bencoding_file("ben.out", type);
        free_type(type);
        if(IS_ERROR_CODE(code)) { printf("error"); return; }
        read_file("ben.out", &data, &size);
        put_bytes(data, size);
        free(data);
        unlink("ben.out");
    } else {
        data = bytes(&size);
        if(is(op, "dec")) { code = decode_bencoding(data, size, &type); }
        else { put_file("ben.in", data, size); code = decode_bencoding_file("ben.in", &type); unlink("ben.in"); }
        free(data);
        if(IS_ERROR_CODE(code)) { printf("error"); return; }
        put_type(type);
        if(type) { free_type(type); }
    }
}

static void put_part(const char *name, struct string_t *part) {
    printf("%s=", name);
    if(part->buffer == NULL) { printf("none"); } else { put_bytes(part->buffer, part->length); }
    putchar(' ');
}

static void put_text(const char *name, const char *text, size_t limit) {
    printf("%s=", name);
    put_bytes(text, strnlen(text, limit));
    putchar(' ');
}

static void do_url(void) {
    char *op = word();
    size_t size;
    char *data = (char *) bytes(&size);
    ERROR_CODE code;
    if(is(op, "parse")) {
        struct url_t *url = (struct url_t *) malloc(sizeof(struct url_t));
        code = parse_url(data, size, url);
        if(IS_ERROR_CODE(code)) { printf("error"); }
        else {
            put_part("scheme", &url->scheme);
            put_part("username", &url->username);
            put_part("password", &url->password);
            put_part("host", &url->host);
            put_part("path", &url->path);
            put_part("query", &url->query);
            put_part("fragment", &url->fragment);
            printf("port=%u", url->port);
        }
        free(url);
    } else {
        struct url_static_t *url = (struct url_static_t *) malloc(sizeof(struct url_static_t));
        code = parse_url_static(data, size, url);
        if(IS_ERROR_CODE(code)) { printf("error"); }
        else {
            put_text("scheme", url->scheme, sizeof(url->scheme));
            put_text("username", url->username, sizeof(url->username));
            put_text("password", url->password, sizeof(url->password));
            put_text("host", url->host, sizeof(url->host));
            put_text("path", url->path, sizeof(url->path));
            put_text("query", url->query, sizeof(url->query));
            put_text("fragment", url->fragment, sizeof(url->fragment));
            printf("port=%u", url->port);
        }
        free(url);
    }
    free(data);
}

static int compare_pointers(const void *first, const void *second) {
    return strcmp(*(char *const *) first, *(char *const *) second);
}

/* prints the lines of a text in order */
static void put_sorted(char **items, size_t count) {
    size_t index;
    qsort(items, count, sizeof(char *), compare_pointers);
    for(index = 0; index < count; index++) { printf("%s ", items[index]); free(items[index]); }
}

static char *hex_text(const char *text) {
    size_t index, size = strlen(text);
    char *out = (char *) malloc(size * 2 + 2);
    if(size == 0) { strcpy(out, "-"); return out; }
    for(index = 0; index < size; index++) { sprintf(out + index * 2, "%02x", (unsigned char) text[index]); }
    return out;
}

static void do_passwd(void) {
    size_t size;
    unsigned char *data = bytes(&size);
    struct hash_map_t *map;
    struct iterator_t *iterator;
    struct hash_map_element_t *element;
    char *items[4096];
    size_t count = 0;
    ERROR_CODE code;
    put_file("passwd.in", data, size);
    free(data);
    code = process_passwd_file("passwd.in", &map);
    unlink("passwd.in");
    if(IS_ERROR_CODE(code)) { printf("error"); return; }
    create_element_iterator_hash_map(map, &iterator);
    while(1) {
        char *key, *value;
        get_next_iterator(iterator, (void **) &element);
        if(element == NULL) { break; }
        key = hex_text((char *) element->key_string);
        value = hex_text((char *) element->value);
        items[count] = (char *) malloc(strlen(key) + strlen(value) + 2);
        sprintf(items[count], "%s=%s", key, value);
        free(key);
        free(value);
        free(element->value);
        count++;
    }
    delete_iterator_hash_map(map, iterator);
    delete_hash_map(map);
    put_sorted(items, count);
}

static void do_ini(void) {
    size_t size;
    unsigned char *data = bytes(&size);
    struct sort_map_t *map, *section;
    struct iterator_t *iterator, *other;
    struct hash_map_element_t *element, *inner;
    ERROR_CODE code;
    put_file("ini.in", data, size);
    free(data);
    code = process_ini_file("ini.in", &map);
    unlink("ini.in");
    if(IS_ERROR_CODE(code)) { printf("error"); return; }
    create_element_iterator_sort_map(map, &iterator);
    while(1) {
        get_next_iterator(iterator, (void **) &element);
        if(element == NULL) { break; }
        put_bytes(element->key_string, strlen((char *) element->key_string));
        printf("{ ");
        section = (struct sort_map_t *) element->value;
        create_element_iterator_sort_map(section, &other);
        while(1) {
            get_next_iterator(other, (void **) &inner);
            if(inner == NULL) { break; }
            put_bytes(inner->key_string, strlen((char *) inner->key_string));
            putchar('=');
            put_bytes(inner->value, strlen((char *) inner->value));
            putchar(' ');
            free(inner->value);
        }
        delete_iterator_sort_map(section, other);
        delete_sort_map(section);
        printf("} ");
    }
    delete_iterator_sort_map(map, iterator);
    delete_sort_map(map);
}

static int real, sink;

static void do_args(void) {
    char *argv[512];
    int argc = 1, index, print = is(word(), "print");
    struct hash_map_t *map;
    struct iterator_t *iterator;
    struct hash_map_element_t *element;
    char *items[512];
    size_t count = 0;
    argv[0] = strdup("program");
    while(*cursor_) { argv[argc++] = (char *) string_arg(); }
    /* what is printed about invalid arguments is not part of the answer */
    fflush(stdout);
    dup2(sink, 1);
    process_arguments(argc, argv, &map);
    fflush(stdout);
    dup2(real, 1);
    for(index = 0; index < argc; index++) { free(argv[index]); }
    if(print) {
        print_arguments(map);
        printf("end");
    } else {
        create_element_iterator_hash_map(map, &iterator);
        while(1) {
            struct argument_t *argument;
            char *key, *value;
            get_next_iterator(iterator, (void **) &element);
            if(element == NULL) { break; }
            argument = (struct argument_t *) element->value;
            key = hex_text((char *) element->key_string);
            value = argument->type == VALUE_ARGUMENT ? hex_text(argument->value) : strdup("none");
            items[count] = (char *) malloc(strlen(key) + strlen(value) + 2);
            sprintf(items[count], "%s=%s", key, value);
            if(strcmp(argument->key, (char *) element->key_string) != 0) { printf("key differs "); }
            free(key);
            free(value);
            count++;
        }
        delete_iterator_hash_map(map, iterator);
        put_sorted(items, count);
    }
    delete_arguments(map);
}

/* tpl TEMPLATE count (name value)...: the names are assigned with the values */
static void do_tpl(void) {
    size_t size, count, index;
    unsigned char *data = bytes(&size);
    struct template_handler_t *handler;
    unsigned char *names[64];
    struct type_t *types[64];
    int direct = 0;
    put_file("tpl.in", data, size);
    free(data);
    count = number();
    create_template_handler(&handler);
    for(index = 0; index < count; index++) {
        names[index] = string_arg();
        types[index] = parse_type();
        direct = index % 2;
        if(direct && types[index]->type == INTEGER_TYPE) { assign_integer_template_handler(handler, names[index], types[index]->value.value_int); }
        else if(direct && types[index]->type == STRING_TYPE) { assign_string_template_handler(handler, names[index], types[index]->value.value_string); }
        else if(direct && types[index]->type == LIST_TYPE) { assign_list_template_handler(handler, names[index], types[index]->value.value_list); }
        else { assign_template_handler(handler, names[index], types[index]); }
    }
    process_template_handler(handler, (unsigned char *) "tpl.in");
    unlink("tpl.in");
    if(handler->string_value == NULL) { printf("none"); }
    else { put_bytes(handler->string_value, strlen((char *) handler->string_value)); }
    delete_template_handler(handler);
    for(index = 0; index < count; index++) { free(names[index]); free_type(types[index]); }
}

int main(void) {
    real = dup(1);
    sink = open("/dev/null", O_WRONLY);
    while(next_line()) {
        char *group = word();
        if(is(group, "ben")) { do_ben(); }
        else if(is(group, "url")) { do_url(); }
        else if(is(group, "passwd")) { do_passwd(); }
        else if(is(group, "ini")) { do_ini(); }
        else if(is(group, "args")) { do_args(); }
        else if(is(group, "tpl")) { do_tpl(); }
        putchar('\n');
    }
    fflush(stdout);
    free(line_);
    return 0;
}
