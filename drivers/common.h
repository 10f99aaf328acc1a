/* Shared by the drivers: one command per line on stdin, one line of answer per
command on stdout. Bytes travel in hexadecimal ("-" when empty) and are placed in
buffers of exactly their size, so that any access past their end is reported. */
#include "stdafx.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char *line_;
static char *cursor_;

static int next_line(void) {
    static size_t size = 0;
    ssize_t length = getline(&line_, &size, stdin);
    if(length <= 0) { return 0; }
    if(line_[length - 1] == '\n') { line_[length - 1] = '\0'; }
    cursor_ = line_;
    return 1;
}

static char *word(void) {
    char *start;
    while(*cursor_ == ' ') { cursor_++; }
    start = cursor_;
    while(*cursor_ && *cursor_ != ' ') { cursor_++; }
    if(*cursor_) { *cursor_++ = '\0'; }
    return start;
}

static unsigned long long number(void) { return strtoull(word(), NULL, 10); }
static long long integer(void) { return strtoll(word(), NULL, 10); }

static int nibble(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

/* extra: bytes more than the contents, set to zero (1 for strings) */
static unsigned char *bytes_(size_t *size, size_t extra) {
    char *text = word();
    size_t length = text[0] == '-' ? 0 : strlen(text) / 2;
    size_t index;
    unsigned char *out = (unsigned char *) malloc(length + extra > 0 ? length + extra : 1);
    for(index = 0; index < length; index++) {
        out[index] = (unsigned char) (nibble(text[index * 2]) * 16 + nibble(text[index * 2 + 1]));
    }
    memset(out + length, 0, extra);
    if(length + extra == 0) { free(out); out = (unsigned char *) malloc(0); }
    if(size) { *size = length; }
    return out;
}

static unsigned char *bytes(size_t *size) { return bytes_(size, 0); }
static unsigned char *string_arg(void) { return bytes_(NULL, 1); }

static void put_bytes(const void *data, size_t size) {
    const unsigned char *pointer = (const unsigned char *) data;
    size_t index;
    if(size == 0) { putchar('-'); }
    for(index = 0; index < size; index++) { printf("%02x", pointer[index]); }
}

static int is(const char *name, const char *value) { return strcmp(name, value) == 0; }
