/* The HTTP parser fed with segments, its events printed. What follows the end of
the segment being parsed is poisoned. */
#include "common.h"
#include "http/http.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#endif
#endif
#ifndef ASAN_POISON_MEMORY_REGION
#define ASAN_POISON_MEMORY_REGION(address, size)
#define ASAN_UNPOISON_MEMORY_REGION(address, size)
#endif

static int in_body, skip, lines;

static void finish_body(void) { if(in_body) { putchar(' '); in_body = 0; } }
static ERROR_CODE on_begin_(struct http_parser_t *parser) { finish_body(); printf("B "); lines = 0; return 0; }
static ERROR_CODE event_(char name, const unsigned char *data, size_t size) {
    finish_body(); printf("%c:", name); put_bytes(data, size); putchar(' '); return 0;
}
static ERROR_CODE on_url_(struct http_parser_t *parser, const unsigned char *data, size_t size) { return event_('U', data, size); }
static ERROR_CODE line_done(struct http_parser_t *parser) { finish_body(); if(lines++ == 0) { printf("L "); } return 0; }
static ERROR_CODE on_field_(struct http_parser_t *parser, const unsigned char *data, size_t size) { return event_('F', data, size); }
static ERROR_CODE on_value_(struct http_parser_t *parser, const unsigned char *data, size_t size) { return event_('V', data, size); }
static ERROR_CODE on_headers_(struct http_parser_t *parser) {
    finish_body();
    if(parser->type == HTTP_REQUEST) { printf("H:%s,", get_http_method_string((enum http_method_e) parser->method)); }
    else { printf("H:%d,", parser->status_code); }
    printf("%d.%d,%d,%d,%d ", parser->http_major, parser->http_minor, parser->content_length,
           parser->flags & (FLAG_CHUNKED | FLAG_KEEP_ALIVE | FLAG_CLOSE), parser->upgrade != 0);
    return skip ? 1 : 0;
}
static ERROR_CODE on_body_(struct http_parser_t *parser, const unsigned char *data, size_t size) {
    if(!in_body) { printf("D:"); in_body = 1; }
    if(size > 0) { put_bytes(data, size); }
    return 0;
}
static ERROR_CODE on_complete_(struct http_parser_t *parser) { finish_body(); printf("E "); return 0; }

int main(void) {
    while(next_line()) {
        /* req|res skip eof hex cuts... */
        char *type = word();
        struct http_parser_t *parser;
        struct http_settings_t *settings;
        size_t size, offset = 0, end, cut = 0;
        int processed = 0, eof;
        unsigned char *data;
        skip = (int) number();
        eof = (int) number();
        data = bytes(&size);
        in_body = 0;
        create_http_parser(&parser, is(type, "req"));
        create_http_settings(&settings);
        settings->on_message_begin = on_begin_;
        settings->on_url = on_url_;
        settings->on_line = line_done;
        settings->on_header_field = on_field_;
        settings->on_header_value = on_value_;
        settings->on_headers_complete = on_headers_;
        settings->on_body = on_body_;
        settings->on_message_complete = on_complete_;
        while(processed != -1 && cut < size) {
            char *next = word();
            end = *next ? (size_t) strtoull(next, NULL, 10) : size;
            if(end > size) { end = size; }
            ASAN_UNPOISON_MEMORY_REGION(data, size);
            ASAN_POISON_MEMORY_REGION(data + end, size - end);
            cut = end;
            while(offset < end) {
                processed = process_data_http_parser(parser, settings, data + offset, end - offset);
                if(processed == -1) { break; }
                if(processed < 0 || (size_t) processed > end - offset) { printf("processed %d of %d", processed, (int) (end - offset)); break; }
                offset += processed;
                if(processed == 0) { break; }
                if(parser->state == STATE_START_REQ || parser->state == STATE_START_RES) {
                    parser->header_field_mark = NULL; parser->header_value_mark = NULL; parser->url_mark = NULL;
                }
            }
        }
        ASAN_UNPOISON_MEMORY_REGION(data, size);
        if(processed != -1 && eof) { processed = process_data_http_parser(parser, settings, data + size, 0); finish_body(); printf("EOF:%d ", processed); }
        finish_body();
        printf("%s", processed == -1 ? "error" : "");
        putchar('\n');
        delete_http_settings(settings);
        delete_http_parser(parser);
        free(data);
    }
    return 0;
}
