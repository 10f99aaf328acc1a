/* Encodings, digests, ciphers, streams and compression, driven by commands. */
#include "common.h"
#include "http/http.h"

#include <sys/stat.h>

static void do_b64(void) {
    char *op = word();
    size_t size, length = 0;
    unsigned char *data = bytes(&size);
    unsigned char *out = NULL;
    ERROR_CODE code;
    if(is(op, "enc")) { code = encode_base64(data, size, &out, &length); }
    else { code = decode_base64(data, size, &out, &length); }
    free(data);
    if(IS_ERROR_CODE(code)) { printf("error"); return; }
    put_bytes(out, length);
    free(out);
}

static void do_pct(void) {
    char *op = word();
    size_t size, length = 0;
    unsigned char *data = bytes(&size);
    unsigned char *out = NULL;
    unsigned char *other = NULL;
    ERROR_CODE code;
    if(is(op, "enc")) { code = url_encode(data, size, &out, &length); }
    else if(is(op, "dec")) { code = url_decode(data, size, &out, &length); }
    else if(is(op, "encto")) { other = (unsigned char *) malloc(number() + 1); code = encode_percent(data, size, other, &length); out = other; }
    else { other = (unsigned char *) malloc(number() + 1); code = decode_percent(data, size, other, &length); out = other; }
    free(data);
    if(IS_ERROR_CODE(code)) { printf("error %zu ", length); }
    put_bytes(out, length + 1);
    free(out);
}

/* the parameters of a query: size of the buffer, number, (name, value)... */
static void do_par(void) {
    size_t size = number(), count = number(), index, sizes[8];
    char *keys[8], *values[8], *buffer = (char *) malloc(size);
    ERROR_CODE code;
    for(index = 0; index < 8; index++) {
        keys[index] = index < count ? (char *) string_arg() : NULL;
        values[index] = index < count ? (char *) bytes(&sizes[index]) : NULL;
        if(index >= count) { sizes[index] = 0; }
    }
    code = parameters_http_c(
        buffer, size, count,
        keys[0], values[0], sizes[0], keys[1], values[1], sizes[1], keys[2], values[2], sizes[2], keys[3], values[3], sizes[3],
        keys[4], values[4], sizes[4], keys[5], values[5], sizes[5], keys[6], values[6], sizes[6], keys[7], values[7], sizes[7]
    );
    if(IS_ERROR_CODE(code)) { printf("error"); } else { put_bytes(buffer, strlen(buffer)); }
    for(index = 0; index < count; index++) { free(keys[index]); free(values[index]); }
    free(buffer);
}

static void put_digest(unsigned char *data, size_t size, unsigned char *copy, unsigned char *digest, size_t length) {
    put_bytes(digest, length);
    /* what is digested is only read */
    if(memcmp(data, copy, size) != 0) { printf(" input changed"); }
}

static void do_digest(char *group) {
    size_t size, done, part;
    unsigned char *data = bytes(&size);
    unsigned char *copy = (unsigned char *) malloc(size + 1);
    unsigned char digest[20];
    int parts = 0;
    char *text;
    memcpy(copy, data, size);
    if(is(group, "crc")) { printf("%08lx", crc_32(data, (unsigned int) size)); if(memcmp(data, copy, size) != 0) { printf(" input changed"); } }
    else if(is(group, "md5")) { md5(data, (unsigned int) size, digest); put_digest(data, size, copy, digest, 16); }
    else if(is(group, "sha1")) { sha1(data, (unsigned int) size, digest); put_digest(data, size, copy, digest, 20); }
    else {
        struct md5_context_t md5_context;
        struct sha1_context_t sha1_context;
        memset(&md5_context, 0xaa, sizeof(md5_context));
        memset(&sha1_context, 0xaa, sizeof(sha1_context));
        init_md5(&md5_context);
        init_sha1(&sha1_context);
        for(done = 0; done < size || parts == 0; done += part) {
            unsigned char *piece;
            text = word();
            part = text[0] ? strtoull(text, NULL, 10) : size - done;
            if(part > size - done) { part = size - done; }
            /* each part from a buffer of its own */
            piece = (unsigned char *) malloc(part);
            memcpy(piece, data + done, part);
            if(is(group, "md5u")) { update_md5(&md5_context, piece, part); }
            else { update_sha1(&sha1_context, piece, part); }
            free(piece);
            parts++;
        }
        if(is(group, "md5u")) { final_md5(&md5_context, digest); put_bytes(digest, 16); }
        else { final_sha1(&sha1_context, digest); put_bytes(digest, 20); }
    }
    free(copy);
    free(data);
}

/* digests of a large number of equal bytes in one update */
static void do_large(void) {
    char *op = word();
    size_t size = number();
    unsigned char byte = (unsigned char) number();
    unsigned char digest[20];
    unsigned char *data = (unsigned char *) malloc(size);
    memset(data, byte, size);
    if(is(op, "md5")) {
        struct md5_context_t context;
        init_md5(&context);
        update_md5(&context, data, size);
        final_md5(&context, digest);
        put_bytes(digest, 16);
    } else if(is(op, "sha1")) {
        struct sha1_context_t context;
        init_sha1(&context);
        update_sha1(&context, data, size);
        final_sha1(&context, digest);
        put_bytes(digest, 20);
    } else { printf("%08lx", crc_32(data, (unsigned int) size)); }
    free(data);
}

static void do_rc4(void) {
    char *op = word();
    char *key = (char *) string_arg();
    size_t size, done, part;
    char *text;
    if(is(op, "crypt")) {
        char *message = (char *) string_arg();
        char *result;
        size = strlen(message);
        crypt_rc4(message, key, &result);
        put_bytes(result, size);
        free(result);
        free(message);
    } else {
        struct rc4_t *rc4;
        unsigned char *data = bytes(&size);
        create_rc4(key, &rc4);
        for(done = 0; done < size; done += part) {
            char *piece;
            text = word();
            part = text[0] ? strtoull(text, NULL, 10) : size - done;
            if(part > size - done) { part = size - done; }
            if(is(op, "inplace")) { cipher_rc4(rc4, (char *) data + done, part, (char *) data + done); }
            else {
                piece = (char *) malloc(part);
                cipher_rc4(rc4, (char *) data + done, part, piece);
                memcpy(data + done, piece, part);
                free(piece);
            }
        }
        put_bytes(data, size);
        delete_rc4(rc4);
        free(data);
    }
    free(key);
}

/* streams */

#define SLOTS 16
static struct stream_t *streams[SLOTS];
static struct file_stream_t *files[SLOTS];
static struct memory_stream_t *memories[SLOTS];
static unsigned char *paths[SLOTS], *modes[SLOTS];
static struct bit_stream_t *bits[SLOTS];

static void do_stream(void) {
    char *op = word();
    size_t id = number();
    size_t size;
    unsigned char *data;
    if(is(op, "file")) {
        paths[id] = string_arg();
        modes[id] = string_arg();
        create_file_stream(&files[id], paths[id], modes[id]);
        streams[id] = get_stream_file_stream(files[id]);
    }
    else if(is(op, "memory")) { create_memory_stream(&memories[id]); streams[id] = get_stream_memory_stream(memories[id]); }
    else if(is(op, "open")) { streams[id]->open(streams[id]); }
    else if(is(op, "close")) { streams[id]->close(streams[id]); }
    else if(is(op, "flush")) { streams[id]->flush(streams[id]); }
    else if(is(op, "seek")) { streams[id]->seek(streams[id], number()); }
    else if(is(op, "size")) { printf("%zu", streams[id]->size(streams[id])); }
    else if(is(op, "tell")) { printf("%zu", streams[id]->tell(streams[id])); }
    else if(is(op, "write")) { data = bytes(&size); printf("%zu", streams[id]->write(streams[id], data, size)); free(data); }
    else if(is(op, "read")) {
        size_t count;
        size = number();
        data = (unsigned char *) malloc(size);
        count = streams[id]->read(streams[id], data, size);
        printf("%zu ", count);
        put_bytes(data, count <= size ? count : 0);
        free(data);
    }
    else if(is(op, "del")) {
        if(files[id]) { delete_file_stream(files[id]); free(paths[id]); free(modes[id]); files[id] = NULL; }
        else { delete_memory_stream(memories[id]); memories[id] = NULL; }
        streams[id] = NULL;
    }
}

static void do_bits(void) {
    char *op = word();
    size_t id = number();
    unsigned char byte, size;
    unsigned short word_;
    if(is(op, "new")) { create_bit_stream(&bits[id], streams[id]); open_bit_stream(bits[id]); }
    else if(is(op, "wb")) { byte = (unsigned char) number(); write_byte_bit_stream(bits[id], byte, (unsigned char) number()); }
    else if(is(op, "ww")) { word_ = (unsigned short) number(); write_word_bit_stream(bits[id], word_, (unsigned char) number()); }
    else if(is(op, "rb")) { size = (unsigned char) number(); read_byte_bit_stream(bits[id], &byte, size); printf("%u", byte); }
    else if(is(op, "rw")) { size = (unsigned char) number(); read_word_bit_stream(bits[id], &word_, size); printf("%u", word_); }
    else if(is(op, "back")) { seek_bit_stream(bits[id], integer()); }
    else if(is(op, "del")) { close_bit_stream(bits[id]); delete_bit_stream(bits[id]); bits[id] = NULL; }
}

/* a stream over memory that is given or collected, to be opened any number of times */

struct own_t { unsigned char *data; size_t size; size_t position; size_t opened; size_t most; };

static void own_open(struct stream_t *stream) { struct own_t *own = (struct own_t *) stream->lower; own->position = 0; own->opened++; }
static void own_close(struct stream_t *stream) { struct own_t *own = (struct own_t *) stream->lower; own->opened--; }
static size_t own_read(struct stream_t *stream, unsigned char *buffer, size_t size) {
    struct own_t *own = (struct own_t *) stream->lower;
    size_t count = own->size - own->position;
    if(count > size) { count = size; }
    if(own->most && count > own->most) { count = own->most; }
    memcpy(buffer, own->data + own->position, count);
    own->position += count;
    return count;
}
static size_t own_write(struct stream_t *stream, unsigned char *buffer, size_t size) {
    struct own_t *own = (struct own_t *) stream->lower;
    own->data = (unsigned char *) realloc(own->data, own->size + size + 1);
    memcpy(own->data + own->size, buffer, size);
    own->size += size;
    own->position = own->size;
    return size;
}
static void own_seek(struct stream_t *stream, size_t target) { ((struct own_t *) stream->lower)->position = target; }
static size_t own_tell(struct stream_t *stream) { return ((struct own_t *) stream->lower)->position; }
static size_t own_size(struct stream_t *stream) { return ((struct own_t *) stream->lower)->size; }

static struct stream_t *own_stream(unsigned char *data, size_t size, size_t most) {
    struct stream_t *stream;
    struct own_t *own = (struct own_t *) malloc(sizeof(struct own_t));
    create_stream(&stream);
    own->data = data; own->size = size; own->position = 0; own->opened = 0; own->most = most;
    stream->lower = own;
    stream->open = own_open; stream->close = own_close; stream->read = own_read; stream->write = own_write;
    stream->flush = own_open; stream->seek = own_seek; stream->size = own_size; stream->tell = own_tell;
    return stream;
}

static void own_delete(struct stream_t *stream) {
    struct own_t *own = (struct own_t *) stream->lower;
    free(own->data);
    free(own);
    delete_stream(stream);
}

/* huff <data> <most> <table>: encodes, decodes with the tree and with the table */
static void do_huff(void) {
    size_t size, most;
    unsigned char *data = bytes(&size);
    struct huffman_t *huffman;
    struct stream_t *in, *code, *out;
    struct own_t *own;
    int table;
    size_t index;
    most = number();
    in = own_stream(data, size, most);
    code = own_stream(NULL, 0, most);
    create_huffman(&huffman);
    generate_table_huffman(huffman, in);
    encode_huffman(huffman, in, code);
    /* size of the code, number of bits, length of the code of every present symbol */
    printf("%zu %lld ", ((struct own_t *) code->lower)->size, huffman->bit_count);
    for(index = 0; index < 256; index++) {
        if(huffman->nodes[index]) { printf("%zu:%u,", index, huffman->nodes[index]->bit_count); }
    }
    for(table = 0; table < 2; table++) {
        if(table) { generate_prefix_huffman(huffman); }
        out = own_stream(NULL, 0, 0);
        decode_huffman(huffman, code, out);
        own = (struct own_t *) out->lower;
        if(own->size == size && memcmp(own->data ? own->data : (unsigned char *) "", data, size) == 0) { printf(" same"); }
        else { printf(" differs(%zu)", own->size); }
        printf("%zu", own->opened);
        own_delete(out);
    }
    printf(" %zu %zu", ((struct own_t *) in->lower)->opened, ((struct own_t *) code->lower)->opened);
    delete_huffman(huffman);
    own_delete(in);
    own_delete(code);
}

/* hufffile <in> <code> <out> <table>: the same over files */
static void do_hufffile(void) {
    unsigned char *in_path = string_arg(), *code_path = string_arg(), *out_path = string_arg();
    int table = (int) number();
    struct file_stream_t *in, *code, *coded, *out;
    struct huffman_t *huffman;
    create_file_stream(&in, in_path, (unsigned char *) "rb");
    create_file_stream(&code, code_path, (unsigned char *) "wb");
    create_file_stream(&coded, code_path, (unsigned char *) "rb");
    create_file_stream(&out, out_path, (unsigned char *) "wb");
    create_huffman(&huffman);
    generate_table_huffman(huffman, get_stream_file_stream(in));
    encode_huffman(huffman, get_stream_file_stream(in), get_stream_file_stream(code));
    if(table) { generate_prefix_huffman(huffman); }
    decode_huffman(huffman, get_stream_file_stream(coded), get_stream_file_stream(out));
    delete_huffman(huffman);
    delete_file_stream(in);
    delete_file_stream(code);
    delete_file_stream(coded);
    delete_file_stream(out);
    free(in_path); free(code_path); free(out_path);
    printf("done");
}

int main(void) {
    while(next_line()) {
        char *group = word();
        if(is(group, "b64")) { do_b64(); }
        else if(is(group, "pct")) { do_pct(); }
        else if(is(group, "par")) { do_par(); }
        else if(is(group, "crc") || is(group, "md5") || is(group, "sha1") || is(group, "md5u") || is(group, "sha1u")) { do_digest(group); }
        else if(is(group, "large")) { do_large(); }
        else if(is(group, "rc4")) { do_rc4(); }
        else if(is(group, "st")) { do_stream(); }
        else if(is(group, "bs")) { do_bits(); }
        else if(is(group, "huff")) { do_huff(); }
        else if(is(group, "hufffile")) { do_hufffile(); }
        putchar('\n');
    }
    fflush(stdout);
    free(line_);
    return 0;
}
