/* Preloaded into the server: makes system calls fail (or come out short, or
late) as the page shared with the check says. Sockets are hit when their peer
is a victim (source address 127.0.0.2) or when everyone is (enabled is 2),
files when their path has "victim" in it, the waiting and accepting calls for
everyone. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

enum { RECV_ERROR, RECV_SHORT, SEND_ERROR, SEND_SHORT, OPEN_ERROR, READ_ERROR, READ_SHORT, DIR_ERROR, ACCEPT_ERROR,
       WAIT_EINTR, WAIT_FEW, WAIT_LATE, KINDS };

struct page {
    volatile uint32_t enabled;
    uint32_t seed;
    volatile uint32_t rate[16];
    volatile uint32_t count[16];
};

static struct page *page;
static uint64_t state;

static struct page *get(void) {
    static int tried;
    if(!tried) {
        const char *path = getenv("VERIF_FAULTS");
        int fd = path ? open(path, O_RDWR) : -1;
        tried = 1;
        if(fd >= 0) {
            void *map = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
            if(map != MAP_FAILED) { page = map; state = page->seed * 2654435761u + 88172645463325252ull; }
        }
    }
    return page;
}

static uint32_t draw(void) {
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    return (uint32_t) (state >> 16);
}

static int hit(int kind) {
    struct page *p = get();
    if(!p || !p->enabled || !p->rate[kind] || draw() % 10000 >= p->rate[kind]) { return 0; }
    p->count[kind]++;
    return 1;
}

static int active(int kind) { struct page *p = get(); return p && p->enabled && p->rate[kind]; }

static int victim_socket(int fd) {
    struct sockaddr_in a;
    socklen_t n = sizeof(a);
    if(get()->enabled == 2) { return 1; }
    if(getpeername(fd, (struct sockaddr *) &a, &n) != 0 || a.sin_family != AF_INET) { return 0; }
    return a.sin_addr.s_addr == htonl(0x7f000002);
}

static int victim_file(int fd) {
    char link[64], path[4096];
    ssize_t n;
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    n = readlink(link, path, sizeof(path) - 1);
    if(n <= 0) { return 0; }
    path[n] = 0;
    return strstr(path, "victim") != NULL;
}

#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if(!real) { real = (type (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name); }

static const int RECV_CODES[] = { ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETDOWN, EIO };
static const int SEND_CODES[] = { EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOBUFS };
static const int OPEN_CODES[] = { EMFILE, EACCES, EIO, ENFILE, ENOENT, ENOMEM };
static const int ACCEPT_CODES[] = { ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EINTR, EPROTO };
#define PICK(codes) codes[draw() % (sizeof(codes) / sizeof(codes[0]))]

ssize_t recv(int fd, void *data, size_t size, int flags) {
    REAL(ssize_t, "recv", int, void *, size_t, int)
    if((active(RECV_ERROR) || active(RECV_SHORT)) && victim_socket(fd)) {
        if(hit(RECV_ERROR)) { errno = PICK(RECV_CODES); return -1; }
        if(size > 1 && hit(RECV_SHORT)) { size = 1 + draw() % (size > 40 && draw() % 3 ? 40 : size); }
    }
    return real(fd, data, size, flags);
}

ssize_t send(int fd, const void *data, size_t size, int flags) {
    REAL(ssize_t, "send", int, const void *, size_t, int)
    if((active(SEND_ERROR) || active(SEND_SHORT)) && victim_socket(fd)) {
        if(hit(SEND_ERROR)) { errno = PICK(SEND_CODES); return -1; }
        if(size > 1 && hit(SEND_SHORT)) { size = 1 + draw() % (size - 1); }
    }
    return real(fd, data, size, flags);
}

/* the calls that OpenSSL makes */
ssize_t read(int fd, void *data, size_t size) {
    REAL(ssize_t, "read", int, void *, size_t)
    if(active(RECV_ERROR) && victim_socket(fd) && hit(RECV_ERROR)) { errno = PICK(RECV_CODES); return -1; }
    return real(fd, data, size);
}

ssize_t write(int fd, const void *data, size_t size) {
    REAL(ssize_t, "write", int, const void *, size_t)
    if(active(SEND_ERROR) && victim_socket(fd) && hit(SEND_ERROR)) { errno = PICK(SEND_CODES); return -1; }
    return real(fd, data, size);
}

FILE *fopen(const char *path, const char *mode) {
    REAL(FILE *, "fopen", const char *, const char *)
    if(strstr(path, "victim") && hit(OPEN_ERROR)) { errno = PICK(OPEN_CODES); return NULL; }
    return real(path, mode);
}

FILE *fopen64(const char *path, const char *mode) {
    REAL(FILE *, "fopen64", const char *, const char *)
    if(strstr(path, "victim") && hit(OPEN_ERROR)) { errno = PICK(OPEN_CODES); return NULL; }
    return real(path, mode);
}

size_t fread(void *data, size_t unit, size_t count, FILE *file) {
    REAL(size_t, "fread", void *, size_t, size_t, FILE *)
    if((active(READ_ERROR) || active(READ_SHORT)) && victim_file(fileno(file))) {
        if(hit(READ_ERROR)) { errno = EIO; return 0; }
        /* an error in the middle: what came before it is delivered, and the
        position stays behind it */
        if(unit == 1 && count > 1 && hit(READ_SHORT)) {
            size_t got = real(data, unit, draw() % count, file);
            errno = EIO;
            return got;
        }
    }
    return real(data, unit, count, file);
}

DIR *opendir(const char *path) {
    REAL(DIR *, "opendir", const char *)
    if(strstr(path, "victim") && hit(DIR_ERROR)) { errno = PICK(OPEN_CODES); return NULL; }
    return real(path);
}

int accept(int fd, struct sockaddr *a, socklen_t *n) {
    REAL(int, "accept", int, struct sockaddr *, socklen_t *)
    if(hit(ACCEPT_ERROR)) { errno = PICK(ACCEPT_CODES); return -1; }
    return real(fd, a, n);
}

int epoll_wait(int fd, struct epoll_event *events, int size, int timeout) {
    REAL(int, "epoll_wait", int, struct epoll_event *, int, int)
    if(hit(WAIT_EINTR)) { errno = EINTR; return -1; }
    if(hit(WAIT_FEW)) { size = 1 + draw() % (size < 4 ? size : 4); }
    if(hit(WAIT_LATE)) { usleep(draw() % 5000); }
    return real(fd, events, size, timeout);
}

int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    REAL(int, "select", int, fd_set *, fd_set *, fd_set *, struct timeval *)
    if(hit(WAIT_EINTR)) { errno = EINTR; return -1; }
    if(hit(WAIT_LATE)) { usleep(draw() % 5000); }
    return real(n, r, w, x, t);
}
