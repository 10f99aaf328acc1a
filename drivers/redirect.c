/* Preloaded into servers that run as daemons: what they do with the absolute
   paths of the system happens below the folder named by VERIF_ROOT instead.
   */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static const char *place(const char *path, char *buffer, size_t size) {
    const char *root = getenv("VERIF_ROOT");
    if(root == NULL || path == NULL || strncmp(path, "/var/", 5) != 0) { return path; }
    snprintf(buffer, size, "%s%s", root, path);
    return buffer;
}

int chdir(const char *path) {
    int (*real)(const char *) = dlsym(RTLD_NEXT, "chdir");
    const char *root = getenv("VERIF_ROOT");
    return real(root && strcmp(path, "/") == 0 ? root : path);
}

#define FILE_FUNCTION(name) \
    FILE *name(const char *path, const char *mode) { \
        FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, #name); \
        char buffer[4096]; \
        return real(place(path, buffer, sizeof(buffer)), mode); \
    }
FILE_FUNCTION(fopen)
FILE_FUNCTION(fopen64)

#define OPEN_FUNCTION(name) \
    int name(const char *path, int flags, ...) { \
        int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, #name); \
        char buffer[4096]; \
        int mode = 0; \
        if(flags & (O_CREAT | O_TMPFILE)) { va_list list; va_start(list, flags); mode = va_arg(list, int); va_end(list); } \
        return real(place(path, buffer, sizeof(buffer)), flags, mode); \
    }
OPEN_FUNCTION(open)
OPEN_FUNCTION(open64)

#define PATH_FUNCTION(name) \
    int name(const char *path) { \
        int (*real)(const char *) = dlsym(RTLD_NEXT, #name); \
        char buffer[4096]; \
        return real(place(path, buffer, sizeof(buffer))); \
    }
PATH_FUNCTION(remove)
PATH_FUNCTION(unlink)
