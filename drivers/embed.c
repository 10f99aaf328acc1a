/* The service embedded in another program, through the functions that a Java
virtual machine calls; the machine itself is a stand-in with the only one of its
functions that they use. One command per line on stdin, one answer per line on
the standard output the program started with (what the server prints goes to the
standard error). Several services may come and go in the same process. */
#include "common.h"
#include "jni/jni.h"

#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

static FILE *answers;
static struct JNINativeInterface_ functions;
static JNIEnv env = &functions;

/* strings of the machine: released by the driver once they are told */
static jstring JNICALL new_string(JNIEnv *_env, const char *text) {
    return text == NULL ? NULL : (jstring) strdup(text);
}

static void tell(jstring string) {
    const unsigned char *pointer = (const unsigned char *) string;
    if(string == NULL) { fprintf(answers, "null\n"); return; }
    fprintf(answers, "=");
    for(; *pointer; pointer++) { fprintf(answers, "%02x", *pointer); }
    fprintf(answers, "\n");
    free(string);
}

static pthread_t runner;
static volatile int running, finished;
static jstring outcome;

static void *run(void *unused) {
    outcome = Java_pt_hive_viriatum_http_Service_run(&env, NULL);
    __atomic_store_n(&finished, 1, __ATOMIC_SEQ_CST);
    return NULL;
}

static const struct { const char *name; jstring (*call)(JNIEnv *, jclass); } strings[] = {
#define STRING(name) { #name, Java_pt_hive_viriatum_http_Service_##name }
    STRING(uptime), STRING(name), STRING(version), STRING(platform), STRING(flags), STRING(compiler),
    STRING(compilerVersion), STRING(compilationDate), STRING(compilationTime), STRING(compilationFlags),
    STRING(modules), STRING(description),
    { "getName", Java_pt_hive_viriatum_http_Info_getName },
    { "getVersion", Java_pt_hive_viriatum_http_Info_getVersion },
    { "getDescription", Java_pt_hive_viriatum_http_Info_getDescription },
    { "hello", Java_pt_hive_viriatum_http_Info_hello },
};

/* descriptors that the rest of the program has open */
static int held[256];
static struct stat kept[256];
static int held_count;

int main(void) {
    int out = dup(1), index, count;
    struct stat info;
    dup2(2, 1);
    answers = fdopen(out, "w");
    setvbuf(answers, NULL, _IOLBF, 0);
    functions.NewStringUTF = new_string;
    while(next_line()) {
        char *command = word();
        if(!strcmp(command, "init")) { tell(Java_pt_hive_viriatum_http_Service_init(&env, NULL)); }
        else if(!strcmp(command, "destroy")) { tell(Java_pt_hive_viriatum_http_Service_destroy(&env, NULL)); }
        else if(!strcmp(command, "ran")) { tell(Java_pt_hive_viriatum_http_Service_ran(&env, NULL)); }
        else if(!strcmp(command, "run")) {
            finished = 0;
            running = 1;
            pthread_create(&runner, NULL, run, NULL);
            fprintf(answers, "started\n");
        } else if(!strcmp(command, "ended")) {
            fprintf(answers, "%d\n", __atomic_load_n(&finished, __ATOMIC_SEQ_CST));
        } else if(!strcmp(command, "wait")) {
            pthread_join(runner, NULL);
            running = 0;
            tell(outcome);
        } else if(!strcmp(command, "exists")) { fprintf(answers, "%d\n", Java_pt_hive_viriatum_http_Service_exists(&env, NULL)); }
        else if(!strcmp(command, "status")) { fprintf(answers, "%d\n", Java_pt_hive_viriatum_http_Service_status(&env, NULL)); }
        else if(!strcmp(command, "port")) { fprintf(answers, "%d\n", Java_pt_hive_viriatum_http_Service_port(&env, NULL)); }
        else if(!strcmp(command, "connections")) { fprintf(answers, "%d\n", Java_pt_hive_viriatum_http_Service_connections(&env, NULL)); }
        else if(!strcmp(command, "string")) {
            char *name = word();
            for(index = 0; index < (int) (sizeof(strings) / sizeof(strings[0])); index++) {
                if(!strcmp(strings[index].name, name)) { tell(strings[index].call(&env, NULL)); break; }
            }
            if(index == (int) (sizeof(strings) / sizeof(strings[0]))) { fprintf(answers, "what\n"); }
        } else if(!strcmp(command, "hold")) {
            /* the descriptors with the lowest numbers that are free */
            for(count = (int) number(); count > 0 && held_count < 256; count--, held_count++) {
                int pair[2];
                if(pipe(pair) < 0) { break; }
                close(pair[1]);
                held[held_count] = pair[0];
                fstat(pair[0], &kept[held_count]);
            }
            fprintf(answers, "%d\n", held_count);
        } else if(!strcmp(command, "held")) {
            count = 0;
            for(index = 0; index < held_count; index++) {
                if(fstat(held[index], &info) < 0 || info.st_ino != kept[index].st_ino || info.st_dev != kept[index].st_dev) { count++; }
            }
            fprintf(answers, "%d\n", count);
        } else if(!strcmp(command, "drop")) {
            for(index = 0; index < held_count; index++) { close(held[index]); }
            held_count = 0;
            fprintf(answers, "0\n");
        } else if(!strcmp(command, "descriptors")) {
            count = 0;
            for(index = 0; index < 1024; index++) { if(fcntl(index, F_GETFD) >= 0) { count++; } }
            fprintf(answers, "%d\n", count);
        } else { fprintf(answers, "what\n"); }
    }
    free(line_);
    fclose(answers);
    return 0;
}
