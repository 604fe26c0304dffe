/* linked into the server: with VERIF_ROOT=folder the system paths that a daemon writes lie below that folder, and "/" as its current folder is it */
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static const char *place(const char *path, char *buffer) {
    const char *root = getenv("VERIF_ROOT");
    if(root == NULL || path == NULL || (strncmp(path, "/var/", 5) && strncmp(path, "/run/", 5) && strcmp(path, "/")) || strlen(path) + strlen(root) > 4000) return path;
    sprintf(buffer, "%s%s", root, path); return buffer;
}
#define P char buffer[4096]; path = place(path, buffer)
FILE *__real_fopen(const char *path, const char *mode);
FILE *__wrap_fopen(const char *path, const char *mode) { P; return __real_fopen(path, mode); }
FILE *__real_fopen64(const char *path, const char *mode);
FILE *__wrap_fopen64(const char *path, const char *mode) { P; return __real_fopen64(path, mode); }
int __real_open(const char *path, int flags, ...);
int __wrap_open(const char *path, int flags, ...) { va_list a; int mode; va_start(a, flags); mode = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); P; return __real_open(path, flags, mode); }
int __real_open64(const char *path, int flags, ...);
int __wrap_open64(const char *path, int flags, ...) { va_list a; int mode; va_start(a, flags); mode = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); P; return __real_open64(path, flags, mode); }
int __real_remove(const char *path);
int __wrap_remove(const char *path) { P; return __real_remove(path); }
int __real_unlink(const char *path);
int __wrap_unlink(const char *path) { P; return __real_unlink(path); }
int __real_access(const char *path, int mode);
int __wrap_access(const char *path, int mode) { P; return __real_access(path, mode); }
int __real_chdir(const char *path);
int __wrap_chdir(const char *path) {
    const char *root = getenv("VERIF_ROOT"); char name[4096], folder[4096]; FILE *file; int result;
    P; result = __real_chdir(path);
    /* tells its current folder, which only the process itself and privileged ones can see */
    if(root && strlen(root) < 4000 && getcwd(folder, sizeof(folder))) {
        sprintf(name, "%s/cwd", root); file = __real_fopen(name, "w");
        if(file) { fputs(folder, file); fclose(file); }
    }
    return result;
}
