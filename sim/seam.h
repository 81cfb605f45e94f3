// Force-included in front of every /repo source the simulator builds (-include seam.h).
// Redirects stdio, path and allocation to the simulated process/disk. /repo itself is unchanged.
#ifndef VERIF_SEAM_H
#define VERIF_SEAM_H
#ifdef __cplusplus
#error "seam.h is for the C sources"
#endif
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <ctype.h>
#include <math.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <time.h>
#include <inttypes.h>
#include <assert.h>

typedef struct sim_file SIM_FILE;
extern SIM_FILE *sim_stdin_, *sim_stdout_, *sim_stderr_;
SIM_FILE* sim_fopen(const char*, const char*);
int sim_fclose(SIM_FILE*);
size_t sim_fread(void*, size_t, size_t, SIM_FILE*);
size_t sim_fwrite(const void*, size_t, size_t, SIM_FILE*);
int sim_fseek(SIM_FILE*, long, int);
long sim_ftell(SIM_FILE*);
void sim_rewind(SIM_FILE*);
int sim_fgetc(SIM_FILE*);
int sim_ungetc(int, SIM_FILE*);
char* sim_fgets(char*, int, SIM_FILE*);
int sim_fputc(int, SIM_FILE*);
int sim_fputs(const char*, SIM_FILE*);
int sim_puts(const char*);
int sim_printf(const char*, ...) __attribute__((format(printf,1,2)));
int sim_fprintf(SIM_FILE*, const char*, ...) __attribute__((format(printf,2,3)));
int sim_vfprintf(SIM_FILE*, const char*, va_list);
int sim_vprintf(const char*, va_list);
int sim_fflush(SIM_FILE*);
int sim_feof(SIM_FILE*);
int sim_ferror(SIM_FILE*);
void sim_clearerr(SIM_FILE*);
void sim_setbuf(SIM_FILE*, char*);
int sim_setvbuf(SIM_FILE*, char*, int, size_t);
int sim_fileno(SIM_FILE*);
int sim_fsync(int);
int sim_remove(const char*);
int sim_rename(const char*, const char*);
void sim_perror(const char*);
char* sim_realpath(const char*, char*);
int sim_access(const char*, int);
int sim_stat(const char*, struct stat*);
void sim_exit(int) __attribute__((noreturn));
void sim_abort(void) __attribute__((noreturn));
void* sim_malloc(size_t);
void* sim_calloc(size_t, size_t);
void* sim_realloc(void*, size_t);
void sim_free(void*);
char* sim_strdup(const char*);
char* sim_strndup(const char*, size_t);
int sim_vasprintf(char**, const char*, va_list);
int sim_asprintf(char**, const char*, ...);
ssize_t sim_getline(char**, size_t*, SIM_FILE*);
time_t sim_time(time_t*);
clock_t sim_clock(void);
int sim_rand(void);
void sim_srand(unsigned);
char* sim_getenv(const char*);
char* sim_getcwd(char*, size_t);

#define FILE SIM_FILE
#undef stdin
#undef stdout
#undef stderr
#define stdin sim_stdin_
#define stdout sim_stdout_
#define stderr sim_stderr_
#define fopen sim_fopen
#define fclose sim_fclose
#define fread sim_fread
#define fwrite sim_fwrite
#define fseek sim_fseek
#define fseeko sim_fseek
#define ftell sim_ftell
#define ftello sim_ftell
#define rewind sim_rewind
#define fgetc sim_fgetc
#undef getc
#define getc sim_fgetc
#undef getchar
#define getchar() sim_fgetc(stdin)
#define ungetc sim_ungetc
#define fgets sim_fgets
#define fputc sim_fputc
#undef putc
#define putc sim_fputc
#undef putchar
#define putchar(c) sim_fputc((c), stdout)
#define fputs sim_fputs
#define puts sim_puts
#define printf sim_printf
#define fprintf sim_fprintf
#define vfprintf sim_vfprintf
#define vprintf sim_vprintf
#define fflush sim_fflush
#undef feof
#define feof sim_feof
#undef ferror
#define ferror sim_ferror
#undef clearerr
#define clearerr sim_clearerr
#define setbuf sim_setbuf
#define setvbuf sim_setvbuf
#undef fileno
#define fileno sim_fileno
#define fsync sim_fsync
#define remove sim_remove
#define unlink sim_remove
#define rename sim_rename
#define perror sim_perror
#define realpath sim_realpath
#define access sim_access
#define exit sim_exit
#define abort sim_abort
#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
#undef strdup
#define strdup sim_strdup
#undef strndup
#define strndup sim_strndup
#define asprintf sim_asprintf
#define vasprintf sim_vasprintf
#define getline sim_getline
#define time sim_time
#define clock sim_clock
#define rand sim_rand
#define srand sim_srand
#define getenv sim_getenv
#define getcwd sim_getcwd
#endif
