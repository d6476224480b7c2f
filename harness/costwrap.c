// Only linked into the "cost" build: counts the bytes the library moves, compares or clears.
#include <stddef.h>
extern int vf_track;
unsigned long long vf_mem_bytes;
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *a, const void *b, size_t n) { if (vf_track) vf_mem_bytes += n; return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, size_t n) { if (vf_track) vf_mem_bytes += n; return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, size_t n) { if (vf_track) vf_mem_bytes += n; return __real_memset(a, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (vf_track) vf_mem_bytes += n; return __real_memcmp(a, b, n); }
// searching is looking at every byte up to the find
#define SEE(n) do { if (vf_track) vf_mem_bytes += (unsigned long long)(n); } while (0)
size_t __real_strlen(const char *);
size_t __real_strnlen(const char *, size_t);
void *__real_memchr(const void *, int, size_t);
void *__real_memrchr(const void *, int, size_t);
void *__real_rawmemchr(const void *, int);
char *__real_strchr(const char *, int);
char *__real_strrchr(const char *, int);
char *__real_strstr(const char *, const char *);
void *__real_memmem(const void *, size_t, const void *, size_t);
int __real_strcmp(const char *, const char *);
int __real_strncmp(const char *, const char *, size_t);
char *__real_strcpy(char *, const char *);
char *__real_strcat(char *, const char *);
int __real_bcmp(const void *, const void *, size_t);
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); SEE(n); return n; }
size_t __wrap_strnlen(const char *s, size_t m) { size_t n = __real_strnlen(s, m); SEE(n); return n; }
void *__wrap_memchr(const void *p, int c, size_t n) { char *r = __real_memchr(p, c, n); SEE(r ? (size_t)(r - (const char *)p) : n); return r; }
void *__wrap_memrchr(const void *p, int c, size_t n) { char *r = __real_memrchr(p, c, n); SEE(r ? n - (size_t)(r - (const char *)p) : n); return r; }
void *__wrap_rawmemchr(const void *p, int c) { char *r = __real_rawmemchr(p, c); SEE(r - (const char *)p); return r; }
char *__wrap_strchr(const char *s, int c) { char *r = __real_strchr(s, c); SEE(r ? (size_t)(r - s) : __real_strlen(s)); return r; }
char *__wrap_strrchr(const char *s, int c) { SEE(__real_strlen(s)); return __real_strrchr(s, c); }
char *__wrap_strstr(const char *s, const char *t) { char *r = __real_strstr(s, t); SEE(r ? (size_t)(r - s) : __real_strlen(s)); return r; }
void *__wrap_memmem(const void *p, size_t n, const void *q, size_t m) { char *r = __real_memmem(p, n, q, m); SEE(r ? (size_t)(r - (const char *)p) : n); return r; }
int __wrap_strcmp(const char *a, const char *b) { size_t i = 0; if (vf_track) { while (a[i] && a[i] == b[i]) i++; SEE(i); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { SEE(n); return __real_strncmp(a, b, n); }
char *__wrap_strcpy(char *a, const char *b) { SEE(__real_strlen(b)); return __real_strcpy(a, b); }
char *__wrap_strcat(char *a, const char *b) { SEE(__real_strlen(a) + __real_strlen(b)); return __real_strcat(a, b); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { SEE(n); return __real_bcmp(a, b, n); }
