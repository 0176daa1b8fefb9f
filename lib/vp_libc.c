// Library functions a harness or the library may call, for symbolic execution only (native builds use libc's own).
typedef unsigned long size_t;
void* memchr(const void* s, int c, size_t n)
{
    const unsigned char* p = s;
    for (; n--; ++p) if (*p == (unsigned char) c) return (void*) p;
    return 0;
}
char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s)
{
    char* p = d;
    while (*p) ++p;
    while ((*p++ = *s++)) ;
    return d;
}
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int strncmp(const char* a, const char* b, size_t n)
{
    for (; n--; ++a, ++b) {
        if (*a != *b) return (unsigned char) *a - (unsigned char) *b;
        if (!*a) break;
    }
    return 0;
}
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char) c) return (char*) s; if (!*s) return 0; } }
void bzero(void* p, size_t n) { unsigned char* q = p; while (n--) *q++ = 0; }
int abs(int a) { return a < 0 ? -a : a; }
long labs(long a) { return a < 0 ? -a : a; }
int snprintf(char* d, size_t n, const char* f, ...) { if (n) *d = 0; return 0; }
int sprintf(char* d, const char* f, ...) { *d = 0; return 0; }
int puts(const char* s) { return 0; }
int putchar(int c) { return c; }
int usleep(unsigned u) { return 0; }
