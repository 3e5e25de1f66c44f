// C library functions without IR (no libc header: definitions use the plain C names)
typedef unsigned long size_t;
extern "C" {
void __tsan_init() {}
static char kse_msg_pool[16384];
static size_t kse_msg_used;
char *kse_msg_alloc(size_t n) { if (kse_msg_used + n > sizeof kse_msg_pool) kse_msg_used = 0; char *p = kse_msg_pool + kse_msg_used; kse_msg_used += n; return p; }
__attribute__((noinline)) size_t strlen(const char *s) { const volatile char *p = s; size_t n = 0; while (p[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char *strerror(int) { return (char *)"error"; }
void bzero(void *p, size_t n) { __builtin_memset(p, 0, n); }
static int kse_errno;
int *__errno_location(void) { return &kse_errno; }
static int kse_digit(int c, int base) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; return d < base ? d : -1; }
static unsigned long kse_strto(const char *s, char **end, int base, bool sign)
{
    const char *p = s;
    while (isspace(*p)) p++;
    bool neg = false, any = false, over = false;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && kse_digit(p[2], 16) >= 0) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0;
    unsigned long limit = sign ? (neg ? 1ul << 63 : (1ul << 63) - 1) : ~0ul;
    for (int d; (d = kse_digit(*p, base)) >= 0; p++) { any = true; if (v > (limit - d) / base) over = true; v = v * base + d; }
    if (end) *end = (char *) (any ? p : s);
    if (over) { kse_errno = 34; return limit; }
    return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { return (long) kse_strto(s, e, b, true); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long) kse_strto(s, e, b, true); }
long strtoll(const char *s, char **e, int b) { return (long) kse_strto(s, e, b, true); }
long __isoc23_strtoll(const char *s, char **e, int b) { return (long) kse_strto(s, e, b, true); }
unsigned long strtoul(const char *s, char **e, int b) { return kse_strto(s, e, b, false); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return kse_strto(s, e, b, false); }
unsigned long strtoull(const char *s, char **e, int b) { return kse_strto(s, e, b, false); }
unsigned long __isoc23_strtoull(const char *s, char **e, int b) { return kse_strto(s, e, b, false); }
int atoi(const char *s) { return (int) kse_strto(s, nullptr, 10, true); }
long atol(const char *s) { return (long) kse_strto(s, nullptr, 10, true); }
}
