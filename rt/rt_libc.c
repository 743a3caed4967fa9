// Engine-only models of the C library functions the code under analysis uses (compiled with -fno-builtin).
typedef unsigned long size_t;
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); void abort(void);
// ---- C library
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return ((void*)0); } }
char* strrchr(const char* s, int c) { const char* r = ((void*)0); for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return ((void*)0); }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (; *h; ++h) if (!strncmp(h, n, k)) return (char*)h; return k ? ((void*)0) : (char*)h; }
size_t wcslen(const int* s) { size_t n = 0; while (s[n]) ++n; return n; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int __rt_errno;
int* __errno_location(void) { return &__rt_errno; }
long strtol(const char* s, char** end, int base) {
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  int neg = 0;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  unsigned long v = 0; int any = 0, ov = 0;
  for (;; ++p) {
    int d;
    if (*p >= '0' && *p <= '9') d = *p - '0';
    else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
    else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
    else break;
    if (d >= base) break;
    any = 1;
    if (v > (0x7fffffffffffffffUL + (neg ? 1 : 0) - d) / base) ov = 1;
    v = v * base + d;
  }
  if (end) *end = (char*)(any ? p : s);
  if (ov) { __rt_errno = 34; return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; }
  return neg ? -(long)v : (long)v;
}
unsigned long strtoul(const char* s, char** end, int base) {
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  int neg = 0;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  unsigned long v = 0; int any = 0, ov = 0;
  for (;; ++p) {
    int d;
    if (*p >= '0' && *p <= '9') d = *p - '0';
    else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
    else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
    else break;
    if (d >= base) break;
    any = 1;
    if (v > (~0UL - d) / base) ov = 1;
    v = v * base + d;
  }
  if (end) *end = (char*)(any ? p : s);
  if (ov) { __rt_errno = 34; return ~0UL; }
  return neg ? -v : v;
}
int atoi(const char* s) { return (int)strtol(s, ((void*)0), 10); }
// formatted output: integers, characters, strings and pointers (no floating point)
typedef __builtin_va_list va_list;
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
  size_t n = 0;
#define PUT(c) do { char ch_ = (c); if (n + 1 < cap) out[n] = ch_; ++n; } while (0)
  for (; *f; ++f) {
    if (*f != '%') { PUT(*f); continue; }
    ++f;
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, prec = -1, lng = 0;
    size_t width = 0;
    for (;; ++f) {
      if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break;
    }
    if (*f == '*') { int w = __builtin_va_arg(ap, int); if (w < 0) { left = 1; w = -w; } width = (size_t)w; ++f; }
    else while (isdigit(*f)) width = width * 10 + (size_t)(*f++ - '0');
    if (*f == '.') {
      ++f;
      prec = 0;
      if (*f == '*') { prec = __builtin_va_arg(ap, int); ++f; }
      else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0');
    }
    for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng = lng == -1 ? -2 : -1; else break; }
    char tmp[72];
    const char* s = tmp;
    size_t len = 0;
    char sign = 0;
    const char* pre = "";
    int num = 1;
    if (*f == '%') { PUT('%'); continue; }
    if (*f == 'c') { tmp[0] = (char)__builtin_va_arg(ap, int); len = 1; num = 0; }
    else if (*f == 's') {
      s = __builtin_va_arg(ap, const char*);
      if (!s) s = "(null)";
      while ((prec < 0 || len < (size_t)prec) && s[len]) ++len;
      num = 0;
    } else {
      unsigned long v;
      unsigned base = 10;
      int up = 0;
      if (*f == 'd' || *f == 'i') {
        long x = lng == 2 ? __builtin_va_arg(ap, long) : (long)__builtin_va_arg(ap, int);
        if (lng == -1) x = (short)x;
        if (lng == -2) x = (signed char)x;
        if (x < 0) { sign = '-'; v = 0 - (unsigned long)x; } else { v = (unsigned long)x; sign = plus ? '+' : space ? ' ' : 0; }
      } else if (*f == 'p') { v = (unsigned long)__builtin_va_arg(ap, void*); base = 16; pre = "0x"; }
      else {
        v = lng == 2 ? __builtin_va_arg(ap, unsigned long) : (unsigned long)__builtin_va_arg(ap, unsigned);
        if (lng == -1) v = (unsigned short)v;
        if (lng == -2) v = (unsigned char)v;
        if (*f == 'x' || *f == 'X') { base = 16; up = *f == 'X'; if (alt && v) pre = up ? "0X" : "0x"; }
        else if (*f == 'o') base = 8;
        else if (*f != 'u') abort();
      }
      size_t k = sizeof tmp;
      while (v) { unsigned d = (unsigned)(v % base); tmp[--k] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; }
      while (sizeof tmp - k < (size_t)(prec < 0 ? 1 : prec) && k) tmp[--k] = '0';
      s = tmp + k;
      len = sizeof tmp - k;
    }
    size_t plen = strlen(pre), total = len + (sign ? 1 : 0) + plen;
    int zeros = num && zero && !left && prec < 0;
    if (!left && !zeros) for (size_t i = total; i < width; ++i) PUT(' ');
    if (sign) PUT(sign);
    for (size_t i = 0; i < plen; ++i) PUT(pre[i]);
    if (zeros) for (size_t i = total; i < width; ++i) PUT('0');
    for (size_t i = 0; i < len; ++i) PUT(s[i]);
    if (left) for (size_t i = total; i < width; ++i) PUT(' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* out, size_t cap, const char* f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(out, cap, f, ap); __builtin_va_end(ap); return r; }
int vsprintf(char* out, const char* f, va_list ap) { return vsnprintf(out, ~0UL >> 1, f, ap); }
int sprintf(char* out, const char* f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(out, ~0UL >> 1, f, ap); __builtin_va_end(ap); return r; }
int puts(const char* s) { return 0; }
int putchar(int c) { return c; }
int printf(const char* f, ...) { return 0; }
int fprintf(void* s, const char* f, ...) { return 0; }
int fflush(void* s) { return 0; }
size_t fwrite(const void* p, size_t a, size_t n, void* s) { return n; }
int fputs(const char* s, void* f) { return 0; }
int fputc(int c, void* f) { return c; }
// demangling only feeds diagnostic text: always "not a mangled name"
char* __cxa_demangle(const char* m, char* buf, size_t* len, int* status) { if (status) *status = -2; return (void*)0; }
unsigned long __isoc23_strtoul(const char* s, char** end, int base) { return strtoul(s, end, base); }

long __isoc23_strtol(const char* s, char** end, int base) { return strtol(s, end, base); }
long long __isoc23_strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long long __isoc23_strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
void* memset(void* d, int c, size_t n) { return __builtin_memset(d, c, n); }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void* d, size_t n) { __builtin_memset(d, 0, n); }
void explicit_bzero(void* d, size_t n) { for (size_t i = 0; i < n; ++i) ((volatile unsigned char*)d)[i] = 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n) if (s[--n] == (unsigned char)c) return (void*)(s + n); return ((void*)0); }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t m) { char* e = d + strlen(d); while (m-- && *s) *e++ = *s++; *e = 0; return d; }
size_t strspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; ++n) { const char* q = set; while (*q && *q != s[n]) ++q; if (!*q) break; } return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; ++n) { const char* q = set; while (*q && *q != s[n]) ++q; if (*q) break; } return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : ((void*)0); }
int strcasecmp(const char* a, const char* b) { for (;; ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
long atol(const char* s) { return strtol(s, ((void*)0), 10); }
long long atoll(const char* s) { return strtol(s, ((void*)0), 10); }
long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
static int rt_swap(char* a, char* b, size_t n) { while (n--) { char t = *a; *a++ = *b; *b++ = t; } return 0; }
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  for (size_t i = 1; i < n; ++i) for (size_t j = i; j && cmp((char*)base + (j - 1) * w, (char*)base + j * w) > 0; --j) rt_swap((char*)base + (j - 1) * w, (char*)base + j * w, w);
}
void* bsearch(const void* k, const void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(k, (const char*)base + m * w); if (!c) return (char*)base + m * w; if (c < 0) hi = m; else lo = m + 1; }
  return ((void*)0);
}
int* wmemcpy(int* d, const int* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
int* wmemmove(int* d, const int* s, size_t n) { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else while (n--) d[n] = s[n]; return d; }
int* wmemset(int* d, int c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const int* a, const int* b, size_t n) { for (; n; --n, ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int* wmemchr(const int* s, int c, size_t n) { for (; n; --n, ++s) if (*s == c) return (int*)s; return ((void*)0); }
double floor(double v) { return __builtin_floor(v); }
double ceil(double v) { return __builtin_ceil(v); }
double trunc(double v) { return __builtin_trunc(v); }
double round(double v) { return v < 0 ? -__builtin_floor(-v + 0.5) : __builtin_floor(v + 0.5); }
long lround(double v) { return (long)round(v); }
long long llround(double v) { return (long long)round(v); }
double strtod(const char* s, char** end) {
  const char* b = s;
  while (isspace((unsigned char)*s)) ++s;
  int neg = *s == '-', any = 0;
  if (*s == '-' || *s == '+') ++s;
  double v = 0, f = 1;
  for (; isdigit((unsigned char)*s); ++s, any = 1) v = v * 10 + (*s - '0');
  if (*s == '.') for (++s; isdigit((unsigned char)*s); ++s, any = 1) { f *= 10; v += (*s - '0') / f; }
  if (end) *end = (char*)(any ? s : b);
  return any ? (neg ? -v : v) : 0;
}
char* strerror_r(int e, char* b, size_t n) { return (char*)"error"; }
char* strerror(int e) { return (char*)"error"; }
