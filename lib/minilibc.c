#include "minilibc.h"
#include "sym.h"
#include <stdarg.h>
#define EOF (-1)

MLData ml_data[ML_FILES];
MLFile ml_open[ML_OPEN];
int    ml_exact, ml_fail_open;
#define FILE MLFile
FILE* stdin = &ml_open[0];
FILE* stdout = &ml_open[1];
FILE* stderr = &ml_open[2];
static int ml_ready;
static unsigned char stdio_buf[2][1 << 15];
static unsigned char data_buf[ML_FILES][1 << 12];

/* ---- strings ---- */
void* memcpy(void*, const void*, size_t);
void* memset(void*, int, size_t);
void* memmove(void*, const void*, size_t);
int memcmp(const void* p, const void* q, size_t n)
{
    const unsigned char *a = p, *b = q;
    int r = 0;
    for (size_t i = n; i-- > 0;)
    {
        int d = a[i] - b[i];
        r = d ? d : r;
    }
    return r;
}
int bcmp(const void* p, const void* q, size_t n)
{
    const unsigned char *a = p, *b = q;
    unsigned r = 0;
    for (size_t i = 0; i < n; i++) r |= a[i] ^ b[i];
    return r;
}
size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
size_t strnlen(const char* s, size_t m)
{
    size_t n = 0;
    while (n < m && s[n]) n++;
    return n;
}
char* strcpy(char* d, const char* s)
{
    size_t i = 0;
    do d[i] = s[i]; while (s[i++]);
    return d;
}
char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) a++, b++;
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (; n; n--, a++, b++)
    {
        if (*a != *b) return (unsigned char)*a - (unsigned char)*b;
        if (!*a) return 0;
    }
    return 0;
}
char* strchr(const char* s, int c)
{
    for (;; s++)
    {
        if (*s == (char)c) return (char*)s;
        if (!*s) return 0;
    }
}
void* memchr(const void* p, int c, size_t n)
{
    const unsigned char* s = p;
    for (size_t i = 0; i < n; i++)
        if (s[i] == (unsigned char)c) return (void*)(s + i);
    return 0;
}
int isspace(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != 32); }
int toupper(int c) { return (c >= 'a') & (c <= 'z') ? c - 32 : c; }
int tolower(int c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }

/* ---- files ---- */
static void ml_init(void)
{
    if (ml_ready) return;
    ml_ready = 1;
    ml_data[0].data = data_buf[0]; ml_data[0].cap = sizeof data_buf[0]; ml_data[0].exists = 1;
    ml_data[1].data = stdio_buf[0]; ml_data[1].cap = sizeof stdio_buf[0]; ml_data[1].exists = 1;
    ml_data[2].data = stdio_buf[1]; ml_data[2].cap = sizeof stdio_buf[1]; ml_data[2].exists = 1;
    for (int i = 0; i < 3; i++)
    {
        ml_data[i].name[0] = 1 + i;
        ml_open[i].d = &ml_data[i];
        ml_open[i].open = 1;
        ml_open[i].canread = i == 0;
        ml_open[i].canwrite = i != 0;
    }
}
MLData* ml_stdin(void) { ml_init(); return &ml_data[0]; }
MLData* ml_stdout(void) { ml_init(); return &ml_data[1]; }
MLData* ml_stderr(void) { ml_init(); return &ml_data[2]; }
MLData* ml_find(const char* name, int create)
{
    ml_init();
    for (int i = 3; i < ML_FILES; i++)
        if (ml_data[i].name[0] && !strcmp(ml_data[i].name, name)) return &ml_data[i];
    if (!create) return 0;
    for (int i = 3; i < ML_FILES; i++)
        if (!ml_data[i].name[0])
        {
            strncpy(ml_data[i].name, name, 63);
            ml_data[i].data = data_buf[i];
            ml_data[i].cap = sizeof data_buf[i];
            return &ml_data[i];
        }
    sym_fail("minilibc: too many files");
    return 0;
}
void ml_set(MLData* d, const unsigned char* p, long n)
{
    d->exists = 1;
    d->size = n;
    memcpy(d->data, p, n);
}
static int ml_check(FILE* f)
{
    ml_init();
    if (f < &ml_open[0] || f >= &ml_open[ML_OPEN]) { sym_fail("C library called with an invalid FILE*"); return 0; }
    if (!f->open) { sym_fail("C library called with a closed FILE*"); return 0; }
    return 1;
}
FILE* fopen(const char* name, const char* mode)
{
    ml_init();
    int w = mode[0] == 'w', a = mode[0] == 'a', plus = mode[1] == '+' || (mode[1] && mode[2] == '+');
    if (ml_fail_open && sym_choose(2, "fopen_fails")) return 0;
    if (strchr(name, '/') || !*name || strlen(name) > 255) return 0; /* there are no directories */
    MLData* d = ml_find(name, w || a);
    if (!d || (!d->exists && !w && !a)) return 0;
    d->exists = 1;
    if (w) d->size = 0;
    for (int i = 3; i < ML_OPEN; i++)
        if (!ml_open[i].open)
        {
            FILE* f = &ml_open[i];
            f->d = d; f->pos = 0; f->open = 1; f->eof = f->err = 0; f->ungot = 0;
            f->canread = (!w && !a) || plus;
            f->canwrite = w || a || plus;
            f->append = a;
            if (a) f->pos = d->size;
            return f;
        }
    return 0;
}
int fclose(FILE* f)
{
    if (!ml_check(f)) return -1;
    f->open = 0;
    return 0;
}
int fflush(FILE* f) { return 0; }
int feof(FILE* f) { return ml_check(f) && f->eof; }
int ferror(FILE* f) { return ml_check(f) && f->err; }
void clearerr(FILE* f) { if (ml_check(f)) f->eof = f->err = 0; }
int fileno(FILE* f) { return f - ml_open; }
int isatty(int fd) { return 0; }
int fgetc(FILE* f)
{
    if (!ml_check(f)) return EOF;
    if (!f->canread) { f->err = 1; return EOF; }
    if (f->pos >= f->d->size) { f->eof = 1; return EOF; }
    return f->d->data[f->pos++];
}
int getc(FILE* f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE* f)
{
    if (!ml_check(f) || c == EOF || f->pos == 0) return EOF;
    f->pos--; /* always the character just read */
    f->eof = 0;
    return c;
}
static void ml_putc(FILE* f, unsigned char c)
{
    if (f->append) f->pos = f->d->size;
    if (f->pos >= f->d->cap) { sym_fail("minilibc: output buffer full"); return; }
    while (f->d->size < f->pos) f->d->data[f->d->size++] = 0;
    f->d->data[f->pos++] = c;
    if (f->pos > f->d->size) f->d->size = f->pos;
}
int fputc(int c, FILE* f)
{
    if (!ml_check(f)) return EOF;
    if (!f->canwrite) { f->err = 1; return EOF; }
    ml_putc(f, c);
    return (unsigned char)c;
}
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char* s, FILE* f)
{
    if (!ml_check(f)) return EOF;
    while (*s) if (fputc((unsigned char)*s++, f) == EOF) return EOF;
    return 1;
}
int puts(const char* s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
size_t fwrite(const void* p, size_t sz, size_t n, FILE* f)
{
    if (!ml_check(f)) return 0;
    if (!f->canwrite) { f->err = 1; return 0; }
    const unsigned char* s = p;
    for (size_t i = 0; i < sz * n; i++) ml_putc(f, s[i]);
    return n;
}
size_t fread(void* p, size_t sz, size_t n, FILE* f)
{
    if (!ml_check(f)) return 0;
    if (!f->canread) { f->err = 1; return 0; }
    size_t want = sz * n, got = 0;
    unsigned char* d = p;
    if (!want) return 0;
    if (f->pos < f->d->size)
    {
        got = f->d->size - f->pos;
        if (got > want) got = want;
        memcpy(d, f->d->data + f->pos, got);
        f->pos += got;
    }
    if (got < want) f->eof = 1;
    return got == want ? n : got / sz;
}
int fseek(FILE* f, long off, int whence)
{
    if (!ml_check(f)) return -1;
    if (whence != 0 && whence != 1 && whence != 2) return -1;
    long base = whence == 0 ? 0 : whence == 1 ? f->pos : f->d->size;
    long p = base + off;
    if (p < 0) return -1;
    f->pos = p;
    f->eof = 0;
    return 0;
}
long ftell(FILE* f) { return ml_check(f) ? f->pos : -1; }
void rewind(FILE* f) { fseek(f, 0, 0); }
int remove(const char* n)
{
    MLData* d = ml_find(n, 0);
    if (!d || !d->exists) return -1;
    d->exists = 0;
    return 0;
}

/* ---- printf ---- */
static void emit(struct MLSink* s, int c)
{
    if (s->f) ml_putc(s->f, c);
    else if (s->cap && s->n + 1 < s->cap) s->buf[s->n] = c;
    s->n++;
}
static void emit_n(struct MLSink* s, const void* p, int n)
{
    const unsigned char* q = p;
    for (int i = 0; i < n; i++) emit(s, q[i]);
}
void ml_tok_int(struct MLSink* s, int64_t v, int width)
{
    emit(s, 1); emit(s, 'd');
    emit_n(s, &v, 8); emit_n(s, &width, 4);
}
void ml_tok_real(struct MLSink* s, double v, int conv, int width, int prec)
{
    emit(s, 2); emit(s, conv);
    emit_n(s, &v, 8); emit_n(s, &width, 4); emit_n(s, &prec, 4);
}
static void pad(struct MLSink* s, int n) { while (n-- > 0) emit(s, ' '); }

/* digits of u, symbolic digits introduced by their defining equation */
static int digits_concrete(uint64_t u, char* out)
{
    char t[24];
    int  n = 0;
    do t[n++] = '0' + u % 10, u /= 10; while (u);
    for (int i = 0; i < n; i++) out[i] = t[n - 1 - i];
    return n;
}
static uint64_t digit_bytes(uint64_t v, int n, int neg, char* out)
{
    uint64_t sum = 0;
    for (int i = 0; i < n; i++)
    {
        /* a function of the number: the same number has the same digits */
        char name[10] = "digit..";
        name[5] = (neg ? 'A' : 'a') + n; name[6] = 'a' + i;
        uint64_t d = sym_uf1(name, v) & 15;
        sym_assume((d <= 9) & (i || n == 1 || d != 0));
        out[i] = '0' + d;
        sum = sum * 10 + d;
    }
    return sum;
}
/* two functions, so that the signs stay apart and the defining equation has the form a parser computes */
__attribute__((noinline)) static int digits(uint64_t u, char* out)
{
    if (!sym_is_symbolic(u)) return digits_concrete(u, out);
    uint64_t lim = 10;
    int      n = 1;
    while (n < 20 && u >= lim) { n++; if (n < 20) lim *= 10; }
    uint64_t sum = digit_bytes(u, n, 0, out);
    sym_assume(sum == u);
    return n;
}
__attribute__((noinline)) static int digits_neg(int64_t v, char* out)
{
    if (!sym_is_symbolic(v)) return digits_concrete(-(uint64_t)v, out);
    uint64_t lim = 10;
    int      n = 1;
    while (n < 19 && v <= -(int64_t)lim) { n++; if (n < 19) lim *= 10; }
    uint64_t sum = digit_bytes(v, n, 1, out);
    sym_assume(-sum == (uint64_t)v);
    return n;
}

static int ml_vprintf(struct MLSink* s, const char* fmt, va_list ap)
{
    for (; *fmt; fmt++)
    {
        if (*fmt != '%') { emit(s, *fmt); continue; }
        fmt++;
        int space = 0, zero = 0, left = 0, plus = 0;
        for (;; fmt++)
        {
            if (*fmt == ' ') space = 1;
            else if (*fmt == '0') zero = 1;
            else if (*fmt == '-') left = 1;
            else if (*fmt == '+') plus = 1;
            else break;
        }
        int width = 0, prec = -1, lng = 0;
        if (*fmt == '*') { width = va_arg(ap, int); fmt++; }
        else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + *fmt++ - '0';
        if (*fmt == '.')
        {
            fmt++; prec = 0;
            if (*fmt == '*') { prec = va_arg(ap, int); fmt++; }
            else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + *fmt++ - '0';
        }
        while (*fmt == 'l' || *fmt == 'j' || *fmt == 'z' || *fmt == 'h')
        {
            if (*fmt == 'l') lng += sizeof(long) == 8 ? 2 : 1;
            if (*fmt == 'j') lng = 2;
            if (*fmt == 'z') lng = sizeof(size_t) == 8 ? 2 : 0;
            fmt++;
        }
        switch (*fmt)
        {
        case '%': emit(s, '%'); break;
        case 'c':
        {
            int c = va_arg(ap, int);
            if (!left) pad(s, width - 1);
            emit(s, c);
            if (left) pad(s, width - 1);
            break;
        }
        case 's':
        {
            const char* p = va_arg(ap, const char*);
            int n = prec >= 0 ? (int)strnlen(p, prec) : (int)strlen(p);
            int w = width;
            if (w < 0) { left = 1; w = -w; }
            if (!left) pad(s, w - n);
            emit_n(s, p, n);
            if (left) pad(s, w - n);
            break;
        }
        case 'd': case 'i': case 'u': case 'x':
        {
            int64_t v = lng >= 2 ? va_arg(ap, int64_t) : *fmt == 'u' || *fmt == 'x' ? (int64_t)va_arg(ap, unsigned) : va_arg(ap, int);
            if (!ml_exact || *fmt == 'x') /* a token: no digits */
            {
                ml_tok_int(s, v, width);
                break;
            }
            char b[24];
            int  neg = *fmt != 'u' && v < 0;
            int  n = neg ? digits_neg(v, b) : digits(v, b);
            int  w = width;
            if (w < 0) { left = 1; w = -w; }
            if (!left && !zero) pad(s, w - n - neg);
            if (neg) emit(s, '-');
            if (!left && zero) for (int k = w - n - neg; k > 0; k--) emit(s, '0');
            emit_n(s, b, n);
            if (left) pad(s, w - n - neg);
            break;
        }
        case 'f': case 'E': case 'e': case 'g': case 'G': case 'F':
        {
            union { double d; uint64_t u; } x;
            x.d = va_arg(ap, double);
            static char text[2100];
            char conv[3] = { *fmt, 0, 0 };
            if (space) { conv[0] = ' '; conv[1] = *fmt; }
            int n = ml_exact ? sym_fmt_double(text, conv, width, prec, x.u) : 0;
            if (n > 0) { emit_n(s, text, n); break; }
            ml_tok_real(s, x.d, *fmt + (space ? 128 : 0), width, prec);
            break;
        }
        case 'p': { void* p = va_arg(ap, void*); ml_tok_int(s, (intptr_t)p, width); break; }
        default: sym_fail("minilibc: unsupported printf conversion"); return -1;
        }
    }
    return s->n;
}
int vfprintf(FILE* f, const char* fmt, va_list ap)
{
    if (!ml_check(f)) return -1;
    if (!f->canwrite) { f->err = 1; return -1; }
    struct MLSink s = { f, 0, 0, 0 };
    return ml_vprintf(&s, fmt, ap);
}
int fprintf(FILE* f, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int ml_printf(struct MLSink* s, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = ml_vprintf(s, fmt, ap);
    va_end(ap);
    return r;
}
int printf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
/* text in memory is used for something else than output: always characters, no tokens */
int vsnprintf(char* b, size_t n, const char* fmt, va_list ap)
{
    struct MLSink s = { 0, b, n, 0 };
    int ex = ml_exact;
    ml_exact = 1;
    int r = ml_vprintf(&s, fmt, ap);
    ml_exact = ex;
    if (n) b[s.n < n ? s.n : n - 1] = 0;
    return r;
}
int snprintf(char* b, size_t n, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vsnprintf(b, n, fmt, ap);
    va_end(ap);
    return r;
}
int sprintf(char* b, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vsnprintf(b, (size_t)1 << 30, fmt, ap);
    va_end(ap);
    return r;
}

/* ---- conversion ---- */
static int ml_errno;
int* __errno_location(void) { return &ml_errno; }
static uint64_t ml_strtoull(const char* s, char** end, int base, int sgn, uint64_t poslim, uint64_t neglim)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    int neg = 0, any = 0, over = 0;
    if (*p == '-') { neg = 1; p++; }
    else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    uint64_t v = 0, lim = sgn ? (neg ? neglim : poslim) : ~(uint64_t)0;
    int nd = 0;
    for (;; p++)
    {
        unsigned char c = *p;
        int d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        any = 1;
        nd++;
        /* up to 17 digits cannot overflow 64 bits in any base <= 10 (15 in base 16) */
        if (nd > 15 && (over || v > (lim - d) / base)) over = 1;
        else v = v * base + d;
    }
    if (nd <= 15 && v > lim) over = 1;
    if (end) *end = (char*)(any ? p : s);
    if (over) { ml_errno = 34; return sgn ? (neg ? -neglim : poslim) : ~(uint64_t)0; }
    return neg ? -v : v;
}
long strtol(const char* s, char** e, int b)
{
    if (sizeof(long) == 8) return ml_strtoull(s, e, b, 1, INT64_MAX, (uint64_t)1 << 63);
    return ml_strtoull(s, e, b, 1, INT32_MAX, (uint64_t)1 << 31);
}
long long strtoll(const char* s, char** e, int b) { return ml_strtoull(s, e, b, 1, INT64_MAX, (uint64_t)1 << 63); }
unsigned long long strtoull(const char* s, char** e, int b) { return ml_strtoull(s, e, b, 0, 0, 0); }
unsigned long strtoul(const char* s, char** e, int b) { return ml_strtoull(s, e, b, 0, 0, 0); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
double strtod(const char* s, char** e)
{
    char* stop = 0;
    /* numbers of up to 15 digits with small exponents: one exact operation (Clinger) */
    {
        static const double p10[] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22 };
        const char* p = s;
        while (isspace((unsigned char)*p)) p++;
        int neg = *p == '-', any = 0, nd = 0, ex = 0;
        uint64_t w = 0;
        if (*p == '-' || *p == '+') p++;
        for (; *p >= '0' && *p <= '9'; p++) { any = 1; w = w * 10 + (*p - '0'); nd += nd || *p != '0'; }
        if (*p == '.')
            for (p++; *p >= '0' && *p <= '9'; p++) { any = 1; w = w * 10 + (*p - '0'); ex--; nd += nd || *p != '0'; }
        if (any && (*p == 'e' || *p == 'E') && ((p[1] >= '0' && p[1] <= '9') || ((p[1] == '-' || p[1] == '+') && p[2] >= '0' && p[2] <= '9')))
        {
            int en = p[1] == '-', v = 0;
            p += p[1] == '-' || p[1] == '+' ? 2 : 1;
            for (; *p >= '0' && *p <= '9' && v < 10000; p++) v = v * 10 + (*p - '0');
            ex += en ? -v : v;
        }
        int word = any ? !w && (*p == 'x' || *p == 'X') : *p == 'i' || *p == 'I' || *p == 'n' || *p == 'N'; /* inf, nan, 0x: left to the solver's unknown function */
        if (!word && nd <= 15 && ex >= -22 && ex <= 22)
        {
            double d = (double)(int64_t)w;
            if (ex < 0) d /= p10[-ex];
            else if (ex > 0) d *= p10[ex];
            if (e) *e = (char*)(any ? p : s);
            return neg && any ? -d : any ? d : 0.0;
        }
        if (any && !word) stop = (char*)p;
    }
    size_t n = strlen(s);
    union { uint64_t u; double d; } x;
    x.u = sym_uf_bytes("strtod", s, n);
    if (e) *e = stop ? stop : (char*)s + n;
    return x.d;
}

/* ---- time, environment ---- */
int64_t ml_time_value = 1000000000;
long time(long* t) { long v = (long)ml_time_value; if (t) *t = v; return v; }
long clock(void) { return 12345; }
char* getenv(const char* n) { return 0; }
struct ml_tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long off; const char* z; };
struct ml_tm ml_tm_value = { 1, 2, 3, 4, 5, 100 };
struct ml_tm* localtime(const long* t) { return &ml_tm_value; }
double modf(double x, double* ip)
{
    double t = __builtin_trunc(x);
    *ip = t;
    return __builtin_isinf(x) ? __builtin_copysign(0.0, x) : __builtin_copysign(x - t, x);
}
