/* Native replay: values come from the counterexample file named by SYM_CEX. */
#include "sym.h"
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE* cex;
static int   opened;
static unsigned char rec[1 << 16];
static long  recn;
static char  recname[64];
static void next_rec(const char* name)
{
    if (!opened)
    {
        opened = 1;
        const char* p = getenv("SYM_CEX");
        if (p) cex = fopen(p, "r");
    }
    recn = 0;
    memset(rec, 0, sizeof rec);
    if (!cex) return;
    static char line[1 << 18];
    while (fgets(line, sizeof line, cex))
    {
        char* nm = strtok(line, " \n");
        if (!nm || nm[0] == '~' || nm[0] == '#') continue;
        if (name && strcmp(nm, name)) { fprintf(stderr, "SYM: expected input %s, file has %s\n", name, nm); }
        snprintf(recname, sizeof recname, "%s", nm);
        char* n = strtok(0, " \n");
        char* h = strtok(0, " \n");
        recn = n ? atol(n) : 0;
        for (long i = 0; i < recn && h && h[2 * i]; i++)
        {
            unsigned x;
            sscanf(h + 2 * i, "%2x", &x);
            rec[i] = x;
        }
        return;
    }
}
uint64_t sym_val(int bits, const char* name)
{
    if (name[0] == '~') return 0;
    uint64_t v = 0;
    next_rec(name);
    memcpy(&v, rec, (bits + 7) / 8);
    if (bits < 64) v &= ((uint64_t)1 << bits) - 1;
    return v;
}
uint64_t sym_next_any(int bits)
{
    uint64_t v = 0;
    next_rec(0);
    memcpy(&v, rec, 8);
    if (!strcmp(recname, "s8")) v = (uint64_t)(int64_t)(int8_t)v;
    if (!strcmp(recname, "s16")) v = (uint64_t)(int64_t)(int16_t)v;
    if (bits < 64) v &= ((uint64_t)1 << bits) - 1;
    return v;
}
void sym_bytes(void* p, size_t n, const char* name) { next_rec(name); memcpy(p, rec, n); }
int sym_choose(int n, const char* name) { uint32_t v = 0; next_rec(name); memcpy(&v, rec, 4); return v < (uint32_t)n ? (int)v : 0; }
void sym_assume(int c) { if (!c) { fprintf(stderr, "SYM: assumption does not hold in the replay\n"); fflush(0); _Exit(77); } }
void sym_assert(int c, const char* msg) { if (!c) { printf("ASSERTION VIOLATED: %s\n", msg); fflush(0); _Exit(99); } }
void sym_fail(const char* msg) { sym_assert(0, msg); }
void sym_assert_mem(const void* p, const void* q, size_t n, const char* msg) { sym_assert(!memcmp(p, q, n), msg); }
void sym_cover(const char* m) {}
void sym_note(const char* n, uint64_t v) { fprintf(stderr, "NOTE %s = %lld\n", n, (long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t v) { return 0; }
int sym_native(void) { return 1; }
void sym_end(void) { fflush(0); _Exit(0); }
static jmp_buf tryBuf[8];
static int     tryDepth;
static volatile int exitCode;
int sym_try(void (*fn)(void*), void* arg)
{
    int d = tryDepth++;
    if (setjmp(tryBuf[d])) { tryDepth = d; return exitCode; }
    fn(arg);
    tryDepth = d;
    return -1;
}
void sym_exit_hook(int code) /* harness builds use -Dexit=sym_exit_hook */
{
    if (tryDepth) { exitCode = code & 255; longjmp(tryBuf[tryDepth - 1], 1); }
    fflush(0);
    _Exit(code);
}
size_t sym_objsize(void* p) { return (size_t)-1; }
uint64_t sym_uf1(const char* n, uint64_t a) { return a; }
uint64_t sym_uf_bytes(const char* n, const void* p, size_t k)
{
    char b[512];
    union { double d; uint64_t u; } x;
    if (k > 511) k = 511;
    memcpy(b, p, k);
    b[k] = 0;
    x.d = strtod(b, 0);
    return x.u;
}
int sym_fmt_double(char* buf, const char* conv, int width, int prec, uint64_t bits) { return 0; }
void sym_print(const char* n, uint64_t v) { fprintf(stderr, "%s %llu\n", n, (unsigned long long)v); }
