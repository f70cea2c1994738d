/* Native side of translation validation replays.
 * -DTV_ORACLE: prints what the oracle expects.  Otherwise: the program's read routines, fed from SYM_CEX. */
#include <stdio.h>
#include <stdlib.h>
#include "tv.h"
static uint64_t val(int bits, const char* n) { return sym_val(bits, n); }
#ifdef TV_ORACLE
#ifdef TV_RAW
static FILE* in;
static void put_in(int c) { if (!in) in = fopen("stdin.bin", "w"); fputc(c, in); }
void in_mem(const void* p, int n) { for (int i = 0; i < n; i++) put_in(((const unsigned char*)p)[i]); }
void in_text(unsigned char* b, int n) { sym_bytes(b, n, "text"); in_mem(b, n); }
void in_textc(const char* s) { while (*s) put_in((unsigned char)*s++); }
uint8_t in_chr(void) { int c = val(8, "chr"); put_in(c); return c; }
int32_t in_pick(int32_t lo, int32_t hi) { int k = tv_range_sym(lo, hi); char b[16]; sprintf(b, "%d\n", k); in_textc(b); return k; }
#else
int32_t in_i32(void) { return val(32, "i32"); }
int64_t in_i64(void) { return val(64, "i64"); }
uint8_t in_chr(void) { return val(8, "chr"); }
int in_bool(void) { return val(8, "bool"); }
double in_f64(void) { union { uint64_t u; double d; } x; x.u = val(64, "f64"); return x.d; }
int in_str(unsigned char* b, int m) { int n = sym_choose(m + 1, "len"); sym_bytes(b, n, "str"); return n; }
int32_t in_range(int32_t lo, int32_t hi) { return tv_range_sym(lo, hi); }
int64_t in_range64(int64_t lo, int64_t hi) { int64_t v = in_i64(); sym_assume((v >= lo) & (v <= hi)); return v; }
int32_t in_pick(int32_t lo, int32_t hi) { return tv_range_sym(lo, hi); }
#endif
int ml_exact;
static FILE* out;
static FILE* cur(void) { return out ? out : stdout; }
static int fputc_(int c) { return fputc(c, cur()); }
void o_file(const char* name) { if (out) fclose(out); out = name ? fopen(name, "a") : 0; }

void o_int(int64_t v, int w) { fprintf(cur(), "%*lld", w, (long long)v); }
void o_real(double v, int width, int prec)
{
    if (prec == -1)
    {
        if (width == 0) width = 13;
        prec = width > 8 ? width - 7 : 1;
        fprintf(cur(), "% *.*E", width, prec, v);
    }
    else
        fprintf(cur(), "%*.*f", width, prec, v);
}
void o_chr(int c) { fputc_(c & 255); }
void o_chrw(int c, int w) { while (w-- > 1) fputc_(' '); fputc_(c & 255); }
void o_mem(const void* p, int n) { fwrite(p, 1, n, cur()); }
void o_txt(const char* s) { fputs(s, cur()); }
void o_strw(const void* p, int n, int w)
{
    if (w > 0) { for (int k = w - n; k > 0; k--) fputc_(' '); if (n > w) n = w; }
    o_mem(p, n);
}
void o_bool(int b, int w) { fprintf(cur(), "%*s", w, b ? "TRUE" : "FALSE"); }
void o_nl(void) { fputc_('\n'); }
void o_exit(int c) { fflush(0); exit(c); }
int main(void) { oracle(); fflush(0); return 0; }
#else
typedef struct { unsigned char len; unsigned char str[256]; } String;
/* the k-th read takes the k-th recorded value, whatever it was called when it was introduced */
static uint64_t any(int bits)
{
    extern uint64_t sym_next_any(int bits);
    return sym_next_any(bits);
}
void __read_int32(void* f, int* v) { *v = (int)any(32); }
void __read_int64(void* f, int64_t* v) { *v = (int64_t)any(64); }
void __read_chr(void* f, char* v) { *v = (char)any(8); }
void __read_bool(void* f, unsigned char* v) { *v = (int)any(8); }
void __read_real(void* f, double* v) { union { uint64_t u; double d; } x; x.u = any(64); *v = x.d; }
void __read_str(void* f, String* v, int capacity)
{
    unsigned char b[512];
    int n = sym_choose(256, "len");
    sym_bytes(b, n, "str");
    v->len = n;
    memcpy(v->str, b, n);
}
void __read_nl(void* f) {}
#endif
