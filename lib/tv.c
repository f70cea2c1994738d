#include "minilibc.h"
#include "tv.h"
int sprintf(char*, const char*, ...);
typedef struct File { int handle; char* buffer; int recordSize; int isText; } File;
typedef struct { unsigned char len; unsigned char str[256]; } String;
enum { MAXIN = 256 };
enum { K_I32 = 1, K_I64, K_F64, K_CHR, K_BOOL, K_STR };
static int      in_n, prog_k, in_kind[MAXIN];
static uint64_t in_bits[MAXIN];
static unsigned char in_strs[24][256];
static int      in_strn;

#ifndef TV_RAW
static uint64_t add(int kind, uint64_t v)
{
    in_kind[in_n] = kind;
    in_bits[in_n++] = v;
    return v;
}
#endif
#ifndef TV_RAW
int32_t in_i32(void) { return add(K_I32, sym_val(32, "i32")); }
int64_t in_i64(void) { return add(K_I64, sym_val(64, "i64")); }
uint8_t in_chr(void) { return add(K_CHR, sym_val(8, "chr")); }
int in_bool(void)
{
    uint64_t b = sym_val(8, "bool");
    sym_assume(b <= 1);
    return add(K_BOOL, b);
}
double in_f64(void)
{
    union { uint64_t u; double d; } x;
    x.u = add(K_F64, sym_val(64, "f64"));
    return x.d;
}
int in_str(unsigned char* buf, int maxlen)
{
    int n = sym_choose(maxlen + 1, "len");
    add(K_STR, in_strn);
    in_strs[in_strn][0] = n;
    sym_bytes(&in_strs[in_strn][1], n, "str");
    memcpy(buf, &in_strs[in_strn][1], n);
    in_strn++;
    return n;
}
int32_t in_range(int32_t lo, int32_t hi) { return add(K_I32, (uint32_t)tv_range_sym(lo, hi)); }
int64_t in_range64(int64_t lo, int64_t hi) { int64_t v = in_i64(); sym_assume((v >= lo) & (v <= hi)); return v; }
int32_t in_pick(int32_t lo, int32_t hi)
{
    int32_t v = tv_range_sym(lo, hi);
    volatile int32_t k = lo; /* or else the compiler replaces k by v */
    while (k < hi && v != k) k++;
    add(K_I32, (uint32_t)k);
    return k;
}

#else
static void put_in(int c)
{
    MLData* d = ml_stdin();
    if (d->size >= d->cap) { sym_fail("too much input for the model"); sym_end(); }
    d->data[d->size++] = c;
}
void in_mem(const void* p, int n) { for (int i = 0; i < n; i++) put_in(((const unsigned char*)p)[i]); }
void in_text(unsigned char* b, int n) { sym_bytes(b, n, "text"); in_mem(b, n); }
void in_textc(const char* s) { while (*s) put_in((unsigned char)*s++); }
uint8_t in_chr(void) { uint8_t c = sym_val(8, "chr"); put_in(c); return c; }
int32_t in_pick(int32_t lo, int32_t hi)
{
    int32_t v = tv_range_sym(lo, hi);
    volatile int32_t k = lo; /* or else the compiler replaces k by v */
    while (k < hi && v != k) k++;
    char b[16];
    sprintf(b, "%d\n", k);
    in_textc(b);
    return k;
}
#endif

/* ---- output of the oracle ---- */
static unsigned char ora_buf[1 << 14];
static MLData ora_data = { "", ora_buf, 0, sizeof ora_buf, 1 };
static MLFile ora_file = { &ora_data, 0, 1, 0, 1, 0, 0, 0, 0 };
int fprintf(MLFile*, const char*, ...);
static MLFile* cur = &ora_file;
enum { OFILES = 4 };
static struct { const char* name; MLData d; MLFile f; } ofile[OFILES];
static unsigned char ofile_buf[OFILES][1 << 12];
void o_file(const char* name)
{
    cur = &ora_file;
    for (int i = 0; name && i < OFILES; i++)
    {
        if (!ofile[i].name)
        {
            ofile[i].name = name;
            ofile[i].d.data = ofile_buf[i];
            ofile[i].d.cap = sizeof ofile_buf[i];
            ofile[i].f.d = &ofile[i].d;
            ofile[i].f.open = ofile[i].f.canwrite = 1;
        }
        if (!strcmp(ofile[i].name, name)) { cur = &ofile[i].f; break; }
    }
}
static struct MLSink osink(void) { struct MLSink s = { cur, 0, 0, 0 }; return s; }
void o_raw(int c) { MLData* d = cur->d; d->data[d->size++] = c; cur->pos = d->size; }
void o_int(int64_t v, int w)
{
    if (ml_exact) { struct MLSink s = osink(); ml_printf(&s, sizeof(long) == 8 ? "%*ld" : "%*lld", w, v); return; }
    struct MLSink s = osink(); ml_tok_int(&s, v, w);
}
void o_real(double v, int width, int prec)
{
    struct MLSink s = osink();
    if (prec == -1)
    {
        if (width == 0) width = 13;
        prec = width > 8 ? width - 7 : 1;
        if (ml_exact) ml_printf(&s, "% *.*E", width, prec, v);
        else ml_tok_real(&s, v, 'E' + 128, width, prec);
    }
    else if (ml_exact)
        ml_printf(&s, "%*.*f", width, prec, v);
    else
        ml_tok_real(&s, v, 'f', width, prec);
}
void o_chr(int c) { o_raw((unsigned char)c); }
void o_chrw(int c, int w) { while (w-- > 1) o_raw(' '); o_raw((unsigned char)c); }
void o_mem(const void* p, int n) { for (int i = 0; i < n; i++) o_raw(((const unsigned char*)p)[i]); }
void o_txt(const char* s) { while (*s) o_raw((unsigned char)*s++); }
void o_strw(const void* p, int n, int w)
{
    if (w > 0) { for (int k = w - n; k > 0; k--) o_raw(' '); if (n > w) n = w; }
    o_mem(p, n);
}
void o_bool(int b, int w)
{
    if (b) { while (w-- > 4) o_raw(' '); o_txt("TRUE"); }
    else { while (w-- > 5) o_raw(' '); o_txt("FALSE"); }
}
void o_nl(void) { o_raw('\n'); }
void exit(int);
void o_exit(int c) { exit(c); }

#ifndef TV_RAW
/* ---- input of the program ---- */
static int next(int kind)
{
    if (prog_k >= in_n) { sym_fail("the program reads more values than it should"); sym_end(); }
    if (in_kind[prog_k] != kind) { sym_fail("the program reads a value of another type than declared"); sym_end(); }
    return prog_k++;
}
void __read_int32(File* f, int* v) { *v = (int)in_bits[next(K_I32)]; }
void __read_int64(File* f, int64_t* v) { *v = (int64_t)in_bits[next(K_I64)]; }
void __read_chr(File* f, char* v) { *v = (char)in_bits[next(K_CHR)]; }
void __read_bool(File* f, unsigned char* v) { *v = (int)in_bits[next(K_BOOL)]; }
void __read_real(File* f, double* v)
{
    union { uint64_t u; double d; } x;
    x.u = in_bits[next(K_F64)];
    *v = x.d;
}
void __read_str(File* f, String* v, int capacity)
{
    unsigned char* s = in_strs[in_bits[next(K_STR)]];
    v->len = s[0];
    memcpy(v->str, s + 1, s[0]);
}
void __read_nl(File* f) {}

#endif

int pascal_rt_main(int, char**);
static void run_oracle(void* a) { oracle(); }
static void run_program(void* a)
{
    static char* argv[2] = { "program", 0 };
    pascal_rt_main(1, argv);
}
static void cmp_out(int line, unsigned char* a, unsigned char* b, long n)
{
    char m[32] = "output differs in line ";
    int  k = 23;
    if (line > 999) m[k++] = '0' + line / 1000 % 10;
    if (line > 99) m[k++] = '0' + line / 100 % 10;
    if (line > 9) m[k++] = '0' + line / 10 % 10;
    m[k++] = '0' + line % 10;
    m[k] = 0;
    sym_assert_mem(a, b, n, m);
}
static void compare(MLData* ora, MLData* so)
{
    long n = so->size < ora->size ? so->size : ora->size, st = 0;
    int  line = 1;
    for (long i = 0; i < n;)
    {
        /* tokens start with a control byte and have a fixed size */
        unsigned char c = ora->data[i];
        long len = 1;
        int  sy = sym_is_symbolic(c);
        if (!sy && c == 1) len = 14;
        else if (!sy && c == 2) len = 18;
        if (i + len > n) len = n - i;
        i += len;
        if ((!sy && c == '\n') || i >= n)
        {
            cmp_out(line, ora->data + st, so->data + st, i - st);
            st = i;
            line++;
        }
    }
}
int main(void)
{
    int oe = sym_try(run_oracle, 0);
    int pe = sym_try(run_program, 0);
    sym_assert(oe == pe, "exit status differs");
    MLData* so = ml_stdout();
    compare(&ora_data, so);
    sym_assert(so->size == ora_data.size, "output has another length");
    for (int i = 0; i < OFILES && ofile[i].name; i++)
    {
        MLData* d = ml_find(ofile[i].name, 0);
        sym_assert(d && d->exists, "a file is missing");
        if (!d) continue;
        compare(&ofile[i].d, d);
        sym_assert(d->size == ofile[i].d.size, "a file has another length");
    }
    sym_cover(oe == -1 ? "ran to the end" : "ended early");
    return 0;
}
