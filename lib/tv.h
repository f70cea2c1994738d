/* Oracle side of translation validation: a C statement of what a Pascal program must do.
 * in_*  : the k-th value the program obtains with read (same value for the program and the oracle)
 * o_*   : the text the program must write, o_exit: the exit status it must end with */
#pragma once
#include "sym.h"
#include <stdint.h>
#include <string.h>
#ifndef TV_CR
#define TV_CR 0
#endif
#ifndef TV_M32
#define TV_M32 0
#endif
int32_t in_i32(void);
int64_t in_i64(void);
double  in_f64(void);
uint8_t in_chr(void);
int     in_bool(void);
int     in_str(unsigned char* buf, int maxlen); /* returns the length, forks on it */
int32_t in_range(int32_t lo, int32_t hi);       /* in_i32 with lo <= v <= hi assumed */
/* a range that fits 8 or 16 bits is introduced by a symbol of that width: the terms stay small */
static inline int32_t tv_range_sym(int32_t lo, int32_t hi)
{
    int32_t v;
    if (lo >= 0 && hi <= 255) v = (int32_t)(uint8_t)sym_val(8, "u8");
    else if (lo >= -128 && hi <= 127) v = (int32_t)(int8_t)sym_val(8, "s8");
    else if (lo >= 0 && hi <= 65535) v = (int32_t)(uint16_t)sym_val(16, "u16");
    else if (lo >= -32768 && hi <= 32767) v = (int32_t)(int16_t)sym_val(16, "s16");
    else v = (int32_t)sym_val(32, "i32");
    sym_assume((v >= lo) & (v <= hi));
    return v;
}
int64_t in_range64(int64_t lo, int64_t hi);
/* raw programs (-DTV_RAW): the real read routines run on what is put on the standard input here */
void in_text(unsigned char* buf, int n);        /* n arbitrary bytes, also stored in buf */
void in_textc(const char* s);
void in_mem(const void* p, int n);
int32_t in_pick(int32_t lo, int32_t hi);        /* forks: every path has a concrete value */
void o_int(int64_t v, int width);
void o_real(double v, int width, int prec);     /* width 0, prec -1: default format */
void o_chr(int c);
void o_chrw(int c, int width);
void o_mem(const void* p, int n);
void o_txt(const char* s);
void o_strw(const void* p, int n, int width);   /* Pascal field semantics for strings */
void o_bool(int b, int width);
void o_nl(void);
void o_exit(int code);
void o_file(const char* name);                  /* what follows is the contents of that file; 0: standard output */
void oracle(void);
#define I(v) o_int((v), 0)
#define IL(v) (o_int((v), 0), o_nl())
#define BL(v) (o_bool((v), 0), o_nl())
#define RL(v) (o_real((v), 0, -1), o_nl())
#define ASSUME(c) sym_assume(!!(c))
#define SP o_chr(' ')
#define NL o_nl()
/* an index or subrange condition: range error under -Cr, outside the property otherwise */
#define RANGE(c) do { if (TV_CR) { if (!(c)) o_exit(12); } else sym_assume(!!(c)); } while (0)
typedef int32_t i32; typedef int64_t i64; typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;
static inline i32 wadd(i32 a, i32 b) { return (i32)((u32)a + (u32)b); }
static inline i32 wsub(i32 a, i32 b) { return (i32)((u32)a - (u32)b); }
static inline i32 wmul(i32 a, i32 b) { return (i32)((u32)a * (u32)b); }
static inline i32 wneg(i32 a) { return (i32)(0u - (u32)a); }
static inline i64 wadd64(i64 a, i64 b) { return (i64)((u64)a + (u64)b); }
static inline i64 wsub64(i64 a, i64 b) { return (i64)((u64)a - (u64)b); }
static inline i64 wmul64(i64 a, i64 b) { return (i64)((u64)a * (u64)b); }
static inline i64 wneg64(i64 a) { return (i64)(0ull - (u64)a); }
static inline i32 idiv(i32 a, i32 b) { sym_assume((b != 0) & !((a == INT32_MIN) & (b == -1))); return a / b; }
static inline i32 imod(i32 a, i32 b) { sym_assume((b != 0) & !((a == INT32_MIN) & (b == -1))); return a % b; }
static inline i64 idiv64(i64 a, i64 b) { sym_assume((b != 0) & !((a == INT64_MIN) & (b == -1))); return a / b; }
static inline i64 imod64(i64 a, i64 b) { sym_assume((b != 0) & !((a == INT64_MIN) & (b == -1))); return a % b; }
static inline i32 ishl(i32 a, i32 b) { sym_assume((b >= 0) & (b < 32)); return (i32)((u32)a << b); }
static inline i32 ishr(i32 a, i32 b) { sym_assume((b >= 0) & (b < 32)); return (i32)((u32)a >> b); }
static inline i64 ishl64(i64 a, i64 b) { sym_assume((b >= 0) & (b < 64)); return (i64)((u64)a << b); }
static inline i64 ishr64(i64 a, i64 b) { sym_assume((b >= 0) & (b < 64)); return (i64)((u64)a >> b); }
