/* Interface between harnesses and the symbolic executor (engine/).  In a native replay build the same
 * functions are provided by sym_native.c, which takes the values from the counterexample file. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_val(int bits, const char* name);              /* fresh unconstrained value, zero extended */
void     sym_bytes(void* p, size_t n, const char* name);   /* fill with fresh bytes */
int      sym_choose(int n, const char* name);              /* forks: 0..n-1 */
void     sym_assume(int c);
void     sym_assert(int c, const char* msg);
void     sym_fail(const char* msg);
void     sym_assert_mem(const void* p, const void* q, size_t n, const char* msg);
void     sym_cover(const char* msg);
void     sym_note(const char* name, uint64_t v);
uint64_t sym_concretize(uint64_t v);
int      sym_is_symbolic(uint64_t v);
int      sym_native(void);
void     sym_end(void);
int      sym_try(void (*fn)(void*), void* arg);            /* -1 on return, else exit status */
size_t   sym_objsize(void* p);
uint64_t sym_uf1(const char* name, uint64_t a);
uint64_t sym_uf_bytes(const char* name, const void* p, size_t n);
int      sym_fmt_double(char* buf, const char* conv, int width, int prec, uint64_t bits);
void     sym_print(const char* name, uint64_t v);
#ifdef __cplusplus
}
#endif
