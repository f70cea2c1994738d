/* In-memory C library used when the runtime is executed symbolically. */
#pragma once
#include <stddef.h>
#include <stdint.h>
enum { ML_FILES = 12, ML_OPEN = 24 };
typedef struct { char name[64]; unsigned char* data; long size, cap; int exists; } MLData;
typedef struct { MLData* d; long pos; int open, canread, canwrite, append, eof, err; int ungot; } MLFile;
extern MLData ml_data[ML_FILES];
extern MLFile ml_open[ML_OPEN];
extern int ml_exact;          /* 1: print integers digit by digit, 0: as tokens */
extern int ml_fail_open;      /* 1: fopen may fail nondeterministically */
MLData* ml_find(const char* name, int create);
void    ml_set(MLData* d, const unsigned char* p, long n);  /* contents */
MLData* ml_stdout(void);
MLData* ml_stdin(void);
MLData* ml_stderr(void);
/* the abstract printf machinery, also used by oracles */
struct MLSink { MLFile* f; char* buf; size_t cap; size_t n; };
int  ml_printf(struct MLSink* s, const char* fmt, ...);
void ml_tok_int(struct MLSink* s, int64_t v, int width);
void ml_tok_real(struct MLSink* s, double v, int conv, int width, int prec);
