// Offline stand-in: miniz's zlib-compatible one-shot API expressed with the system zlib.
#pragma once
#include <zlib.h>
typedef unsigned long mz_ulong;
enum { MZ_OK = 0, MZ_BUF_ERROR = -5, MZ_DATA_ERROR = -3 };
static inline int mz_uncompress(unsigned char* d, mz_ulong* dl, unsigned char const* s, mz_ulong sl) { return uncompress(d, dl, s, sl); }
static inline int mz_compress(unsigned char* d, mz_ulong* dl, unsigned char const* s, mz_ulong sl) { return compress(d, dl, s, sl); }
static inline int mz_compress2(unsigned char* d, mz_ulong* dl, unsigned char const* s, mz_ulong sl, int l) { return compress2(d, dl, s, sl, l); }
static inline mz_ulong mz_compressBound(mz_ulong n) { return compressBound(n); }
