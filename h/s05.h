// S05: values posted from C and from C++.
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

struct s05_vals {
	bool b; char c; signed char sc; unsigned char uc; short s; unsigned short us; int i; unsigned u; long l; unsigned long ul; long long ll; unsigned long long ull; float f; double d;
	void *p; const void *cp; int *ip; const int *cip; volatile int *vp; unsigned char *ucp;
	int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; size_t sz;
	const char *cs; char *ms; char arr[24]; const char *nul; unsigned char uarr[24];
	const int ci; const unsigned cu; const double cd; const long long cll;
	unsigned n; const char *fmt;
};
struct s05_opts { unsigned features, poll, tso; void *mask; int policy, prio; const char *aff; unsigned perms; size_t max_size; unsigned max_count, buffer; unsigned cap, rprio, tail; };
#ifdef __cplusplus
extern "C" {
#endif
unsigned s05_post_c(void *area, unsigned sect, struct s05_vals *v, unsigned which);
unsigned s05_post_cpp(void *area, unsigned sect, struct s05_vals *v, unsigned which);
unsigned s05_post_macro(void *area, unsigned sect, struct s05_vals *v, unsigned which);
void s05_activate(void *out, const struct s05_opts *o);
void *s05_file(const char *name, void *fmt, const struct s05_opts *o);
void *s05_tls(const char *name, const struct s05_opts *o);
void *s05_mask(unsigned n, const char **s);
#ifdef __cplusplus
}
#endif
#ifndef S05_NOCODE
static inline unsigned next(unsigned *c) { return (*c)++; }
static inline void *pick_(void *a, unsigned *c) { (*c)++; return a; }
#endif
