// C++ side of S05: the posting macro of the C header in C++.
#include <hogl/c-api/area.h>
#include <hogl/c-api/post.h>
#include "s05.h"
#define _BOOL bool
static inline const void *pick(const void *a, unsigned *c) { (*c)++; return a; }
#define P hogl_post
#define AREA const void *
#define FN(idx_, ...) static unsigned call_##idx_(AREA area, unsigned sect, struct s05_vals *v) { unsigned count = v->n, un = v->u, i = v->n; int args = v->i; long x0 = v->l; __VA_ARGS__ (void) un; (void) args; (void) x0; (void) i; return count; }
#include "s05calls.inc"
extern "C" unsigned s05_post_macro(void *area, unsigned sect, struct s05_vals *v, unsigned which) { return calls[which](area, sect, v); }
