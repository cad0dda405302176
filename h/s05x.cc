// C++ side of S05: the same posts through hogl::post(), and through the macro of the C header included from C++.
#include <hogl/post.hpp>
#include <hogl/area.hpp>
#include "s05.h"
#define hogl_string(str)  ((const char *) (str))
#define hogl_pointer(ptr) ((void *) (ptr))
__HOGL_PRIV_NS_USING__;
#define _BOOL bool
static inline const hogl::area *pick(const hogl::area *a, unsigned *c) { (*c)++; return a; }
#define P hogl::post
#define AREA const hogl::area *
#define FN(idx_, ...) static unsigned call_##idx_(AREA area, unsigned sect, struct s05_vals *v) { unsigned count = v->n, un = v->u, i = v->n; int args = v->i; long x0 = v->l; __VA_ARGS__ (void) un; (void) args; (void) x0; (void) i; return count; }
#include "s05calls.inc"
extern "C" unsigned s05_post_cpp(void *area, unsigned sect, struct s05_vals *v, unsigned which) { return calls[which]((const hogl::area *) area, sect, v); }
