// C side of S05.
#include <hogl/c-api/area.h>
#include <hogl/c-api/post.h>
#include <hogl/c-api/format.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/engine.h>
#include <hogl/c-api/mask.h>
#include <hogl/c-api/tls.h>
#include "s05.h"
#define P hogl_post
#define pick pick_
#define _BOOL _Bool
#define AREA void *
#define FN(idx_, ...) static unsigned call_##idx_(AREA area, unsigned sect, struct s05_vals *v) { unsigned count = v->n, un = v->u, i = v->n; int args = v->i; long x0 = v->l; __VA_ARGS__ (void) un; (void) args; (void) x0; (void) i; return count; }
#include "s05calls.inc"
unsigned s05_post_c(void *area, unsigned sect, struct s05_vals *v, unsigned which) { return calls[which](area, sect, v); }
void s05_activate(void *out, const struct s05_opts *o)
{
	if (!o) { hogl_activate(out, NULL); return; }
	struct hogl_engine_options e = { .features = o->features ? HOGL_DISABLE_TSO : 0, .default_mask = o->mask, .polling_interval_usec = o->poll, .tso_buffer_capacity = o->tso,
		.schedparam = { .policy = o->policy, .priority = o->prio, .cpu_affinity = o->aff } };
	hogl_activate(out, &e);
}
void *s05_file(const char *name, void *fmt, const struct s05_opts *o)
{
	if (!o) return hogl_new_output_file(name, fmt, NULL);
	struct hogl_output_options e = { .perms = o->perms, .max_size = o->max_size, .max_count = o->max_count, .buffer_capacity = o->buffer,
		.schedparam = { .policy = o->policy, .priority = o->prio, .cpu_affinity = o->aff } };
	return hogl_new_output_file(name, fmt, &e);
}
void *s05_tls(const char *name, const struct s05_opts *o)
{
	struct hogl_tls_options t = { .ring_capacity = o->cap, .ring_priority = o->rprio, .record_tailroom = o->tail };
	return hogl_new_tls(name, &t);
}
void *s05_mask(unsigned n, const char **s)
{
	switch (n) {
	case 0: return hogl_new_mask(NULL);
	case 1: return hogl_new_mask(s[0], NULL);
	case 2: return hogl_new_mask(s[0], s[1], NULL);
	case 3: return hogl_new_mask(s[0], s[1], s[2], NULL);
	default: return hogl_new_mask(s[0], s[1], s[2], s[3], NULL);
	}
}
