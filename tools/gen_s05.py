#!/usr/bin/env python3
"""Writes h/s05calls.inc: posts with every number of arguments and mixtures of C types; compiled as C and as C++."""
import os, random
R = random.Random(5)
simple = """v->b v->c v->sc v->uc v->s v->us v->i v->u v->l v->ul v->ll v->ull v->f v->d v->p v->cp v->ip v->cip v->vp v->ucp
v->i8 v->u8 v->i16 v->u16 v->i32 v->u32 v->i64 v->u64 v->sz v->cs v->ms hogl_string(v->arr) v->nul hogl_string(v->ms) hogl_pointer(v->cs) hogl_string(v->uarr) hogl_pointer(v->ip)
v->ci v->cu v->cd v->cll args x0 i un""".split()
# several with blanks
simple += ['"a literal"', '""', "(char) 65", "5", "-5", "5u", "5l", "5ul", "-5ll", "5ull", "2.5", "2.5f", "1 + v->i / 2", "v->b ? v->i : 3", "(_BOOL) !v->i", "v->c + 1", "(short) (v->i >> 3)", "v->d * 2",
	"(unsigned char) v->i", "v->arr + 1", "v->cs + v->n % 3", "&v->i", "(const void *) &v->d", "(_BOOL) (v->i & 1)", "v->sz - 1", "~v->u", "(float) v->d", "count++", "++count", "next(&count)", "(void *) 0", "(char *) 0", "*v->cs", "*v->ip", "-v->f", "v->ull << 3", "v->l % 7"]
out = []
def case(a): out.append("FN(%d, P(area, sect, %s);)" % (len(out), ", ".join(a)))
for s in simple: case([s])
for s in simple: case(['v->fmt', s])
for n in range(2, 17):
    for k in range(9):
        a = [R.choice(simple) for _ in range(n)]
        seen = False
        for j, x in enumerate(a):                  # side effects once per statement only
            if 'count' in x:
                if seen: a[j] = 'v->i'
                seen = True
        case(a)
for n in range(2, 17):                              # format string in front
    for k in range(4):
        a = [R.choice(simple) for _ in range(n)]
        seen = False
        for j, x in enumerate(a):
            if 'count' in x:
                if seen: a[j] = 'v->i'
                seen = True
        a[0] = 'v->fmt'
        case(a)
# side effects in area and section
FMT_I = None
out.append("FN(%d, P(pick(area, &count), sect, v->i, \"picked\");)" % len(out))
out.append("FN(%d, P(area, sect + next(&count) * 0, v->i);)" % len(out))
out.append("FN(%d, if (v->i & 1) P(area, sect, v->i); else P(area, sect, v->u);)" % len(out))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'h', 's05calls.inc'), 'w') as f:
    f.write("// Made by tools/gen_s05.py\n#ifdef P\n" + "\n".join(out) + "\nstatic unsigned (*const calls[])(AREA, unsigned, struct s05_vals *) = {" + ", ".join("call_%d" % i for i in range(len(out))) + "};\n#endif\n#define S05_CALLS_N %d\n#define S05_FMT_I %d\n" % (len(out), len(simple) + simple.index("v->i")))
