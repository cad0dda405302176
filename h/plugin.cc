// Loadable format of the harnesses. Leaves a line about create/release in the file VH_PLUGIN_LOG names.
#include "plugfmt.hpp"
#include <hogl/plugin/format.hpp>
#include <stdlib.h>
static void note(const char *w) { const char *p = getenv("VH_PLUGIN_LOG"); FILE *f = p ? fopen(p, "a") : 0; if (f) { fprintf(f, "%s\n", w); fclose(f); } }
static hogl::format *live;
static hogl::format *create(const char *str)
{
	if (str && !strcmp(str, "refuse")) { note("refused"); return 0; }
	note("create"); return live = new vh::plug_format(str);
}
static void release(hogl::format *f) { note(f == live ? "release" : "release-other"); delete f; }
extern "C" { __attribute__((visibility("default"))) extern hogl::plugin::format __hogl_plugin_format; }
hogl::plugin::format __hogl_plugin_format = { create, release };
