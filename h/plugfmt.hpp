// A format that depends on nothing of the library but its headers: what a
// loadable plugin is shown of every record, one line each.
#pragma once
#include <hogl/detail/format.hpp>
#include <hogl/detail/area.hpp>
#include <hogl/detail/record.hpp>
#include <string>
#include <string.h>
#include <stdio.h>
namespace vh {
class plug_format : public hogl::format {
	std::string _tag;
public:
	static void put(std::string &s, const void *p, size_t n)
	{
		uint64_t h = 1469598103934665603ull;
		for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *) p)[i]) * 1099511628211ull;
		char b[64]; snprintf(b, sizeof b, "%zu:%016llx", n, (unsigned long long) h); s += b;
	}
	plug_format(const char *str) : _tag(str ? std::string("<") + str + ">" : "none") {}
	void process(hogl::ostrbuf &sb, const hogl::format::data &d)
	{
		const hogl::record &r = *d.record; char b[128];
		std::string s = _tag;
		snprintf(b, sizeof b, " %llu %llu ", (unsigned long long) r.timestamp, (unsigned long long) r.seqnum); s += b;
		s += d.ring_name; s += "|"; s += r.area->name(); s += "|"; s += r.area->section_name(r.section);
		for (unsigned i = 0; i < hogl::record::NARGS; i++) {
			unsigned t = r.get_arg_type(i); unsigned n = 0; const uint8_t *p;
			if (t == hogl::arg::NONE) break;
			switch (t) {
			case hogl::arg::CSTR:
				p = r.get_arg_data(i, n); s += " s"; if (!n) put(s, "null", 4); else put(s, p, strlen((const char *) p));
				break;
			case hogl::arg::GSTR: {
				const char *g = (const char *) (unsigned long) r.get_arg_val64(i); s += " s"; if (!g) g = "null"; put(s, g, strlen(g));
				break; }
			case hogl::arg::XDUMP: case hogl::arg::RAW:
				p = r.get_arg_data(i, n); s += t == hogl::arg::RAW ? " r" : " x"; put(s, p, n);
				break;
			case hogl::arg::INT32: case hogl::arg::UINT32:
				snprintf(b, sizeof b, " %u=%x", t, (unsigned) r.get_arg_val32(i)); s += b;
				break;
			default:
				snprintf(b, sizeof b, " %u=%llx", t, (unsigned long long) r.get_arg_val64(i)); s += b;
			}
		}
		s += "\n";
		for (char c : s) sb.push_back(c);
	}
};
} // namespace vh
