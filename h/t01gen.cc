// Writes text logs with the library. Input lines (fields hex encoded):
//   F <path> <fields>                                   start of a log
//   R <nanoseconds> <ring> <seqnum> <area> <section> <text> <how>
#define VH_MAIN
#include "text.hpp"
#include <hogl/format-basic.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/area.hpp>
#include <deque>
#include <iostream>
#include <sstream>

static std::string unhex(const std::string &s) { std::string r; for (size_t i = 1; i + 1 < s.size(); i += 2) r += (char) strtoul(s.substr(i, 2).c_str(), 0, 16); return r; }

int main()
{
	std::unique_ptr<hogl::format_basic> f; std::unique_ptr<hogl::output_plainfile> o;
	std::map<std::string, std::unique_ptr<hogl::area>> areas; std::deque<std::string> keep;
	std::vector<char> mem(sizeof(hogl::record) + (1 << 17));
	std::string l; uint64_t n = 0;
	while (std::getline(std::cin, l)) {
		std::istringstream s(l); std::string c; s >> c;
		if (c == "F") {
			std::string p, fl; s >> p >> fl; o.reset(); f.reset(new hogl::format_basic(unhex(fl).c_str())); o.reset(new hogl::output_plainfile(unhex(p), *f));
		} else if (c == "R") {
			uint64_t t, q; unsigned how; std::string ring, a, se, text; s >> t >> ring >> q >> a >> se >> text >> how;
			ring = unhex(ring); a = unhex(a); se = unhex(se); text = unhex(text);
			std::unique_ptr<hogl::area> &ap = areas[a + "\n" + se];
			if (!ap) { keep.push_back(a); const char *an = keep.back().c_str(); keep.push_back(se); const char *sect[] = { keep.back().c_str(), 0 }; ap.reset(new hogl::area(an, sect)); }
			hogl::record *r = (hogl::record *) mem.data(); memset(mem.data(), 0, sizeof(hogl::record));
			r->area = ap.get(); r->section = 0; r->timestamp = hogl::timestamp(t); r->seqnum = q;
			if (how == 0) r->set_args(0, hogl::arg_gstr("%s"), hogl::arg_gstr(text.c_str()));
			else if (how == 1) r->set_args(1 << 17, "%s", text.c_str());
			else r->set_args(1 << 17, text.c_str());
			hogl::format::data d = {}; d.ring_name = ring.c_str(); d.record = r;
			o->process(d); n++;
		}
	}
	o.reset();
	printf("%llu\n", (unsigned long long) n);
	return 0;
}
