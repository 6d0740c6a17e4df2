// crab::Random against Pcg.tla
#define DRV_MAIN
#include "drv.hpp"
#include <cmath>
using namespace drv;
using namespace crab;
static std::string le(uint64_t v, int n) {
	std::string r;
	for (int i = 0; i < n; ++i, v >>= 8) r += (char)v;
	return r;
}
struct Three { uint8_t v[3]; };
struct Five { uint8_t v[5]; };
template<class T> static std::string pod(Random &r) {
	T v = r.pod<T>();
	return std::string((char *)&v, sizeof(v));
}
void drv::run_script(Script &s) {
	std::unique_ptr<Random> r;
	for (auto &o : s.cfg) {
		const std::string &n = o[0];
		if (n == "seed") {
			uint64_t v = strtoull(o[1].c_str(), nullptr, 10);
			r.reset(new Random(v));
			L("seed", bytes(le(v, 8)));
		} else if (n == "next") L("next", bytes(le((*r)(), 4)));
		else if (n == "bytes") {
			size_t k = (size_t)I(o, 1);
			std::unique_ptr<uint8_t[]> p(new uint8_t[k]);
			as_space(k, p.get(), [&](auto q) { r->bytes(q, k); });
			L("bytes", (int)k, bytes(std::string((char *)p.get(), k)));
		} else if (n == "data") {
			auto d = r->data((size_t)I(o, 1));
			L("bytes", I(o, 1), bytes(std::string(d.begin(), d.end())));
		} else if (n == "pod") {
			int k = I(o, 1);
			std::string v = k == 1 ? pod<uint8_t>(*r) : k == 2 ? pod<uint16_t>(*r) : k == 3 ? pod<Three>(*r) : k == 4 ? pod<uint32_t>(*r) : k == 5 ? pod<Five>(*r) : pod<uint64_t>(*r);
			L("bytes", (int)v.size(), bytes(v));
		} else if (n == "text") L("text", I(o, 1), bytes(r->printable_string((size_t)I(o, 1))));
		else if (n == "unit") {
			double d = r->double_value(), m = std::ldexp(d, 53);
			bool good = m >= 0 && m < std::ldexp(1.0, 53) && m == std::floor(m);
			L("unit", bytes(le(good ? (uint64_t)m : 0, 7)), good);
		} else if (n == "range") L("range", bytes(le(Random::min(), 4)), bytes(le(Random::max(), 4)));
		else if (n == "fresh") {
			std::string a;
			for (int i = 0; i < 4; ++i) {
				Random x;
				a += (i ? "," : "") + bytes(pod<uint64_t>(x) + pod<uint64_t>(x)).s;
			}
			for (int i = 0; i < 2; ++i) {
				RunLoop loop;
				a += "," + bytes(pod<uint64_t>(loop.rnd) + pod<uint64_t>(loop.rnd)).s;
			}
			Q w;
			w.s = "[" + a + "]";
			L("fresh", w);
		}
	}
}
