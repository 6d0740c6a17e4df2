// crab::optional and crab::string_view against ValTrace.tla
#define DRV_MAIN
#include "drv.hpp"
#include <deque>
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif
using namespace drv;
using namespace crab;
typedef optional<std::string> Opt;
static std::deque<std::string> kept;
static const std::string &keep(const std::string &s) {
	kept.push_back(s);
	return kept.back();
}
static void see(int k, const string_view &v) { L("see", k, v.size() > 1000 ? bytes("toolong") : bytes(std::string(v.data() ? v.data() : "", v.size()))); }
static void see(int k, Opt &o) {
	auto none = [] { Q q; q.s = "[]"; return q; };
	auto some = [](const std::string &s) { Q q; q.s = "[" + bytes(s).s + "]"; return q; };
	const Opt &c = o;
	Q a = none(), b = none();
	try { a = some(o.value()); } catch (const std::exception &) {}
	try { b = some(c.value()); } catch (const std::exception &) {}
	bool has = o.has_value();
	if (has != bool(c)) { L("differ", k); return; }
	if (has && (*o != o.value() || *c != c.value() || o->size() != c->size())) { L("differ", k); return; }
	L("opt", k, has, a, b);
}
void drv::run_script(Script &s) {
	kept.clear();
	std::vector<Opt> o(4);
	std::vector<string_view> v(3);
	for (auto &p : s.cfg) {
		const std::string &n = p[0];
		int k = I(p, 1);
		if (n == "set" || n == "mset" || n == "emp" || n == "new" || n == "mnew") {
			std::string x = unhex(p[2]), y = x;
			if (n == "set") o[k] = x;
			if (n == "mset") o[k] = std::move(y);
			if (n == "emp" && o[k].emplace(x) != x) L("differ", k);
			if (n == "new") o[k] = Opt(x);
			if (n == "mnew") o[k] = Opt(std::move(y));
			L("set", k, bytes(x));
		} else if (n == "none") { o[k].reset(); L("none", k); }
		else if (n == "clear") { o[k] = Opt(); L("none", k); }
		else if (n == "copy") { o[k] = o[I(p, 2)]; L("copy", k, I(p, 2)); }
		else if (n == "ncopy") { Opt x(o[I(p, 2)]); o[k] = x; L("copy", k, I(p, 2)); }
		else if (n == "move" && k != I(p, 2)) {   // what is left behind is not looked at
			L("copy", k, I(p, 2));
			o[k] = std::move(o[I(p, 2)]);
			o[I(p, 2)].reset();
			L("none", I(p, 2));
		} else if (n == "nmove" && k != I(p, 2)) {
			L("copy", k, I(p, 2));
			Opt x(std::move(o[I(p, 2)]));
			o[k] = std::move(x);
			o[I(p, 2)].reset();
			L("none", I(p, 2));
		} else if (n == "view") { auto &x = keep(unhex(p[2])); v[k] = string_view(x.data(), x.size()); L("view", k, bytes(x)); }
		else if (n == "zview") { auto &x = keep(unhex(p[2])); if (x.find('\0') == x.npos) { v[k] = string_view{x.c_str()}; L("view", k, bytes(x)); } }
		else if (n == "dview") { v[k] = string_view(); L("view", k, bytes("")); }
		else if (n == "sub") {
			bool ok = true;
			int c = I(p, 4);
			try { v[k] = c < 0 ? v[I(p, 2)].substr((size_t)I(p, 3)) : v[I(p, 2)].substr((size_t)I(p, 3), (size_t)c); } catch (const std::out_of_range &) { ok = false; }
			L("sub", k, I(p, 2), I(p, 3), c < 0 ? 100000 : c, ok);
		} else if (n == "pre" && (size_t)I(p, 2) <= v[k].size()) { v[k].remove_prefix((size_t)I(p, 2)); L("pre", k, I(p, 2)); }
		else if (n == "suf" && (size_t)I(p, 2) <= v[k].size()) { v[k].remove_suffix((size_t)I(p, 2)); L("suf", k, I(p, 2)); }
		else if (n == "eq") {
			std::string x = unhex(p[2]);
			bool a = v[k] == x, b = x == v[k], c = v[k] != x, d = x != v[k];
			if (a == c || b == d) L("differ", k);
			L("eq", k, bytes(x), a, b, v[k].compare(x) == 0);
		}
		if (k == 1 || k == 2) see(k, v[k]);
		if (k >= 1 && k <= 3) see(k, o[k]);
	}
}
