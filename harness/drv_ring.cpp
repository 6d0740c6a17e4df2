// crab::Buffer against Ring.tla
#define DRV_MAIN
#include "drv.hpp"
using namespace drv;
using namespace crab;
static int counter;
static std::string fresh(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(counter++ % 250); return s; }
static const uint8_t *u(const std::string &s) { return (const uint8_t *)s.data(); }
struct Src : IStream {
	int portion, calls;
	std::vector<std::string> given;
	Src(int p, int k) : portion(p), calls(k) {}
	size_t read_some(uint8_t *val, size_t count) override {
		if (calls <= 0) { given.push_back(""); return 0; }
		--calls;
		auto s = fresh((int)std::min<size_t>(count, (size_t)portion));
		memcpy(val, s.data(), s.size());
		given.push_back(s);
		return s.size();
	}
};
struct Snk : OStream {
	int portion, calls;
	std::vector<std::string> taken;
	Snk(int p, int k) : portion(p), calls(k) {}
	size_t write_some(const uint8_t *val, size_t count) override {
		if (calls <= 0) { taken.push_back(""); return 0; }
		--calls;
		size_t n = std::min<size_t>(count, (size_t)portion);
		taken.push_back(std::string((const char *)val, n));
		return n;
	}
};
static Q seqs(const std::vector<std::string> &v) {
	Q q; q.s = "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) q.s += ','; q.s += bytes(v[i]).s; }
	q.s += "]";
	return q;
}
static void st(Buffer &b) {
	std::string p1((const char *)b.read_ptr(), b.read_count()), p2((const char *)b.read_ptr2(), b.read_count2());
	L("st", b.size(), b.empty(), b.full(), b.capacity(), bytes(p1), bytes(p2), b.write_count(), b.write_count2());
}
template<class F> static bool tryit(F f) { try { f(); return true; } catch (const std::exception &) { return false; } }
void drv::run_script(Script &s) {
	counter = 0;
	std::unique_ptr<Buffer> bp;
	for (auto &o : s.cfg) {
		int a = I(o, 1), c = I(o, 2);
		const std::string &n = o[0];
		if (n == "cap") { bp.reset(new Buffer((size_t)a)); L("create", a); st(*bp); continue; }
		Buffer &b = *bp;
		bool ok = true;
		if (n == "read") {
			std::unique_ptr<uint8_t[]> d(new uint8_t[a]);
			size_t r = as_space((size_t)a, d.get(), [&](auto p) { return b.read_some(p, (size_t)a); });
			if (r > (size_t)a) { L("toolong"); return; }
			L("read", a, bytes(std::string((char *)d.get(), r)));
		} else if (n == "write") {
			auto f = fresh(a);
			L("write", bytes(f), as_type(f.size(), f.data(), [&](auto p) { return b.write_some(p, f.size()); }));
		} else if (n == "rfrom") {
			Src src(a, c);
			size_t r = b.read_from(src);
			L("rfrom", seqs(src.given), r);
		} else if (n == "wto") {
			Snk snk(a, c);
			int m = I(o, 3);
			size_t r = m < 100 ? b.write_to(snk, (size_t)m) : b.write_to(snk);
			L("wto", seqs(snk.taken), m, r);
		} else if (n == "peek") {
			std::unique_ptr<uint8_t[]> d(new uint8_t[a]);
			bool r = b.peek(d.get(), (size_t)a);
			L("peek", a, r, bytes(r ? std::string((char *)d.get(), (size_t)a) : ""));
		} else if (n == "enough") {
			Src src(c, I(o, 3));
			bool r = b.read_enough_data(src, (size_t)a);
			L("enough", seqs(src.given), a, r);
		} else if (n == "dread") {
			ok = tryit([&] { b.did_read((size_t)a); });
			L("dread", a, ok);
		} else if (n == "dwrite") {
			auto f = fresh(a);
			size_t k = std::min(f.size(), b.write_count());
			memcpy(b.write_ptr(), f.data(), k);
			size_t k2 = std::min(f.size() - k, b.write_count2());
			if (k2) memcpy(b.write_ptr2(), f.data() + k, k2);
			ok = tryit([&] { b.did_write((size_t)a); });
			L("dwrite", bytes(f), ok);
		} else if (n == "undo") {
			ok = tryit([&] { b.did_write_undo((size_t)a); });
			L("undo", a, ok);
		} else if (n == "clear") {
			b.clear(); L("clear");
		} else if (n == "resize") {
			b.clear((size_t)a); L("resize", a);
		}
		if (!ok) return;
		st(b);
	}
}
