// Stream adapters against Streams.tla
#define DRV_MAIN
#include "drv.hpp"
using namespace drv;
using namespace crab;
static std::string seq(int from, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)((from + i) % 250); return s; }
struct Snk : OStream {
	std::vector<int> portions;
	size_t k = 0;
	std::vector<std::string> taken;
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t n = k < portions.size() ? std::min<size_t>(count, (size_t)portions[k]) : 0;
		++k;
		taken.push_back(std::string((const char *)val, n));
		return n;
	}
};
static Q seqs(const std::vector<std::string> &v) {
	Q q; q.s = "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) q.s += ','; q.s += bytes(v[i]).s; }
	q.s += "]";
	return q;
}
static bdata bd(const std::string &s) { return bdata(s.begin(), s.end()); }
// sources keep their backing storage alive
static std::vector<std::shared_ptr<void>> keep;
static std::unique_ptr<IFiniteStream> mk(const std::string &k, const std::string &data, const std::string &data2 = "") {
	std::unique_ptr<IFiniteStream> r;
	if (k == "mem") {
		uint8_t *p = new uint8_t[data.size()];
		memcpy(p, data.data(), data.size());
		keep.push_back(std::shared_ptr<uint8_t>(p, std::default_delete<uint8_t[]>()));
		r.reset(new IMemoryStream(p, data.size()));
	} else if (k == "vec") {
		auto v = std::make_shared<bdata>(bd(data));
		keep.push_back(v);
		r.reset(new IVectorStream(v.get()));
	} else if (k == "str") {
		auto v = std::make_shared<std::string>(data);
		keep.push_back(v);
		r.reset(new IStringStream(v.get()));
	} else if (k == "vstream") {
		r.reset(new VectorStream(bd(data)));
	} else if (k == "sstream") {
		r.reset(new StringStream(data));
	} else if (k == "buf") {
		auto b = new Buffer(data.size() + 3);
		std::string pre(2, 'z');
		b->write(pre.data(), 2);  // start off zero so the contents wrap around
		uint8_t t[2];
		b->write(data.data(), data.size() ? 1 : 0);
		b->read(t, 2);
		if (data.size()) b->write(data.data() + 1, data.size() - 1);
		r.reset(b);
	} else if (k == "comb") {
		static const char *ks[] = {"mem", "vec", "str", "vstream", "sstream", "buf"};
		size_t x = data.size() * 7 + data2.size() * 3 + keep.size();
		auto a = mk(ks[x % 6], data), b = mk(ks[(x / 2 + 1) % 6], data2);
		r.reset(new CombinedIStream(std::move(a), std::move(b)));
	} else if (k == "comb3") {
		auto a = mk("comb", data, data2);
		auto b = mk("mem", "XY");
		r.reset(new CombinedIStream(std::move(a), std::move(b)));
	}
	return r;
}
template<class F> static bool tryit(F f) { try { f(); return true; } catch (const std::exception &) { return false; } }
void drv::run_script(Script &s) {
	keep.clear();
	std::unique_ptr<IFiniteStream> src;
	std::string kind;
	int ctr = 100;
	// sink under test
	std::unique_ptr<OStream> snk;
	std::string sk;
	bdata sv; std::string ss; std::unique_ptr<uint8_t[]> sm; size_t smcap = 0, used = 0;
	auto content = [&]() -> std::string {
		if (sk == "ovec") return std::string(sv.begin(), sv.end());
		if (sk == "ostr") return ss;
		if (sk == "omem") return std::string((char *)sm.get(), used);
		auto &b = static_cast<Buffer &>(*snk);
		std::string r(b.size(), 0);
		b.peek((uint8_t *)&r[0], r.size());
		return r;
	};
	for (auto &o : s.cfg) {
		const std::string &n = o[0];
		if (n == "mk") {
			kind = o[1];
			std::string d1 = seq(1, I(o, 2)), d2 = seq(11, I(o, 3));
			src = mk(kind, d1, d2);
			L("src", bytes(kind == "comb3" ? d1 + d2 + "XY" : d1 + d2));
		} else if (n == "rs" && src) {
			int c = I(o, 1);
			std::unique_ptr<uint8_t[]> d(new uint8_t[c]);
			size_t r = as_space((size_t)c, d.get(), [&](auto p) { return src->read_some(p, (size_t)c); });
			if (r > (size_t)c) { L("toolong"); return; }
			L("rs", c, bytes(std::string((char *)d.get(), r)));
		} else if (n == "rd" && src) {
			int c = I(o, 1);
			std::unique_ptr<char[]> d(new char[c]);
			size_t before = src->size();
			bool ok = tryit([&] { as_space((size_t)c, d.get(), [&](auto p) { src->read(p, (size_t)c); }); });
			size_t moved = ok ? (size_t)c : std::min((size_t)c, before);  // content of a failed read: everything there was
			L("rd", c, ok, bytes(std::string(d.get(), moved)));
		} else if (n == "wt" && src) {
			Snk k;
			int m = I(o, 1);
			for (size_t i = 2; i < o.size(); ++i) k.portions.push_back(I(o, i));
			size_t r = m < 1000 ? src->write_to(k, (size_t)m) : src->write_to(k);
			L("wt", m, seqs(k.taken), r);
		} else if (n == "app" && src) {
			auto d = seq(ctr, I(o, 1));
			ctr += I(o, 1);
			if (kind == "vstream") static_cast<VectorStream &>(*src).write(d.data(), d.size());
			else if (kind == "sstream") static_cast<StringStream &>(*src).write(d.data(), d.size());
			else continue;
			L("app", bytes(d));
		} else if (n == "mv" && src) {
			if (kind == "vstream") src.reset(new VectorStream(std::move(static_cast<VectorStream &>(*src))));
			else if (kind == "sstream") src.reset(new StringStream(std::move(static_cast<StringStream &>(*src))));
			L("mv");
		} else if (n == "mva" && src) {
			if (kind == "vstream") { auto t = new VectorStream(bd("old")); *t = std::move(static_cast<VectorStream &>(*src)); src.reset(t); }
			else if (kind == "sstream") { auto t = new StringStream("old"); *t = std::move(static_cast<StringStream &>(*src)); src.reset(t); }
			L("mv");
		} else if (n == "clr" && src) {
			if (kind == "vstream") static_cast<VectorStream &>(*src).clear();
			else if (kind == "sstream") static_cast<StringStream &>(*src).clear();
			else continue;
			L("clr");
		} else if (n == "snk") {
			sk = o[1];
			int c = I(o, 2);
			std::string init = seq(200, I(o, 3));
			used = 0;
			if (sk == "ovec") { sv = bd(init); snk.reset(new OVectorStream(&sv)); c = -1; }
			else if (sk == "ostr") { ss = init; snk.reset(new OStringStream(&ss)); c = -1; }
			else if (sk == "omem") { sm.reset(new uint8_t[c]); smcap = (size_t)c; snk.reset(new OMemoryStream(sm.get(), (size_t)c)); init = ""; }
			else { auto b = new Buffer((size_t)c); uint8_t t[1]; if (c > 1) { b->write_byte(1); b->write_byte(2); b->read(t, 1); b->read(t, 1); b->write("q", 1); b->read(t, 1); } snk.reset(b); init = ""; }
			L("snk", c, bytes(init));
		} else if ((n == "ws" || n == "wx") && snk) {
			auto d = seq(ctr, I(o, 1));
			ctr += I(o, 1);
			if (n == "ws") {
				size_t r = as_type(d.size(), d.data(), [&](auto p) { return snk->write_some(p, d.size()); });
				used += r;
				L("ws", bytes(d), r);
			} else {
				bool ok = tryit([&] { as_type(d.size(), d.data(), [&](auto p) { snk->write(p, d.size()); }); });
				used = std::min(smcap, used + d.size());
				L("wx", bytes(d), ok);
			}
		} else
			continue;
		if (src) L("sz", src->size(), src->empty());
		if (snk) L("ct", bytes(content()));
	}
}
