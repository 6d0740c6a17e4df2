// Digests, base64, hex and UTF-8 validation against Digest.tla, Utf8.tla
#define DRV_MAIN
#include "drv.hpp"
#include <crab/crypto/base64.hpp>
#include <crab/crypto/crc32.hpp>
#include <crab/crypto/md5.hpp>
#include <crab/crypto/sha1.hpp>
using namespace drv;
using namespace crab;
struct Exact {  // a copy of exactly this size, so that reading outside is seen
	std::unique_ptr<uint8_t[]> p;
	size_t n;
	explicit Exact(const std::string &s) : p(new uint8_t[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
};
static std::string gen(int n, int seed) {
	std::string s;
	for (int i = 0; i < n; ++i) s += (char)((unsigned)(i * 7 + seed * 31 + i / 5 * seed + (i * i) / 3) % 256);
	return s;
}
template<class H> static std::string fin(H &h) {
	std::string r(H::hash_size, 0);
	h.finalize((uint8_t *)&r[0]);
	return r;
}
template<class H> static std::string zeros(long n, long piece) {
	H h;
	std::vector<uint8_t> z((size_t)piece, 0);
	while (n > 0) {
		size_t k = (size_t)std::min(n, piece);
		h.add(z.data(), k);
		n -= (long)k;
	}
	return fin(h);
}
void drv::run_script(Script &s) {
	std::unique_ptr<md5> m;
	std::unique_ptr<sha1> h;
	std::string kind;
	uint32_t crc = 0;
	auto feed = [&](const std::string &b) {
		Exact e(b);
		L("feed", bytes(b));
		if (m) m->add(e.p.get(), e.n);
		if (h) h->add(e.p.get(), e.n);
		if (kind == "crc32") crc = crc32(crc, e.p.get(), e.n);
		if (kind == "crc32c") crc = crc32c(crc, e.p.get(), e.n);
		if (!m && !h) {
			std::string r;
			for (int i = 3; i >= 0; --i) r += (char)(crc >> 8 * i);
			L("crc", bytes(r));
		}
	};
	for (auto &o : s.cfg) {
		const std::string &n = o[0];
		std::string d = o.size() > 1 ? unhex(o[1]) : "";
		Exact e(d);
		if (n == "new") {
			kind = o[1];
			m.reset(kind == "md5" ? new md5() : nullptr);
			h.reset(kind == "sha1" ? new sha1() : nullptr);
			crc = 0;
			L("new", kind);
		} else if (n == "feed") feed(d);
		else if (n == "gen") feed(gen(I(o, 1), I(o, 2)));
		else if (n == "final") {
			L("final", bytes(m ? fin(*m) : fin(*h)));
			m.reset();
			h.reset();
		} else if (n == "long") {
			long len = atol(o[2].c_str()), piece = atol(o[3].c_str());
			L("long", o[1], len, bytes(o[1] == "md5" ? zeros<md5>(len, piece) : zeros<sha1>(len, piece)));
		} else if (n == "enc") L("enc", bytes(d), bytes(base64::encode(e.p.get(), e.n)));
		else if (n == "dec") {
			std::vector<uint8_t> r;
			bool ok = base64::decode(&r, d);
			L("dec", bytes(d), ok, bytes(std::string(r.begin(), r.end())));
		} else if (n == "hex") L("hex", bytes(d), bytes(to_hex(e.p.get(), e.n)));
		else if (n == "unhex") {
			bdata r;
			bool ok = from_hex(r, d);
			L("unhex", bytes(d), ok, bytes(std::string(r.begin(), r.end())));
		} else if (n == "utf8") L("utf8", bytes(d), is_valid_utf8(e.p.get(), e.n));
	}
}
