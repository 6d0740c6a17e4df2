// Parsers, string decoders and header writer, fed with bytes in many splittings.
#define DRV_MAIN
#include "drv.hpp"
#include <algorithm>
#include <map>
using namespace drv;
namespace http = crab::http;

template<class V>
static Q arr(const V &v) {
	Q q; q.s = "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) q.s += ','; put(q.s, v[i]); }
	q.s += ']';
	return q;
}
template<class... A>
static Q tup(const A &...a) { std::string s; putall(s, a...); Q q; q.s = "[" + s.substr(1) + "]"; return q; }
static Q digits(const crab::optional<uint64_t> &v) { return v ? bytes(std::to_string(*v)) : bytes(""); }
static Q list(const std::vector<std::string> &v) { std::vector<Q> r; for (auto &s : v) r.push_back(bytes(s)); return arr(r); }
static Q hs(const std::vector<http::Header> &v) { std::vector<Q> r; for (auto &s : v) r.push_back(tup(bytes(s.name), bytes(s.value))); return arr(r); }
static Q fields(const http::RequestHeader &f) {
	return tup(bytes(f.method), bytes(f.path), bytes(f.query_string), f.http_version_major, f.http_version_minor, f.keep_alive, digits(f.content_length),
	    f.transfer_encoding_chunked, list(f.transfer_encodings), f.connection_upgrade, f.upgrade_websocket, bytes(f.content_type_mime),
	    bytes(f.content_type_suffix), bytes(f.basic_authorization), bytes(f.host), bytes(f.origin), bytes(f.sec_websocket_key), bytes(f.sec_websocket_version), hs(f.headers));
}
static Q fields(const http::ResponseHeader &f) {
	return tup(f.status, bytes(f.status_text), f.http_version_major, f.http_version_minor, f.keep_alive, digits(f.content_length), f.transfer_encoding_chunked,
	    list(f.transfer_encodings), f.connection_upgrade, f.upgrade_websocket, bytes(f.content_type_mime), bytes(f.content_type_suffix),
	    bytes(f.sec_websocket_accept), bytes(f.date), bytes(f.server), hs(f.headers));
}
// every way to cut s we try; mode 0 whole, 1 bytewise, 2.. pseudo random
static std::vector<size_t> cuts(size_t n, int mode) {
	std::vector<size_t> c;
	if (mode == 1) for (size_t i = 1; i < n; ++i) c.push_back(i);
	else if (mode >= 2) {
		uint32_t x = 12345u + mode * 7919u + (uint32_t)n;
		size_t p = 0;
		while (true) { x = x * 1664525u + 1013904223u; p += 1 + (x >> 16) % (mode % 3 == 0 ? 4 : mode % 3 == 1 ? 11 : 40); if (p >= n) break; c.push_back(p); }
	}
	c.push_back(n);
	return c;
}
// pieces are copied to exact-size heap blocks, so a read past a piece is an address error
template<class Feed, class Res>
static void split_run(const std::string &s, int modes, std::vector<Q> &outs, Feed &&mk, Res &&res) {
	for (int m = 0; m < modes; ++m) {
		auto p = mk();
		size_t pos = 0;
		Q q;
		bool over = false;
		try {
			for (size_t c : cuts(s.size(), m)) {
				while (pos < c || c == s.size()) {
					size_t len = c - pos;
					std::unique_ptr<uint8_t[]> b(new uint8_t[len]);
					memcpy(b.get(), s.data() + pos, len);
					size_t used = p->feed(b.get(), len);
					if (used > len) { over = true; break; }
					pos += used;
					break;
				}
				if (over || p->good()) break;
			}
			if (over) q = tup("overrun");
			else if (p->good()) q = res(*p, pos);
			else q = tup("more", pos);
		} catch (const std::logic_error &) { q = tup("logic_error");
		} catch (const std::exception &) { q = tup("err"); }
		bool dup = false;
		for (auto &o : outs) if (o.s == q.s) dup = true;
		if (!dup) outs.push_back(q);
	}
}
template<class P>
struct HeadF {
	P p;
	size_t feed(const uint8_t *b, size_t n) { auto r = p.parse((const char *)b, (const char *)b + n); return (size_t)(r - (const char *)b); }
	bool good() { return p.is_good(); }
};
struct BodyF {
	http::BodyParser p;
	size_t feed(const uint8_t *b, size_t n) { return (size_t)(p.parse(b, b + n) - b); }
	bool good() { return p.is_good(); }
};
struct FrameF {
	http::WebMessageHeaderParser h;
	http::WebMessageBodyParser b;
	bool body = false;
	size_t feed(const uint8_t *p, size_t n) {
		size_t u = 0;
		if (!body) {
			u = (size_t)(h.parse(p, p + n) - p);
			if (!h.is_good()) return u;
			body = true;
			b = http::WebMessageBodyParser{h.payload_len, h.masking_key};
		}
		return u + (size_t)(b.parse(p + u, p + n) - (p + u));
	}
	bool good() { return body && b.is_good(); }
};
// the same through a Buffer, which may wrap
struct HeadB {
	http::RequestParser p; crab::Buffer buf{64};
	size_t feed(const uint8_t *b, size_t n) {
		size_t done = 0;
		while (done < n && !p.is_good()) { done += buf.write_some(b + done, std::min<size_t>(n - done, 48)); p.parse(buf); }
		size_t left = buf.size();
		buf.clear();
		return done - left;
	}
	bool good() { return p.is_good(); }
};
static Q pairs(const std::unordered_map<std::string, std::string> &m) {
	std::map<std::string, std::string> s(m.begin(), m.end());
	std::vector<Q> r;
	for (auto &kv : s) r.push_back(tup(bytes(kv.first), bytes(kv.second)));
	return arr(r);
}
template<class P>
static void mapped(const char *name, const std::string &s) {
	std::vector<Q> outs;
	for (int m = 0; m < 4; ++m) {
		P p;
		size_t pos = 0;
		for (size_t c : cuts(s.size(), m)) { p.parse(s.data() + pos, s.data() + c); pos = c; }
		p.parse_end();
		L(name, bytes(s), pairs(p.parsed));
		if (m == 0) outs.push_back(pairs(p.parsed));
		else if (outs[0].s == pairs(p.parsed).s) continue;
	}
	L(name, bytes(s), pairs(std::string(name) == "query" ? http::parse_query_string(s) : http::parse_cookie_string(s)));
	L("dec", bytes(s), bytes(http::url_decode(s)));
}
static std::string X(const Op &o, size_t i) { return i < o.size() ? unhex(o[i]) : std::string(); }
static std::vector<std::string> XL(const Op &o, size_t i) { std::vector<std::string> r; if (i < o.size() && !o[i].empty()) for (auto &t : drv::split(o[i], ';')) r.push_back(unhex(t)); return r; }
static void common(const Op &o, size_t i, http::RequestResponseHeader &h) {
	h.http_version_major = I(o, i); h.http_version_minor = I(o, i + 1); h.keep_alive = I(o, i + 2);
	if (!o[i + 3].empty()) h.content_length = std::stoull(o[i + 3]);
	h.transfer_encoding_chunked = I(o, i + 4);
	h.transfer_encodings = XL(o, i + 5);
	h.connection_upgrade = h.upgrade_websocket = I(o, i + 6);
	h.content_type_mime = X(o, i + 7); h.content_type_suffix = X(o, i + 8);
	auto l = XL(o, i + 9);
	for (size_t k = 0; k + 1 < l.size(); k += 2) h.headers.push_back({l[k], l[k + 1]});
}
template<class P, class H>
static void roundtrip(const char *k, H &h, const Q &want) {
	std::string s = h.to_string();
	P p;
	Q got = tup("err");
	try { p.parse(s.data(), s.data() + s.size()); if (p.is_good()) got = fields(p.req); else got = tup("more"); } catch (const std::exception &) {}
	L("hdr", k, want, bytes(s), got);
}
static void op(const Op &o) {
	const std::string &n = o[0];
	std::vector<Q> outs;
	if (n == "head") {
		std::string s = unhex(o[3]);
		size_t lim = (size_t)I(o, 2);
		if (o[1] == "req") {
			split_run(s, 6, outs, [&] { std::unique_ptr<HeadF<http::RequestParser>> p(new HeadF<http::RequestParser>); p->p.max_total_length = lim; return p; },
			    [](HeadF<http::RequestParser> &p, size_t pos) { return tup("good", pos, fields(p.p.req)); });
			split_run(s, 3, outs, [&] { std::unique_ptr<HeadB> p(new HeadB); p->p.max_total_length = lim; return p; },
			    [](HeadB &p, size_t pos) { return tup("good", pos, fields(p.p.req)); });
		} else
			split_run(s, 6, outs, [&] { std::unique_ptr<HeadF<http::ResponseParser>> p(new HeadF<http::ResponseParser>); p->p.max_total_length = lim; return p; },
			    [](HeadF<http::ResponseParser> &p, size_t pos) { return tup("good", pos, fields(p.p.req)); });
		L("head", o[1], (int)lim, bytes(s), arr(outs));
	} else if (n == "body") {   // body,cl,chunked,mh,mt,bytes
		std::string s = unhex(o[5]);
		crab::optional<uint64_t> cl;
		if (!o[1].empty()) cl = std::stoull(o[1]);
		split_run(s, 6, outs, [&] { std::unique_ptr<BodyF> p(new BodyF); p->p = http::BodyParser(cl, I(o, 2)); p->p.max_chunk_header_total_length = I(o, 3); p->p.max_trailers_total_length = I(o, 4); return p; },
		    [](BodyF &p, size_t pos) { return tup("good", pos, bytes(p.p.body.get_buffer())); });
		L("body", digits(cl), bool(I(o, 2)), I(o, 3), I(o, 4), bytes(s), arr(outs));
	} else if (n == "frame") {
		std::string s = unhex(o[1]);
		split_run(s, 8, outs, [&] { return std::unique_ptr<FrameF>(new FrameF); },
		    [](FrameF &p, size_t pos) {
			    std::string len, mask;
			    for (int i = 7; i >= 0; --i) len += (char)(p.h.payload_len >> (8 * i));
			    if (p.h.masking_key) for (int i = 3; i >= 0; --i) mask += (char)(*p.h.masking_key >> (8 * i));
			    return tup("good", pos, p.h.fin, p.h.opcode, bytes(len), bool(p.h.masking_key), bytes(mask), bytes(p.b.body.get_buffer()));
		    });
		L("frame", bytes(s), arr(outs));
	} else if (n == "query") mapped<http::QueryParser>("query", X(o, 1));
	else if (n == "cookie") mapped<http::CookieParser>("cookie", X(o, 1));
	else if (n == "uri") {
		std::string s = X(o, 1);
		for (int m = 0; m < 3; ++m) {
			http::URIParser p;
			bool ok = true;
			try {
				size_t pos = 0;
				for (size_t c : cuts(s.size(), m)) { p.parse(s.data() + pos, s.data() + c); pos = c; }
				p.parse_end();
			} catch (const std::runtime_error &) { ok = false; }
			auto &u = p.uri;
			if (m == 1) try {   // the function instead of the parser
				ok = false;
				p.uri = http::parse_uri(s);
				ok = true;
			} catch (const std::runtime_error &) {}
			L("uri", bytes(s), ok, ok ? tup(bytes(u.scheme), bytes(u.user_info), bytes(u.host), bytes(u.port), bytes(u.path), bytes(u.query)) : tup(0));
			if (m == 0 && ok && u.host.find('?') == std::string::npos && u.port.find('?') == std::string::npos) {   // and written again
				std::string t = u.to_string();
				http::URI v;
				bool ok2 = true;
				try { v = http::parse_uri(t); } catch (const std::exception &) { ok2 = false; }
				bool same = ok2 && v.scheme == u.scheme && v.user_info == u.user_info && v.host == u.host && v.port == u.port && v.path == u.path && v.query == u.query;
				if (!same) L("uri_not_written_back", bytes(t));
			}
		}
	} else if (n == "enc") {
		std::string s = X(o, 1), e = http::url_encode(s, I(o, 2));
		L("enc", bytes(s), bool(I(o, 2)), bytes(e), bytes(http::url_decode(e)));
	} else if (n == "seturi") {
		http::RequestHeader h;
		h.query_string = "old=1";
		h.set_uri(X(o, 1));
		L("seturi", bytes(X(o, 1)), bytes(h.path), bytes(h.query_string), bytes(h.get_uri()));
	} else if (n == "params") {  // params,method,mime,query,body
		http::Request r;
		r.header.method = X(o, 1); r.header.content_type_mime = X(o, 2); r.header.query_string = X(o, 3);
		r.set_body(X(o, 4));
		L("params", bytes(X(o, 1)), bytes(X(o, 2)), bytes(X(o, 3)), bytes(X(o, 4)), pairs(r.parse_query_params()), (int)*r.header.content_length);
	} else if (n == "cookies") { // cookies,name;value;name;value...
		http::Request r;
		auto l = XL(o, 1);
		std::vector<Q> hs;
		for (size_t k = 0; k + 1 < l.size(); k += 2) { r.header.headers.push_back({l[k], l[k + 1]}); hs.push_back(tup(bytes(l[k]), bytes(l[k + 1]))); }
		L("cookies", arr(hs), pairs(r.parse_cookies()));
	} else if (n == "ctype") {
		http::RequestHeader h;
		h.content_type_mime = "old"; h.content_type_suffix = "old";
		h.set_content_type(X(o, 1));
		L("ctype", bytes(X(o, 1)), bytes(h.content_type_mime), bytes(h.content_type_suffix));
		http::ResponseHeader g;
		g.content_type_mime = "old"; g.content_type_suffix = "old";
		g.set_content_type(h.content_type_mime, h.content_type_suffix);
		if (!h.content_type_mime.empty() || h.content_type_suffix.empty()) L("ctype", bytes(X(o, 1)), bytes(g.content_type_mime), bytes(g.content_type_suffix));
	} else if (n == "auth") {
		std::string a;
		bool ok = http::parse_authorization_basic(X(o, 1), a);
		L("auth", bytes(X(o, 1)), ok, bytes(a));
	} else if (n == "simple") {  // simple,kind,status[,text]: a response made by one of the convenience functions, written and read back
		int st = I(o, 2);
		bool t = o.size() > 3;
		std::string text = X(o, 3);
		http::Response r = o[1] == "html" ? (t ? http::Response::simple_html(st, std::string(text)) : http::Response::simple_html(st))
		                 : o[1] == "text" ? (t ? http::Response::simple_text(st, std::string(text)) : http::Response::simple_text(st))
		                                  : http::Response::simple(st, o[1], std::string(text));
		std::string s = r.header.to_string();
		http::ResponseParser p;
		Q got = tup("err");
		try { p.parse(s.data(), s.data() + s.size()); if (p.is_good()) got = fields(p.req); else got = tup("more"); } catch (const std::exception &) {}
		L("simple", o[1], st, t, bytes(text), bytes(s), got, bytes(r.body));
	} else if (n == "hreq") {  // hreq,common(10),method,path,query,auth,host,origin,key,ver
		http::RequestHeader h;
		common(o, 1, h);
		h.method = X(o, 11); h.path = X(o, 12); h.query_string = X(o, 13); h.basic_authorization = X(o, 14); h.host = X(o, 15); h.origin = X(o, 16); h.sec_websocket_key = X(o, 17); h.sec_websocket_version = X(o, 18);
		roundtrip<http::RequestParser>("req", h, fields(h));
	} else if (n == "hresp") {  // common, status, text, accept, date, server
		http::ResponseHeader h;
		common(o, 1, h);
		h.status = I(o, 11); h.status_text = X(o, 12); h.sec_websocket_accept = X(o, 13); h.date = X(o, 14); h.server = X(o, 15);
		http::ResponseHeader w = h;
		if (w.status_text.empty()) w.status_text = http::status_to_string(w.status);
		roundtrip<http::ResponseParser>("resp", h, fields(w));
	}
}
void drv::run_script(Script &s) { for (auto &o : s.cfg) op(o); }
