// Common part of all drivers: scripts in, recorded events out.
//   script line:  cfg ops # handler block / handler block ... # env block / env block ...
//   an op is name,arg,arg...; blocks are consumed one per handler invocation / blocking OS wait.
#pragma once
#include <crab/crab.hpp>
#include <cstddef>
#include <sanitizer/asan_interface.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "fk.hpp"

namespace drv {
// the same bytes as each of the character types there are overloads for
template<class F> static auto as_type(size_t which, const void *p, F f) -> decltype(f((const uint8_t *)p)) {
#if __cplusplus >= 201703L
	if (which % 3 == 2) return f((const std::byte *)p);
#endif
	return which % 3 == 1 ? f((const char *)p) : f((const uint8_t *)p);
}
template<class F> static auto as_space(size_t which, void *p, F f) -> decltype(f((uint8_t *)p)) {
#if __cplusplus >= 201703L
	if (which % 3 == 2) return f((std::byte *)p);
#endif
	return which % 3 == 1 ? f((char *)p) : f((uint8_t *)p);
}

typedef std::vector<std::string> Op;
typedef std::vector<Op> Block;

struct Script {
	Block cfg;
	std::vector<Block> h, e;
	size_t hp = 0, ep = 0;
	const Block *next_h() { return hp < h.size() ? &h[hp++] : nullptr; }
	const Block *next_e() { return ep < e.size() ? &e[ep++] : nullptr; }
	bool done() const { return hp >= h.size() && ep >= e.size(); }
};
inline std::vector<std::string> split(const std::string &s, char c) {
	std::vector<std::string> r;
	std::string cur;
	for (char x : s)
		if (x == c) { r.push_back(cur); cur.clear(); } else cur += x;
	r.push_back(cur);
	return r;
}
inline Block parse_block(const std::string &s) {
	Block b;
	std::istringstream is(s);
	std::string t;
	while (is >> t) b.push_back(split(t, ','));
	return b;
}
inline Script parse_script(const std::string &line) {
	Script s;
	auto parts = split(line, '#');
	parts.resize(3);
	s.cfg = parse_block(parts[0]);
	for (auto &b : split(parts[1], '/')) s.h.push_back(parse_block(b));
	for (auto &b : split(parts[2], '/')) s.e.push_back(parse_block(b));
	return s;
}
inline int I(const Op &o, size_t i) { return i < o.size() ? atoi(o[i].c_str()) : 0; }

// hex <-> bytes, for payloads in scripts
inline std::string unhex(const std::string &h) {
	std::string r;
	for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
	return r;
}

extern FILE *out;
struct Q { std::string s; };  // preformatted JSON
inline void put(std::string &o, int v) { o += std::to_string(v); }
inline void put(std::string &o, long v) { o += std::to_string(v); }
inline void put(std::string &o, long long v) { o += std::to_string(v); }
inline void put(std::string &o, unsigned long v) { o += std::to_string(v); }
inline void put(std::string &o, unsigned v) { o += std::to_string(v); }
inline void put(std::string &o, bool v) { o += v ? "true" : "false"; }
inline void put(std::string &o, const Q &v) { o += v.s; }
inline void put(std::string &o, const std::string &v) {
	o += '"';
	for (unsigned char c : v) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	o += '"';
}
inline void put(std::string &o, const char *v) { put(o, std::string(v)); }
template<class T>
inline void put(std::string &o, const std::vector<T> &v) {
	o += '[';
	for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; put(o, v[i]); }
	o += ']';
}
inline void putall(std::string &) {}
template<class T, class... A>
inline void putall(std::string &o, const T &t, const A &...a) { o += ','; put(o, t); putall(o, a...); }
template<class... A>
inline void L(const char *name, const A &...a) {
	std::string o = "[";
	put(o, name);
	putall(o, a...);
	o += "]\n";
	fwrite(o.data(), 1, o.size(), out);
}
// bytes as a JSON array of small ints
inline Q bytes(const std::string &s) {
	Q q; q.s = "[";
	for (size_t i = 0; i < s.size(); ++i) { if (i) q.s += ','; q.s += std::to_string((unsigned char)s[i]); }
	q.s += ']';
	return q;
}
void run_script(Script &s);  // supplied by each driver
}  // namespace drv

#ifdef DRV_MAIN
namespace drv {
FILE *out = nullptr;
static void on_death() { if (out) { fflush(out); } }
}
#include <signal.h>
static void on_abort(int) { drv::on_death(); _exit(97); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=98:handle_abort=0:allocator_may_return_null=1"; }
int main(int argc, char **argv) {
	// drv SCRIPTS OUT START STEP
	using namespace drv;
	std::vector<std::string> lines;
	{
		std::ifstream is(argv[1]);
		std::string l;
		while (std::getline(is, l)) lines.push_back(l);
	}
	size_t start = (size_t)atol(argv[3]), step = (size_t)atol(argv[4]);
	out = fopen(argv[2], "a");
	static char buf[1 << 16];
	setvbuf(out, buf, _IOFBF, sizeof buf);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(on_death);
#endif
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_abort;
	sigaction(SIGABRT, &sa, nullptr);
	sigaction(SIGALRM, &sa, nullptr);
	for (size_t i = start; i < lines.size(); i += step) {
		fprintf(out, "#B %zu\n", i);
		fflush(out);
		fk::reset();
		Script s = parse_script(lines[i]);
		alarm(20);
		try {
			run_script(s);
		} catch (const std::exception &ex) {
			L("exception", ex.what());
		}
		alarm(0);
		fprintf(out, "#E %zu\n", i);
	}
	fclose(out);
	_exit(0);
}
#endif
