// integer_cast, IntegerSaver, safe_add and relatives against Numbers.tla
#define DRV_MAIN
#include "drv.hpp"
#include <cmath>
#include <crab/integer_cast.hpp>
using namespace drv;
using namespace crab;
// decimal text and back, not with the functions under test
template<class T> static std::string txt(T v) { return std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
template<class T> static T val(const std::string &s) { return std::is_signed<T>::value ? (T)strtoll(s.c_str(), nullptr, 10) : (T)strtoull(s.c_str(), nullptr, 10); }
template<class F> static auto tried(F f, bool &ok) -> decltype(f()) {
	ok = true;
	try {
		return f();
	} catch (const std::exception &) { ok = false; }
	return {};
}
template<class T, class S> static void cast(const std::string &tn, const std::string &sn, const std::string &a) {
	bool ok;
	S x = val<S>(a);
	T r = tried([&] { return integer_cast<T>(x); }, ok);
	L("cast", tn, sn, bytes(a), ok, bytes(txt(r)));
}
template<class T> static void opt(const char *n, const std::string &tn, const Op &o, bool ok, T r) { L(n, tn, bytes(o[2]), bytes(o[3]), ok, bytes(txt(r))); }
template<class T> static void run_op(const Op &o) {
	const std::string &n = o[0], &tn = o[1];
	bool ok;
	if (n == "parse") {
		std::string s = unhex(o[2]);
		std::unique_ptr<char[]> exact(new char[s.size()]);
		memcpy(exact.get(), s.data(), s.size());
		T r = tried([&] { return integer_cast<T>(exact.get(), s.size()); }, ok);
		L("parse", tn, bytes(s), ok, bytes(txt(r)));
		r = tried([&] { return integer_cast<T>(s); }, ok);
		L("parse", tn, bytes(s), ok, bytes(txt(r)));
		if (s.find('\0') == std::string::npos) {
			r = tried([&] { return integer_cast<T>(s.c_str()); }, ok);
			L("parse", tn, bytes(s), ok, bytes(txt(r)));
		}
	} else if (n == "cast") {
		const std::string &sn = o[2], &a = o[3];
		if (sn == "i8") cast<T, int8_t>(tn, sn, a);
		if (sn == "u8") cast<T, uint8_t>(tn, sn, a);
		if (sn == "i16") cast<T, int16_t>(tn, sn, a);
		if (sn == "u16") cast<T, uint16_t>(tn, sn, a);
		if (sn == "i32") cast<T, int32_t>(tn, sn, a);
		if (sn == "u32") cast<T, uint32_t>(tn, sn, a);
		if (sn == "i64") cast<T, int64_t>(tn, sn, a);
		if (sn == "u64") cast<T, uint64_t>(tn, sn, a);
	} else if (n == "float") {  // float,type,f or d,mantissa,exponent
		bool neg = o[3][0] == '-';
		std::string m = neg ? o[3].substr(1) : o[3];
		double d = std::ldexp((double)strtoull(m.c_str(), nullptr, 10), I(o, 4)) * (neg ? -1 : 1);
		T r = o[2] == "f" ? tried([&] { return integer_cast<T>((float)d); }, ok) : tried([&] { return integer_cast<T>(d); }, ok);
		L("float", tn, neg ? -1 : 1, bytes(m), I(o, 4), ok, bytes(txt(r)));
	} else if (n == "nan") {
		double d = o[2] == "nan" ? std::nan("") : o[2] == "inf" ? INFINITY : -INFINITY;
		tried([&] { return integer_cast<T>(d); }, ok);
		L("nan", tn, ok);
		tried([&] { return integer_cast<T>((float)d); }, ok);
		L("nan", tn, ok);
	} else if (n == "save") {
		std::unique_ptr<IntegerSaver<T>> p(new IntegerSaver<T>(val<T>(o[2])));
		L("save", tn, bytes(o[2]), bytes(std::string(p->data(), p->size())));
	} else if (n == "add" || n == "sub") {
		T a = val<T>(o[2]), b = val<T>(o[3]);
		bool add = n == "add";
		auto x = add ? safe_add_opt<T>(a, b) : safe_sub_opt<T>(a, b);
		opt<T>(n.c_str(), tn, o, bool(x), x ? *x : T{});
		T r = tried([&] { return add ? safe_add<T>(a, b) : safe_sub<T>(a, b); }, ok);
		opt<T>(n.c_str(), tn, o, ok, r);
	} else if (n == "abs") L("abs", tn, bytes(o[2]), bytes(txt(safe_abs<T>(val<T>(o[2])))));
}
void drv::run_script(Script &s) {
	for (auto &o : s.cfg) {
		if (o[1] == "i8") run_op<int8_t>(o);
		if (o[1] == "u8") run_op<uint8_t>(o);
		if (o[1] == "i16") run_op<int16_t>(o);
		if (o[1] == "u16") run_op<uint16_t>(o);
		if (o[1] == "i32") run_op<int32_t>(o);
		if (o[1] == "u32") run_op<uint32_t>(o);
		if (o[1] == "i64") run_op<int64_t>(o);
		if (o[1] == "u64") run_op<uint64_t>(o);
	}
}
