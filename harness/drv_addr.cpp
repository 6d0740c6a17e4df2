// crab::Address against Addr.tla
#define DRV_MAIN
#include "drv.hpp"
#include <sstream>
using namespace drv;
using namespace crab;
static void tells(const Address &a) {
	std::stringstream ss;
	ss << a;
	uint32_t v = a.get_ip4();
	L("tells", bytes(a.get_address()), (int)a.get_port(), bytes(a.to_string()), a.is_multicast(), a.is_local(), bytes(std::string((char *)&v, 4)), bytes(ss.str()));
}
void drv::run_script(Script &s) {
	Address a;
	L("new", 0);
	tells(a);
	for (auto &o : s.cfg) {
		const std::string &n = o[0];
		std::string t = o.size() > 1 ? unhex(o[1]) : "";
		if (n == "new") {
			a = Address{};
			L("new", 0);
		} else if (n == "ip") {
			uint16_t p = (uint16_t)I(o, 2);
			bool ok = false;
			try {
				ok = Address::parse(a, t, p);
				L("ip", bytes(t), (int)p, ok);
			} catch (const std::exception &) { L("ip", bytes(t), (int)p, "throws"); }
			tells(a);
			bool made = true;
			try {
				Address b(t, p);
				if (ok) tells(b);
			} catch (const std::exception &) { made = false; }
			L("ip", bytes(t), (int)p, made);
		} else if (n == "both") {
			bool ok = false;
			try {
				ok = Address::parse(a, t);
				L("both", bytes(t), 0, ok);
			} catch (const std::exception &) { L("both", bytes(t), 0, "throws"); }
			tells(a);
			bool made = true;
			try {
				Address b(t);
				if (ok) tells(b);
			} catch (const std::exception &) { made = false; }
			L("both", bytes(t), 0, made);
		} else if (n == "again") {  // its own text gives the same address
			std::string u = a.to_string();
			bool ok = true;
			try {
				a = Address(u);
			} catch (const std::exception &) { ok = false; }
			L("both", bytes(u), 0, ok);
		}
		tells(a);
	}
}
