// Setting up and tearing down sockets, with failing system calls, against Sock.tla
#define DRV_MAIN
#include "drv.hpp"
#include <arpa/inet.h>
#include <map>
#include <netinet/in.h>
#include <sys/epoll.h>
using namespace drv;
using namespace crab;
// ips in scripts have _ for ,
static Q adr(const Address &a) { Q q; q.s = fk::addr_args(a.impl_get_sockaddr(), (size_t)a.impl_get_sockaddr_length()); return q; }
static Q text_adr(const std::string &ip, int port) {   // not through crab
	sockaddr_in a{}; sockaddr_in6 b{};
	Q q;
	if (inet_pton(AF_INET, ip.c_str(), &a.sin_addr) == 1) { a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); q.s = fk::addr_args(&a, sizeof a); }
	else if (inet_pton(AF_INET6, ip.c_str(), &b.sin6_addr) == 1) { b.sin6_family = AF_INET6; b.sin6_port = htons((uint16_t)port); q.s = fk::addr_args(&b, sizeof b); }
	else q.s = "[0,0,[]]";
	return q;
}
static Q adapter(const std::string &s) {   // [kind, index, address]
	Q q;
	if (s.empty()) q.s = "[\"any\",0,[0,0,0,0]]";
	else if (s == "eth0" || s == "lo") q.s = s == "lo" ? "[\"name\",1,[0,0,0,0]]" : "[\"name\",2,[0,0,0,0]]";
	else {
		in_addr a;
		if (inet_pton(AF_INET, s.c_str(), &a) == 1) {
			auto b = (const unsigned char *)&a;
			q.s = "[\"ip\",0,[" + std::to_string(b[0]) + "," + std::to_string(b[1]) + "," + std::to_string(b[2]) + "," + std::to_string(b[3]) + "]]";
		} else q.s = "[\"bad\",0,[0,0,0,0]]";
	}
	return q;
}
struct Obj {
	std::unique_ptr<TCPSocket> t;
	std::unique_ptr<TCPAcceptor> a;
	std::unique_ptr<UDPTransmitter> ut;
	std::unique_ptr<UDPReceiver> ur;
	std::unique_ptr<Signal> s;
};
static void at_end() {
	std::vector<int> u;
	fk::open_fds(u);
	L("open", u);
}
static std::vector<int> blocked() {
	std::vector<int> r;
	for (int i = 1; i < 64; ++i) if (fk::blocked & (1ULL << i)) r.push_back(i);
	return r;
}
template<class F>
static bool made(F f) {
	try { f(); return true; } catch (const std::exception &) { return false; }
}
void drv::run_script(Script &s) {
	fk::on_sys = [](const char *call, int uid, const std::string &args, int err) { Q q; q.s = args; L("sys", call, uid, q, err); };
	std::unique_ptr<RunLoop> loop;
	std::map<int, Obj> objs;
	auto h = [] {};
	for (auto &o : s.cfg) {
		const std::string &n = o[0];
		int id = I(o, 1);
		Obj &x = objs[id];
		if (n == "fault") {   // fault,call,k,errno: the k-th call from now on fails
			auto &d = fk::faults[o[1]];
			while ((int)d.size() < I(o, 2)) d.push_back(0);
			d.push_back(I(o, 3));
			continue;
		}
		if (n == "nofault") { fk::faults.clear(); continue; }
		if (n == "run") {
			if (!loop) continue;
			fk::on_wait = [&](int) { loop->cancel(); };
			loop->run();
			fk::on_wait = nullptr;
			continue;
		}
		if (n == "imm") { fk::connect_immediately = I(o, 1) != 0; continue; }
		if (n == "loop") {
			std::unique_ptr<RunLoop> l;
			bool ok = made([&] { l.reset(new RunLoop); });
			if (ok) loop = std::move(l);
			L("loop", ok);
		} else if (n == "loopdel") {
			if (!loop) continue;
			objs.clear();
			loop.reset();
			L("loopdel");
		} else if (!loop) continue;
		else if (n == "tc") {   // tc,id,ip,port,snd,rcv,delay
			if (!x.t) { x = Obj{}; x.t.reset(new TCPSocket(h)); L("replace", id); }
			TCPSocket::Settings st;
			st.sndbuf_size = (size_t)I(o, 4); st.rcvbuf_size = (size_t)I(o, 5); st.tcp_delay = I(o, 6) != 0;
			bool plain = !I(o, 4) && !I(o, 5) && !I(o, 6) && id % 2;
			Address a(o[2], (uint16_t)I(o, 3));
			try {
				bool ok = plain ? x.t->connect(a) : x.t->connect(a, st);
				if (ok && fk::connect_immediately && fk::last_tcp()) L("pok", fk::last_tcp()->uid);
				L("tc", id, text_adr(o[2], I(o, 3)), I(o, 4), I(o, 5), I(o, 6) != 0, ok, x.t->is_open());
			} catch (const std::exception &) { L("threw"); }
		} else if (n == "tclose") { if (!x.t) continue; x.t->close(); L("tclose", id, x.t->is_open());
		} else if (n == "pok") {
			int uid = 0;
			for (auto &f : fk::history) if (f->kind == fk::TCP && f->fd >= 0 && f->connecting) { fk::connect_ok(f.get()); uid = f->uid; break; }
			if (!uid) continue;
			L("pok", uid);
		} else if (n == "loc") { if (!x.t) continue; L("loc", id, adr(x.t->local_address()));
		} else if (n == "rem") { if (!x.t) continue; L("rem", id, adr(x.t->remote_address()));
		} else if (n == "ac") {   // ac,id,ip,port,raddr,rport,delay,snd,rcv
			if (x.t || x.a || x.ut || x.ur || x.s) { x = Obj{}; }
			L("replace", id);
			TCPAcceptor::Settings st;
			st.reuse_addr = I(o, 4) != 0; st.reuse_port = I(o, 5) != 0; st.tcp_delay = I(o, 6) != 0; st.sndbuf_size = (size_t)I(o, 7); st.rcvbuf_size = (size_t)I(o, 8);
			bool ok = made([&] { x.a.reset(new TCPAcceptor(Address(o[2], (uint16_t)I(o, 3)), h, st)); });
			L("ac", id, text_adr(o[2], I(o, 3)), I(o, 4) != 0, I(o, 5) != 0, I(o, 6) != 0, I(o, 7), I(o, 8), ok);
		} else if (n == "arrive") {   // arrive,port: at the last listener
			auto l = fk::last_of(fk::LISTEN);
			if (!fk::is_open(l) || !l->registered) continue;
			fk::incoming(l.get(), I(o, 1));
			L("arrive", l->uid, I(o, 1));
		} else if (n == "can") { if (!x.a) continue; x.a->can_accept(); bool r = x.a->can_accept(); L("can", id, r);
		} else if (n == "acc") {  // acc,acceptor,socket
			if (!x.a) continue;
			Obj &y = objs[I(o, 2)];
			if (&y == &x) continue;
			if (!y.t) { y = Obj{}; y.t.reset(new TCPSocket(h)); L("replace", I(o, 2)); }
			Address pa;
			bool ok = made([&] { y.t->accept(*x.a, &pa); });
			L("acc", id, I(o, 2), ok, ok ? adr(pa) : text_adr("", 0), y.t->is_open());
		} else if (n == "ut") {   // ut,id,ip,port,adapter
			x = Obj{};
			L("replace", id);
			bool ok = made([&] { x.ut.reset(o[4].empty() ? new UDPTransmitter(Address(o[2], (uint16_t)I(o, 3)), h) : new UDPTransmitter(Address(o[2], (uint16_t)I(o, 3)), h, o[4])); });
			L("ut", id, text_adr(o[2], I(o, 3)), adapter(o[4]), ok);
		} else if (n == "ttl") {
			if (!x.ut) continue;
			bool ok = made([&] { x.ut->set_multicast_ttl(I(o, 2)); });
			L("ttl", id, I(o, 2), ok);
		} else if (n == "ur") {   // ur,id,ip,port,adapter,snd,rcv
			x = Obj{};
			L("replace", id);
			UDPReceiver::Settings st;
			st.adapter = o[4]; st.sndbuf_size = (size_t)I(o, 5); st.rcvbuf_size = (size_t)I(o, 6);
			bool ok = made([&] { x.ur.reset(new UDPReceiver(Address(o[2], (uint16_t)I(o, 3)), h, st)); });
			L("ur", id, text_adr(o[2], I(o, 3)), adapter(o[4]), I(o, 5), I(o, 6), ok);
		} else if (n == "sg") {   // sg,id,signo;signo
			x = Obj{};
			L("replace", id);
			std::vector<int> v;
			if (!o[2].empty()) for (auto &t : split(o[2], ';')) v.push_back(atoi(t.c_str()));
			bool ok = made([&] { if (v.empty()) x.s.reset(new Signal(h)); else x.s.reset(new Signal(h, v)); });
			L("sg", id, v, ok, blocked());
		} else if (n == "del") {
			bool sg = !!x.s;
			x = Obj{};
			L("replace", id);
			if (sg) L("mask", id, blocked());
		}
		at_end();
	}
	fk::faults.clear();
	for (auto &p : objs) { bool any = p.second.t || p.second.a || p.second.ut || p.second.ur || p.second.s; p.second = Obj{}; if (any) { L("replace", p.first); } }
	at_end();
	if (loop) { loop.reset(); L("loopdel"); at_end(); }
}
