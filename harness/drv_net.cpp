// Sockets, acceptors, UDP sockets, signals, watchers and zero timers on one loop (Tcp, Acceptor, Udp, Notify).
#define DRV_MAIN
#include "drv.hpp"
#include <arpa/inet.h>
#include <errno.h>
using namespace drv;
using namespace crab;
static const int NS = 3, NA = 2, NU = 2, NX = 6;
static std::unique_ptr<TCPSocket> S[NS];
static std::unique_ptr<TCPAcceptor> A[NA];
static std::unique_ptr<UDPReceiver> UR;      // u = 0
static std::unique_ptr<UDPTransmitter> UT;   // u = 1
static std::unique_ptr<Signal> G[3];         // x = 0 (control) 1 2
static std::unique_ptr<Watcher> W[2];        // x = 3 4
static std::unique_ptr<Timer> TM;            // x = 5
static const std::vector<int> SIGS[3] = {{2}, {10, 12}, {15}};
struct C { std::shared_ptr<fk::Fd> f; size_t seen = 0; bool open = true; };
static std::vector<C> cs;
static std::shared_ptr<fk::Fd> AF[NA], UF[NU];
static size_t useen[NU];
static Script *sc;
static RunLoop *loop;
static int handlers, waits, ctr, nextport, injected;
static int64_t t0;
static int now() { return (int)((fk::now_ns - t0) / 1000000); }
static std::string gen(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(ctr++ % 251); return s; }
static int port_of(const sockaddr_storage &s) { return ntohs(reinterpret_cast<const sockaddr_in &>(s).sin_port); }
static Address addr(const char *ip, int port) { return Address(ip, (uint16_t)port); }
static void exec(const Block &b);
static void body(const std::function<void()> &dflt) {
	if (++handlers > 500) { L("toomany"); loop->cancel(); return; }
	auto b = sc->next_h();
	if (b) exec(*b);
	else dflt();
	L("ret");
}
static void rd(int s, int n) {
	std::unique_ptr<uint8_t[]> d(new uint8_t[n]);
	size_t r = S[s]->read_some(d.get(), (size_t)n);
	if (r > (size_t)n) { L("toolong"); return; }
	L("rd", s, n, bytes(std::string((char *)d.get(), r)));
}
static bool last0;
static size_t rdx(int s, int n) {
	std::unique_ptr<uint8_t[]> d(new uint8_t[n]);
	size_t r = S[s]->read_some(d.get(), (size_t)n);
	L("rd", s, n, bytes(std::string((char *)d.get(), r <= (size_t)n ? r : 0)));
	return r;
}
static void drain(int s) { for (int i = 0; i < 300 && S[s] && rdx(s, 7); ++i) {} }
static void new_sock(int s) {
	S[s].reset(new TCPSocket([s] { int k = s; L("h", k, S[k]->is_open()); body([k] { drain(k); }); }));
	L("new", s);
}
static void can(int a) { bool b = A[a]->can_accept(); L("can", a, b); }
static void do_acc(int s, int a) {
	Address p;
	bool inj = injected != 0;
	S[s]->accept(*A[a], &p);
	injected = 0; fk::fail_epoll_ctl = 0;
	// the accepted descriptor: the one whose peer has that port
	for (size_t i = fk::history.size(); i-- > 0;)
		if (fk::history[i]->kind == fk::TCP && port_of(fk::history[i]->remote) == p.get_port()) { C c; c.f = fk::history[i]; cs.push_back(c); break; }
	L("acc", s, a, (int)p.get_port(), inj, (int)cs.size(), (int)cs.back().f->space);
}
static void new_acc(int a) {
	A[a].reset(new TCPAcceptor(addr("127.0.0.1", 80 + a), [a] {
		int k = a;
		L("ah", k, now());
		body([k] { for (int i = 0; i < 50 && A[k]; ++i) { can(k); if (!A[k]->can_accept()) { can(k); break; } if (!S[2]) new_sock(2); do_acc(2, k); } });
	}));
	AF[a] = fk::last_of(fk::LISTEN);
	L("anew", a);
}
static int ud_dest(int u) { return u == 1 ? 5001 : 6000; }
static bool ur(int u, int n) {
	Address p;
	std::unique_ptr<uint8_t[]> d(new uint8_t[n]);
	optional<size_t> r;
	bool direct = u == 0 && n == 50;
	std::string got;
	if (direct) {
		std::unique_ptr<UDPReceiver::DatagramBuffer> b(new UDPReceiver::DatagramBuffer);
		size_t k = UR->read_datagrams(b.get(), 1);
		if (k) { got = std::string((char *)b->data, b->count); p = b->peer_addr; }
		L("ur", u, 65507, k == 1, bytes(got), k ? (int)p.get_port() : 0);
		return k != 0;
	}
	r = u == 0 ? UR->read_datagram(d.get(), (size_t)n, &p) : UT->read_datagram(d.get(), (size_t)n, &p);
	if (r) got = *r <= (size_t)n ? std::string((char *)d.get(), *r) : std::string("toolong");
	L("ur", u, n, bool(r), bytes(got), r ? (int)p.get_port() : 0);
	return bool(r);
}
static bool uw(int u, int n) {
	std::string g = gen(n);
	bool ok = u == 0 ? UR->write_datagram((const uint8_t *)g.data(), g.size(), addr("10.0.0.9", 6000)) : UT->write_datagram((const uint8_t *)g.data(), g.size());
	L("uw", u, bytes(g), ud_dest(u), ok);
	L("ucw", u, u == 0 ? UR->can_write() : UT->can_write());
	return ok;
}
static void new_udp(int u) {
	auto h = [u] { int k = u; L("uh", k); body([k] { for (int i = 0; i < 100 && (k == 0 ? !!UR : !!UT) && ur(k, 9); ++i) {} }); };
	if (u == 0) UR.reset(new UDPReceiver(addr("127.0.0.1", 5000), h));
	else UT.reset(new UDPTransmitter(addr("10.0.0.9", 5001), h));
	UF[u] = fk::last_of(fk::UDP);
	useen[u] = 0;
	L("unew", u, (int)UF[u]->space);
}
static void mask() {
	std::vector<int> m;
	for (int i = 1; i < 64; ++i) if (fk::blocked & (1ULL << i)) m.push_back(i);
	L("mask", m);
}
static void new_sig(int x) {
	G[x].reset(new Signal([x] { int k = x; L("nh", k); body([] {}); }, SIGS[x]));
	L("nnew", x, SIGS[x]);
	mask();
}
static void new_w(int x) {
	W[x - 3].reset(new Watcher([x] { int k = x; L("nh", k); body([] {}); }));
	L("nnew", x, std::vector<int>());
}
static void new_t() {
	TM.reset(new Timer([] { L("nh", 5); body([] {}); }));
	L("nnew", 5, std::vector<int>());
}
static fk::Fd *conn(int k) { return k >= 0 && k < (int)cs.size() && cs[k].f->fd >= 0 ? cs[k].f.get() : nullptr; }
static void state(int s) { if (S[s]) L("open", s, S[s]->is_open(), S[s]->can_write()); }
static void exec(const Block &b) {
	for (auto &o : b) {
		const std::string &n = o[0];
		int k = I(o, 1);
		bool sok = k >= 0 && k < NS && S[k];
		if (n == "new" && !S[k]) { new_sock(k); }
		else if (n == "del" && sok) { S[k].reset(); L("del", k); }
		else if (n == "conn" && sok) {
			std::string m = o.size() > 2 ? o[2] : "";
			fk::connect_immediately = m == "imm";
			if (m == "fail") fk::fail_connect = o.size() > 3 ? I(o, 3) : ENETUNREACH;
			if (m == "nosock") fk::fail_socket = EMFILE;
			if (m == "noep") fk::fail_epoll_ctl = ENOSPC;
			bool refused = m == "fail" || m == "nosock" || m == "noep";
			bool ok = S[k]->connect(addr("10.0.0.1", 7000 + k));
			fk::fail_connect = fk::fail_socket = fk::fail_epoll_ctl = 0;
			if (ok) { C c; c.f = fk::last_tcp(); cs.push_back(c); }
			L("conn", k, ok, refused, ok ? (int)cs.size() : 0, m == "imm", ok ? (int)cs.back().f->space : 0);
			state(k);
		} else if (n == "close" && sok) { S[k]->close(); L("close", k, false); state(k); }
		else if (n == "closee" && sok) { S[k]->close(true); L("close", k, true); state(k); }
		else if (n == "rd" && sok) { rd(k, I(o, 2)); if (S[k]) state(k); }
		else if (n == "rd2" && sok) {
			int a = I(o, 2), c = I(o, 3);
			std::unique_ptr<uint8_t[]> d(new uint8_t[a]), d2(new uint8_t[c]);
			size_t r = S[k]->read_some(d.get(), (size_t)a, d2.get(), (size_t)c);
			std::string got((char *)d.get(), std::min<size_t>(r, (size_t)a));
			if (r > (size_t)a) got += std::string((char *)d2.get(), std::min<size_t>(r - (size_t)a, (size_t)c));
			L("rd", k, a + c, bytes(got));
			if (r > (size_t)(a + c)) L("toolong");
			state(k);
		} else if (n == "rdall" && sok) { drain(k); state(k); }
		else if (n == "wr" && sok) {
			auto g = gen(I(o, 2));
			size_t r = S[k]->write_some((const uint8_t *)g.data(), g.size());
			L("wr", k, bytes(g), r);
			state(k);
		} else if (n == "wrall" && sok) {
			for (int i = 0; i < 40; ++i) {
				auto g = gen(I(o, 2));
				size_t r = S[k]->write_some((const uint8_t *)g.data(), g.size());
				L("wr", k, bytes(g), r);
				if (!r) break;
			}
			state(k);
		} else if (n == "wrv" && sok) {
			std::deque<Buffer> q;
			std::string all;
			for (size_t i = 2; i < o.size(); ++i) {
				int c = I(o, i);
				q.emplace_back((size_t)c + 3);
				uint8_t junk[64];
				int off = (int)((i * 2 + (size_t)c) % ((size_t)c + 3));  // contents wrap around
				auto g = gen(c);
				if (c) {
					std::string pre(off, 'z');
					q.back().write(pre.data(), pre.size());
					q.back().write((const uint8_t *)g.data(), 1);
					q.back().read(junk, (size_t)off);
					q.back().write((const uint8_t *)g.data() + 1, g.size() - 1);
				}
				all += g;
			}
			size_t r = S[k]->write_some(q);
			L("wr", k, bytes(all), r);
			state(k);
		} else if (n == "wsh" && sok) { bool cw = S[k]->can_write(); L("wsh", k, cw); S[k]->write_shutdown(); state(k); }
		else if (n == "anew" && !A[k]) new_acc(k);
		else if (n == "adel" && A[k]) { A[k].reset(); L("adel", k); }
		else if (n == "can" && A[k]) can(k);
		else if (n == "acc" && sok && A[I(o, 2)] && A[I(o, 2)]->can_accept()) { can(I(o, 2)); if (o.size() > 3) { injected = 1; fk::fail_epoll_ctl = ENOMEM; } do_acc(k, I(o, 2)); state(k); }
		else if (n == "accall" && A[k]) {
			for (int i = 0; i < 50; ++i) { can(k); if (!A[k]->can_accept()) { can(k); break; } if (!S[i % NS]) new_sock(i % NS); do_acc(i % NS, k); }
		}
		else if (n == "unew" && (k == 0 ? !UR : !UT)) new_udp(k);
		else if (n == "udel" && (k == 0 ? !!UR : !!UT)) { if (k == 0) UR.reset(); else UT.reset(); L("udel", k); }
		else if (n == "ur" && (k == 0 ? !!UR : !!UT)) ur(k, I(o, 2));
		else if (n == "urall" && (k == 0 ? !!UR : !!UT)) { for (int i = 0; i < 100 && ur(k, I(o, 2)); ++i) {} }
		else if (n == "uw" && (k == 0 ? !!UR : !!UT)) uw(k, I(o, 2));
		else if (n == "uwall" && (k == 0 ? !!UR : !!UT)) { for (int i = 0; i < 20 && uw(k, I(o, 2)); ++i) {} }
		else if (n == "gnew" && !G[k]) new_sig(k);
		else if (n == "gdel" && k && G[k]) { G[k].reset(); L("ndel", k); mask(); }
		else if (n == "wnew" && !W[k]) new_w(k + 3);
		else if (n == "wdel" && W[k]) { W[k].reset(); L("ndel", k + 3); }
		else if (n == "wcall" && W[k]) { W[k]->call(); L("ncall", k + 3); }
		else if (n == "wcan" && W[k]) { W[k]->cancel(); L("ncan", k + 3); }
		else if (n == "tarm" && TM) { TM->once(0); L("narm", 5); }
		else if (n == "tcan" && TM) { TM->cancel(); L("ncan", 5); }
		else if (n == "tdel" && TM) { TM.reset(); L("ndel", 5); }
		else if (n == "tnew" && !TM) new_t();
		// the world outside
		else if (n == "psend" && conn(k) && conn(k)->connected && !conn(k)->rx_eof && !conn(k)->err) { auto g = gen(I(o, 2)); L("psend", k + 1, bytes(g)); fk::peer_send(conn(k), g); }
		else if (n == "peof" && conn(k) && conn(k)->connected && !conn(k)->rx_eof && !conn(k)->err) { L("peof", k + 1); fk::peer_eof(conn(k)); }
		else if (n == "perr" && conn(k) && conn(k)->connected && !conn(k)->rx_eof && !conn(k)->err) { L("perr", k + 1); fk::peer_err(conn(k), ECONNRESET); }
		else if (n == "cok" && conn(k) && conn(k)->connecting) { L("cok", k + 1); fk::connect_ok(conn(k)); }
		else if (n == "cfail" && conn(k) && conn(k)->connecting) { L("cfail", k + 1); fk::connect_fail(conn(k), ECONNREFUSED); }
		else if (n == "space" && conn(k) && I(o, 2) > 0) { L("space", k + 1, I(o, 2)); fk::add_space(conn(k), I(o, 2)); }
		else if (n == "inc" && A[k]) { int p = nextport++; L("inc", k, p); fk::incoming(AF[k].get(), p); }
		else if (n == "aerr" && A[k]) {
			static const int es[] = {-EMFILE, -ENFILE, -ENOBUFS, -ENOMEM, -EPROTO, ECONNABORTED, EPERM, -EINTR};
			AF[k]->accept_errs.push_back(es[I(o, 2) % 8]);
		}
		else if (n == "uarr" && UF[k] && UF[k]->fd >= 0) { auto g = gen(I(o, 2)); L("uarr", k, bytes(g), nextport); fk::udp_arrive(UF[k].get(), g, nextport++); }
		else if (n == "uerr" && UF[k] && UF[k]->fd >= 0 && UF[k]->uerrs.size() < 1) { L("uerr", k); UF[k]->uerrs.push_back(ECONNREFUSED); fk::edge(UF[k].get()); }
		else if (n == "upers" && UF[k] && UF[k]->fd >= 0) { L("upers", k); for (int i = 0; i < 200; ++i) UF[k]->uerrs.push_back(ENETDOWN); fk::edge(UF[k].get()); }
		else if (n == "userr" && UF[k] && UF[k]->fd >= 0) { L("userr", k); UF[k]->serrs.push_back(ECONNREFUSED); }
		else if (n == "uspace" && UF[k] && UF[k]->fd >= 0) { L("uspace", k, I(o, 2)); fk::add_space(UF[k].get(), I(o, 2)); }
		else if (n == "sig") { bool ok = fk::signal_process(k); L("sig", k, ok); }
		else if (n == "sp") fk::default_space = k;
		else if (n == "ms") fk::default_max_send = k;
		else if (n == "mr") fk::default_max_recv = k;
		else if (n == "mb") fk::max_batch = k;
	}
}
static void seen() {
	for (size_t i = 0; i < cs.size(); ++i) {
		auto &c = cs[i];
		auto &f = *c.f;
		bool op = f.fd >= 0;
		if (f.tx.size() != c.seen || op != c.open) {
			L("seen", (int)i + 1, bytes(f.tx.substr(c.seen)), op);
			c.seen = f.tx.size(); c.open = op;
		}
	}
	for (int u = 0; u < NU; ++u)
		if (UF[u] && UF[u]->fd >= 0 && UF[u]->utx.size() != useen[u]) {
			Q q; q.s = "[";
			for (size_t i = useen[u]; i < UF[u]->utx.size(); ++i) {
				if (i != useen[u]) q.s += ',';
				q.s += "[" + bytes(UF[u]->utx[i].data).s + "," + std::to_string(port_of(UF[u]->utx[i].from)) + "]";
			}
			q.s += "]";
			useen[u] = UF[u]->utx.size();
			L("useen", u, q);
		}
}
static void on_wait(int timeout) {
	seen();
	int left = 0;
	for (auto &f : fk::history) if (f->kind == fk::SIGNALFD && f->fd >= 0) left += (int)f->sigs.size();
	L("sleep", timeout, now(), left);
	if (++waits > 300) { L("toomany"); loop->cancel(); return; }
	auto b = sc->next_e();
	if (b) exec(*b);
	if (!b && !fk::any_ready()) {
		bool retry = timeout < RunLoop::MAX_SLEEP_MS;
		if (!retry || waits > 250) { loop->cancel(); return; }
	}
	if (!fk::any_ready()) fk::now_ns += timeout * 1000000LL;
	else fk::now_ns += 1000000;
}
void drv::run_script(Script &s) {
	sc = &s;
	t0 = fk::now_ns;
	handlers = waits = ctr = injected = 0;
	nextport = 10001;
	cs.clear();
	for (auto &f : AF) f.reset();
	for (auto &f : UF) f.reset();
	std::cout.setstate(std::ios::badbit);
	RunLoop rl;
	loop = &rl;
	fk::on_accept = [](int fd, int e) {
		for (int a = 0; a < NA; ++a)
			if (AF[a] && AF[a]->fd == fd)
				L("osacc", a, e == 0 ? "ok" : e == EAGAIN ? "again" : (e == ECONNABORTED || e == EPERM) ? "abort" : e == EINTR ? "intr" : "limit", now());
	};
	fk::on_shutdown = [](int fd) { for (size_t i = 0; i < cs.size(); ++i) if (cs[i].f->fd == fd) L("osfin", (int)i + 1); };
	for (auto &o : s.cfg) {  // limits apply to everything created later
		Block one{o};
		if (o[0] == "sp" || o[0] == "ms" || o[0] == "mr" || o[0] == "mb") exec(one);
	}
	for (int i = 0; i < NS; ++i) new_sock(i);
	new_sig(0);
	exec(s.cfg);
	L("ret");
	fk::on_wait = on_wait;
	rl.run();
	for (auto &x : S) x.reset();
	for (auto &x : A) x.reset();
	UR.reset(); UT.reset();
	for (auto &x : G) x.reset();
	for (auto &x : W) x.reset();
	TM.reset();
}
