// Buffered TCP sockets on one loop (BufTcp).
#define DRV_MAIN
#include "drv.hpp"
#include <errno.h>
using namespace drv;
using namespace crab;
static const int NB = 2;
static std::unique_ptr<BufferedTCPSocket> S[NB];
static std::unique_ptr<TCPAcceptor> A;
static std::shared_ptr<fk::Fd> AF;
struct C { std::shared_ptr<fk::Fd> f; size_t seen = 0; bool open = true; };
static std::vector<C> cs;
static std::deque<int> to_accept;
static Script *sc;
static RunLoop *loop;
static int handlers, waits, ctr;
static int64_t t0;
static int now() { return (int)((fk::now_ns - t0) / 1000000); }
static std::string gen(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(ctr++ % 251); return s; }
static void exec(const Block &b);
static int cur[NB];  // connection of each socket, 1-based
static void state(int s) {
	if (!S[s]) return;
	L("st", s, S[s]->is_open(), (int)S[s]->get_total_buffer_size(), cur[s] ? (int)cs[cur[s] - 1].f->tx.size() : 0);
}
static size_t rd(int s, int n) {
	std::unique_ptr<uint8_t[]> d(new uint8_t[n]);
	size_t r = as_space((size_t)n, d.get(), [&](auto p) { return S[s]->read_some(p, (size_t)n); });
	if (r > (size_t)n) { L("toolong"); return 0; }
	L("rd", s, n, bytes(std::string((char *)d.get(), r)));
	return r;
}
static void drain(int s) { for (int i = 0; i < 300 && S[s] && rd(s, 7); ++i) {} }
static void body(int s) {
	if (++handlers > 500) { L("toomany"); loop->cancel(); return; }
	state(s);
	auto b = sc->next_h();
	if (b) exec(*b);
	else if (S[s]) drain(s);
	L("ret");
}
static void new_sock(int s) {
	S[s].reset(new BufferedTCPSocket([s] { int k = s; L("h", k, S[k]->is_open(), now()); body(k); }));
	cur[s] = 0;
	L("new", s);
}
static void put(int s, const std::string &g, const std::string &how) {
	bool lazy = how == "b" || how == "B" || how == "o" || how == "O";
	L("put", s, bytes(g), lazy);
	if (how == "b") as_type(g.size(), g.data(), [&](auto p) { S[s]->buffer(p, g.size()); });
	else if (how == "B") S[s]->buffer(std::string(g));
	else if (how == "o") as_type(g.size(), g.data(), [&](auto p) { S[s]->write(p, g.size(), BUFFER_ONLY); });
	else if (how == "O") S[s]->write(std::string(g), BUFFER_ONLY);
	else if (how == "W") S[s]->write(std::string(g));
	else as_type(g.size(), g.data(), [&](auto p) { S[s]->write(p, g.size()); });
	state(s);
}
static bool some(int s, int n) {
	auto g = gen(n);
	size_t t = S[s]->get_total_buffer_size();
	size_t r = as_type(g.size(), g.data(), [&](auto p) { return S[s]->write_some(p, g.size()); });
	L("some", s, bytes(g), (int)r, (int)t);
	state(s);
	return r != 0;
}
static fk::Fd *conn(int k) { return k >= 0 && k < (int)cs.size() && cs[k].f->fd >= 0 ? cs[k].f.get() : nullptr; }
static void exec(const Block &b) {
	for (auto &o : b) {
		const std::string &n = o[0];
		int k = I(o, 1);
		bool sok = k >= 0 && k < NB && S[k];
		fk::Fd *c = conn(k);
		bool up = c && c->connected && !c->rx_eof && !c->err;
		if (n == "new" && !S[k]) new_sock(k);
		else if (n == "del" && sok) { S[k].reset(); L("del", k); }
		else if (n == "conn" && sok) {
			std::string m = o.size() > 2 ? o[2] : "";
			fk::connect_immediately = m == "imm";
			if (m == "fail") fk::fail_connect = ENETUNREACH;
			if (m == "nosock") fk::fail_socket = EMFILE;
			bool refused = m == "fail" || m == "nosock";
			bool ok = S[k]->connect(Address("10.0.0.1", (uint16_t)(7000 + k)));
			fk::fail_connect = fk::fail_socket = 0;
			if (ok) { C x; x.f = fk::last_tcp(); cs.push_back(x); cur[k] = (int)cs.size(); }
			L("conn", k, ok, refused, ok ? (int)cs.size() : 0, m == "imm", ok ? (int)cs.back().f->space : 0);
			state(k);
		} else if (n == "inc" && sok) { to_accept.push_back(k); fk::incoming(AF.get(), 9000 + (int)cs.size()); }
		else if (n == "close" && sok) { S[k]->close(); L("close", k, false); state(k); }
		else if (n == "closee" && sok) { S[k]->close(true); L("close", k, true); state(k); }
		else if (n == "rd" && sok) { rd(k, I(o, 2)); if (S[k]) state(k); }
		else if (n == "rdall" && sok) { drain(k); state(k); }
		else if (n == "put" && sok) put(k, gen(I(o, 2)), o.size() > 3 ? o[3] : "w");
		else if (n == "some" && sok) some(k, I(o, 2));
		else if (n == "sall" && sok) { for (int i = 0; i < 40 && some(k, I(o, 2)); ++i) {} }
		else if (n == "sd" && sok) { L("sd", k); S[k]->write_shutdown(); state(k); }
		// the world outside
		else if (n == "psend" && up) { auto g = gen(I(o, 2)); L("psend", k + 1, bytes(g)); fk::peer_send(c, g); }
		else if (n == "pbig" && up) { fk::peer_send(c, std::string((size_t)I(o, 2), 'x')); L("psend", k + 1, bytes(std::string((size_t)I(o, 2), 'x'))); }
		else if (n == "peof" && up) { L("peof", k + 1, (int)c->rx.size()); fk::peer_eof(c); }
		else if (n == "perr" && up) { L("perr", k + 1, (int)c->rx.size()); fk::peer_err(c, ECONNRESET); }
		else if (n == "cok" && c && c->connecting) { L("cok", k + 1); fk::connect_ok(c); }
		else if (n == "cfail" && c && c->connecting) { L("cfail", k + 1); fk::connect_fail(c, ECONNREFUSED); }
		else if (n == "space" && c && I(o, 2) > 0) { L("space", k + 1, I(o, 2)); fk::add_space(c, I(o, 2)); }
		else if (n == "age") fk::now_ns += 1000000LL * k;
		else if (n == "sp") fk::default_space = k;
		else if (n == "ms") fk::default_max_send = k;
		else if (n == "mr") fk::default_max_recv = k;
		else if (n == "mb") fk::max_batch = k;
	}
}
static void seen() {
	for (size_t i = 0; i < cs.size(); ++i) {
		auto &c = cs[i];
		auto &f = *c.f;
		bool op = f.fd >= 0;
		if (f.tx.size() != c.seen || op != c.open) {
			L("seen", (int)i + 1, bytes(f.tx.substr(c.seen)), op);
			c.seen = f.tx.size(); c.open = op;
		}
	}
}
static void on_wait(int timeout) {
	seen();
	for (int i = 0; i < NB; ++i) state(i);
	L("sleep", now(), timeout);
	if (++waits > 300) { L("toomany"); loop->cancel(); return; }
	auto b = sc->next_e();
	if (b) exec(*b);
	if (!b && !fk::any_ready()) {
		bool retry = timeout < RunLoop::MAX_SLEEP_MS;
		if (!retry || waits > 250) { loop->cancel(); return; }
	}
	if (!fk::any_ready()) fk::now_ns += timeout * 1000000LL;
	else fk::now_ns += 1000000;
}
void drv::run_script(Script &s) {
	sc = &s;
	t0 = fk::now_ns;
	handlers = waits = ctr = 0;
	cs.clear();
	to_accept.clear();
	std::cout.setstate(std::ios::badbit);
	RunLoop rl;
	loop = &rl;
	fk::on_shutdown = [](int fd) { for (size_t i = 0; i < cs.size(); ++i) if (cs[i].f->fd == fd && !cs[i].f->shut) L("osfin", (int)i + 1, (int)cs[i].f->tx.size(), now()); };
	for (auto &o : s.cfg) {
		Block one{o};
		if (o[0] == "sp" || o[0] == "ms" || o[0] == "mr" || o[0] == "mb") exec(one);
	}
	for (int i = 0; i < NB; ++i) new_sock(i);
	A.reset(new TCPAcceptor(Address("127.0.0.1", 80), [] {
		while (A->can_accept() && !to_accept.empty()) {
			int k = to_accept.front();
			to_accept.pop_front();
			if (!S[k]) new_sock(k);
			S[k]->accept(*A);
			C x; x.f = fk::last_tcp(); cs.push_back(x); cur[k] = (int)cs.size();
			L("acc", k, (int)cs.size(), (int)cs.back().f->space);
			state(k);
		}
	}));
	AF = fk::last_of(fk::LISTEN);
	exec(s.cfg);
	L("ret");
	fk::on_wait = on_wait;
	rl.run();
	for (auto &x : S) x.reset();
	A.reset();
}
