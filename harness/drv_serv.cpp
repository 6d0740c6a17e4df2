// HTTP server with web sockets; clients are raw byte streams (HttpServ).
#define DRV_MAIN
#include "drv.hpp"
#include <arpa/inet.h>
#include <errno.h>
using namespace drv;
using namespace crab;
static const int NK = 6;
// What the application writes to: a client of http::Server or a connection of its own
struct Who {
	virtual ~Who() = default;
	virtual bool is_open() const = 0;
	virtual int port() const = 0;
	virtual uint64_t get_body_position() const = 0;
	virtual void write(http::Response &&) = 0;
	virtual void write(http::WebMessage &&) = 0;
	virtual void write(std::string &&, BufferOptions) = 0;
	virtual void write_raw(size_t type, const std::string &, BufferOptions) = 0;
	virtual void write_last_chunk(BufferOptions) = 0;
	virtual void start_write_stream(http::ResponseHeader &, Handler &&) = 0;
	virtual void start_write_stream(http::WebMessageOpcode, Handler &&) = 0;
	virtual void postpone_response(Handler &&) = 0;
	virtual void web_socket_upgrade(http::Client::WS_handler &&) = 0;
	virtual bool close() = 0;
};
struct Via : Who {
	http::Client *c = nullptr;
	bool is_open() const override { return c->is_open(); }
	int port() const override { return c->get_peer_address().get_port(); }
	uint64_t get_body_position() const override { return c->get_body_position(); }
	void write(http::Response &&r) override { c->write(std::move(r)); }
	void write(http::WebMessage &&m) override { c->write(std::move(m)); }
	void write(std::string &&g, BufferOptions bo) override { c->write(std::move(g), bo); }
	void write_raw(size_t type, const std::string &g, BufferOptions bo) override { as_type(type, g.data(), [&](auto p) { c->write(p, g.size(), bo); }); }
	void write_last_chunk(BufferOptions bo) override { c->write_last_chunk(bo); }
	void start_write_stream(http::ResponseHeader &h, Handler &&cb) override { c->start_write_stream(h, std::move(cb)); }
	void start_write_stream(http::WebMessageOpcode o, Handler &&cb) override { c->start_write_stream(o, std::move(cb)); }
	void postpone_response(Handler &&cb) override { c->postpone_response(std::move(cb)); }
	void web_socket_upgrade(http::Client::WS_handler &&cb) override { c->web_socket_upgrade(std::move(cb)); }
	bool close() override { return false; }
};
// A connection used without http::Server, and used again for the next client
static void own_request(Who *, http::Request &&);
static void own_accept();
struct Own : Who {
	http::ServerConnection c{[this] { handler(); }};
	bool used = false, close_sent = false;
	int gen = 0;
	uint64_t pos = 0;
	Handler d, rwd;
	http::Client::WS_handler ws;
	bool is_open() const override { return c.is_open(); }
	int port() const override { return c.get_peer_address().get_port(); }
	uint64_t get_body_position() const override { return pos; }
	void write(http::Response &&r) override {
		if (r.header.date.empty()) r.header.date = http::Server::get_date();
		if (r.header.server.empty()) r.header.server = "own";
		c.write(std::move(r));
		d = nullptr;
	}
	void write(http::WebMessage &&m) override { close_sent = close_sent || m.is_close(); c.write(std::move(m)); }
	void wrote(size_t n) { pos += n; if (!c.is_writing_body()) rwd = nullptr; }
	void write(std::string &&g, BufferOptions bo) override { auto n = g.size(); c.write(std::move(g), bo); wrote(n); }
	void write_raw(size_t type, const std::string &g, BufferOptions bo) override { as_type(type, g.data(), [&](auto p) { c.write(p, g.size(), bo); }); wrote(g.size()); }
	void write_last_chunk(BufferOptions bo) override { c.write_last_chunk(bo); rwd = nullptr; }
	void call() {
		auto cb = std::move(rwd);
		rwd = nullptr;
		cb();
		if (!rwd && c.is_writing_body()) rwd = std::move(cb);
	}
	void start_write_stream(http::ResponseHeader &h, Handler &&cb) override {
		if (h.date.empty()) h.date = http::Server::get_date();
		if (h.server.empty()) h.server = "own";
		c.write(h);
		d = nullptr;
		rwd = std::move(cb);
		pos = 0;
		call();
	}
	void start_write_stream(http::WebMessageOpcode o, Handler &&cb) override { c.write(o); rwd = std::move(cb); pos = 0; call(); }
	void postpone_response(Handler &&cb) override { d = std::move(cb); }
	void web_socket_upgrade(http::Client::WS_handler &&cb) override { c.web_socket_upgrade(); d = nullptr; ws = std::move(cb); close_sent = false; }
	void forget() { d = nullptr; rwd = nullptr; ws = nullptr; used = false; ++gen; }
	bool close() override { c.close(); forget(); return true; }
	void message(http::WebMessage &&m) {
		auto cb = ws;
		int g = gen;
		if (m.opcode == http::WebMessageOpcode::CLOSE) ws = nullptr;
		try {
			if (cb) cb(std::move(m));
		} catch (const std::exception &ex) {
			if (g == gen) write(http::WebMessage{http::WebMessageOpcode::CLOSE, ex.what(), http::WebMessage::CLOSE_STATUS_ERROR});
		}
	}
	void handler() {
		if (!used) return;
		if (!c.is_open()) {
			if (d) { auto cb = std::move(d); d = nullptr; cb(); }
			if (rwd) call();
			message(http::WebMessage{http::WebMessageOpcode::CLOSE, {}, close_sent ? http::WebMessage::CLOSE_STATUS_NORMAL : http::WebMessage::CLOSE_STATUS_DISCONNECT});
			forget();
			own_accept();
			return;
		}
		http::WebMessage m;
		http::Request r;
		if (rwd) call();
		while (true) {
			if (c.read_next(m)) message(std::move(m));
			else if (c.read_next(r)) {
				try {
					own_request(this, std::move(r));
				} catch (const http::ErrorAuthorization &ex) {
					if (c.get_state() == http::ServerConnection::RESPONSE_HEADER) {
						http::Response a;
						a.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
						a.header.status = 401;
						a.header.content_length = 0;
						write(std::move(a));
					}
				} catch (const std::exception &ex) {
					if (c.get_state() == http::ServerConnection::RESPONSE_HEADER) write(http::Response::simple_text(422, ex.what()));
				}
			} else break;
		}
	}
};
struct Item { std::string kind, data, log; size_t end; bool begun = false; };
struct P {
	bool inc = false;
	std::shared_ptr<fk::Fd> f;
	// the client side
	std::string outq;       // bytes not yet sent
	size_t queued = 0, sent = 0;
	std::deque<Item> items; // not yet completely sent
	bool dead = false;      // eof or error was sent
	bool pre = false;       // everything is sent before the server accepts
	size_t seen = 0;
	bool open = true, roomy = true;
	// the application's view
	Who *who = nullptr;
	Via via;
	std::string mode;       // "", req, post, stream, ws
	bool wstream = false;
	bool bye = false;       // was handed CLOSE while still connected
	int id = 0;
	long len = 0, n = 0;
};
static P p[NK];
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
static std::unique_ptr<http::Server> server;
static std::unique_ptr<TCPAcceptor> acceptor;
static std::list<Own> pool;
static std::shared_ptr<fk::Fd> AF;
static Script *sc;
static RunLoop *loop;
static int handlers, waits, ctr, nk, nacc, nheld;
static int64_t t0;
static int now() { return (int)((fk::now_ns - t0) / 1000000); }   // the clock
static int lnow() {  // what the loop says
	return (int)((std::chrono::duration_cast<std::chrono::nanoseconds>(loop->now().time_since_epoch()).count() - t0) / 1000000);
}
static bool opn(int k) { return p[k].who && p[k].who->is_open(); }
static char pat(int id, long i) { return (char)('a' + (id * 7 + i) % 26); }
static std::string gen(int id, long from, long n) { std::string s; for (long i = 0; i < n; ++i) s += pat(id, from + i); return s; }
static std::string wgen(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)('A' + ctr++ % 50); return s; }
static void exec(const Block &b, int cur, const char *ctx);
static bool body(int k, const char *ctx) {
	if (++handlers > 400) { L("toomany"); loop->cancel(); return true; }
	auto b = sc->next_h();
	if (!b) return false;
	exec(*b, k, ctx);
	return true;
}
static int which(Who *who) {
	for (int k = 0; k < nk; ++k) if (who->port() == 9000 + k) return k;
	return -1;
}
static void put(int k, int n, BufferOptions bo);
static void last(int k, BufferOptions bo);
static void wire(int k);
static void stream_handler(int k, int id) {
	auto &x = p[k];
	std::string pad(100, 'p');
	bool op = x.who && x.who->is_open();
	if (!op) wire(k);  // what was sent before
	L("hs", k, id, op);
	if (!op) { x.who = nullptr; x.mode = x.mode == "ws" ? x.mode : ""; x.wstream = false; L("ret"); return; }
	if (!body(k, "s")) {
		if (x.wstream) { put(k, 2, WRITE); last(k, WRITE); }
		else if (x.mode == "stream") { if (x.len < 0) { put(k, 2, WRITE); last(k, WRITE); } else put(k, (int)(x.len - x.n), WRITE); }
	}
	L("ret");
}
static Handler mk_stream(int k, int id) {
	std::string pad(64, 'q');
	return [k, id, pad]() { stream_handler(k, id); if (pad != std::string(64, 'q')) L("corrupt"); };
}
static void done(int k) { p[k].mode = ""; p[k].who = nullptr; }
static void put(int k, int n, BufferOptions bo) {
	auto &x = p[k];
	bool lazy = bo == BUFFER_ONLY;
	if (!x.who) return;
	if (x.wstream) {
		auto g = wgen(n);
		L("wput", k, bytes(g), lazy, lnow());
		if (n % 2) x.who->write(std::move(g), bo); else x.who->write_raw(g.size() / 2, g, bo);
		return;
	}
	if (x.mode != "stream") return;
	if (x.len >= 0) n = (int)std::min<long>(n, x.len - x.n);
	auto g = gen(x.id, x.n, n);
	x.n += n;
	bool fin = x.len >= 0 && x.n == x.len;
	auto who = x.who;
	L("sput", k, n, fin, lazy);
	if (fin) done(k);
	auto before = who->get_body_position();
	if (n % 2) who->write(std::move(g), bo); else who->write_raw(g.size() / 2, g, bo);
	if (who->get_body_position() != before + (uint64_t)n) L("position", k);
}
static void last(int k, BufferOptions bo) {
	auto &x = p[k];
	if (!x.who) return;
	bool lazy = bo == BUFFER_ONLY;
	if (x.wstream) { L("wlast", k, lazy, lnow()); x.wstream = false; x.who->write_last_chunk(bo); return; }
	if (x.mode != "stream" || x.len >= 0) return;
	auto who = x.who;
	L("slast", k, lazy);
	done(k);
	who->write_last_chunk(bo);
}
static void ws_message(int k, http::WebMessage &&m) {
	auto &x = p[k];
	L("wmsg", k, (int)m.opcode, bytes(m.body), m.opcode == http::WebMessageOpcode::CLOSE ? (int)m.close_code : 0, x.who ? x.who->is_open() : false, lnow());
	bool cl = m.opcode == http::WebMessageOpcode::CLOSE;
	try {
		body(k, "w");
	} catch (const std::exception &ex) {
		if (x.mode != "ws") { L("ret"); throw; }
		L("wthr", k, bytes(ex.what()), lnow());
		if (cl && opn(k)) x.bye = true;
		else if (cl) done(k);
		L("ret");
		throw;
	}
	if (cl && opn(k)) x.bye = true;
	else if (cl) done(k);
	L("ret");
}
// the date the library gives now; the seconds it may be of
static const std::string OWN = "Thu, 29 Feb 2024 23:59:59 GMT";
static void date(int k, const std::string &own = {}) {
	if (!own.empty()) { L("dated", k, p[k].id, bytes(own)); return; }
	auto t = http::Server::get_date();
	int64_t lo = (fk::wall_ns + loop->now().time_since_epoch().count() - 1000000000LL) / 1000000000LL, hi = (fk::wall_ns + fk::now_ns) / 1000000000LL;
	L("dated", k, p[k].id, bytes(t));
	L("date", k, p[k].id, (int)(lo / 86400), (int)(lo % 86400), (int)(hi / 86400), (int)(hi % 86400), bytes(t));
}
static void answer(int k, const Op &o, const char *ctx) {
	auto &x = p[k];
	const std::string &n = o[0];
	auto who = x.who;
	if (!who || (x.mode != "req" && x.mode != "post")) return;
	int status = 200 + x.id % 7;
	if (n == "ok" || n == "okc") {
		http::Response r;
		r.header.status = status;
		r.header.headers.push_back({"x-id", std::to_string(x.id)});
		int len = I(o, 2);
		if (n == "okc") { r.header.transfer_encoding_chunked = true; r.body = gen(x.id, 0, len); }
		else r.set_body(gen(x.id, 0, len));
		if (x.id % 5 == 4) r.header.date = OWN;
		date(k, r.header.date);
		L("ans", k, status, len);
		done(k);
		who->write(std::move(r));
	} else if (n == "str" || n == "strc") {
		http::ResponseHeader h;
		h.status = status;
		h.headers.push_back({"x-id", std::to_string(x.id)});
		x.len = n == "strc" ? -1 : I(o, 2);
		x.n = 0;
		if (x.len >= 0) h.content_length = (uint64_t)x.len;
		else h.transfer_encoding_chunked = true;
		x.mode = "stream";
		if (x.id % 5 == 4) h.date = OWN;
		date(k, h.date);
		L("sbeg", k, status, x.len);
		who->start_write_stream(h, mk_stream(k, x.id));
	} else if (n == "post") {
		if (std::string(ctx) != "r") return;
		x.mode = "post";
		L("post", k);
		who->postpone_response([k] {
			L("dcall", k);
			p[k].who = nullptr; p[k].mode = "";
			body(k, "d");
			L("ret");
		});
	} else if (n == "up") {
		L("up", k, lnow());
		try {
			who->web_socket_upgrade([k](http::WebMessage &&m) { int kk = k; ws_message(kk, std::move(m)); });
		} catch (const std::exception &ex) {
			if (std::string(ctx) == "r") throw;
			return;
		}
		x.mode = "ws";
		x.wstream = false;
	}
}
static void flush_client(int k, size_t n) {
	auto &x = p[k];
	if (!x.f || x.f->fd < 0 || x.dead) return;
	if (n == 0 || n > x.outq.size()) n = x.outq.size();
	if (!n) return;
	std::string s = x.outq.substr(0, n);
	x.outq.erase(0, n);
	x.sent += n;
	while (!x.items.empty()) {
		auto &it = x.items.front();
		if (!it.begun && x.sent > it.end - it.data.size()) { it.begun = true; L("bg", k, it.kind); }
		if (x.sent < it.end) break;
		std::string o = it.log + "\n";
		fwrite(o.data(), 1, o.size(), out);
		x.items.pop_front();
	}
	fk::peer_send(x.f.get(), s);
}
static void add_item(int k, const std::string &kind, const std::string &data, const std::string &log) {
	auto &x = p[k];
	Item it; it.kind = kind; it.data = data; it.log = log;
	x.outq += data;
	x.queued += data.size();
	it.end = x.queued;
	x.items.push_back(it);
}
static void os_state(int k);
static void exec(const Block &b, int cur, const char *ctx) {
	for (auto &o : b) {
		const std::string &n = o[0];
		if (n == "inc") {
			if (nk >= NK) continue;
			int k = nk++;
			p[k].inc = true;
			L("inc", k);
			fk::incoming(AF.get(), 9000 + k);
			continue;
		}
		if (n == "thr" || n == "auth") {
			if (std::string(ctx) == "w" && n == "thr") throw Boom(o.size() > 1 ? std::string((size_t)I(o, 1), 'e') : "boom");
			if (std::string(ctx) != "r") continue;
			if (n == "auth") throw http::ErrorAuthorization("boom" + std::to_string(p[cur].id));
			throw Boom("boom" + std::to_string(p[cur].id));
		}
		if (n == "sp") { fk::default_space = I(o, 1); continue; }
		if (n == "ms") { fk::default_max_send = I(o, 1); continue; }
		if (n == "mr") { fk::default_max_recv = I(o, 1); continue; }
		if (n == "mb") { fk::max_batch = I(o, 1); continue; }
		if (n == "age") { fk::now_ns += 1000000LL * I(o, 1); continue; }
		if (n == "max" || o.size() < 2 || o[1].empty()) continue;
		int k = o[1] == "." ? cur : I(o, 1);
		if (k < 0 || k >= NK) continue;
		auto &x = p[k];
		bool conn = x.f && x.f->fd >= 0;
		if (x.bye && !conn) done(k);
		// clients
		if (n == "pre") x.pre = true;
		else if (n == "q") {  // q,k,id,ver,ka,blen,up,hex
			std::string log = "[\"it\"," + std::to_string(k) + ",[\"rq\"," + o[2] + "," + o[3] + "," + o[4] + "," + o[5] + "," + o[6] + "]]";
			add_item(k, "rq", unhex(o[7]), log);
		} else if (n == "f") {  // f,k,fin,op,payloadhex,wirehex
			add_item(k, "fr", unhex(o[5]), "[\"it\"," + std::to_string(k) + ",[\"fr\"," + o[2] + "," + o[3] + "," + bytes(unhex(o[4])).s + "]]");
		} else if (n == "bad") {
			add_item(k, "mal", unhex(o[2]), "[\"it\"," + std::to_string(k) + ",[\"mal\"]]");
		} else if (n == "snd") flush_client(k, (size_t)I(o, 2));
		else if (n == "cls" && conn && x.who && x.who->is_open()) {  // the application closes it
			os_state(k);
			if (x.f->fd < 0) continue;
			auto who = x.who;
			if (pool.empty()) continue;
			L("cls", k);
			x.open = x.roomy = false;
			done(k);
			x.bye = x.wstream = false;
			who->close();
			own_accept();
		}
		else if (n == "peof" && conn && !x.dead) { L("peof", k); x.dead = true; fk::peer_eof(x.f.get()); }
		else if (n == "perr" && conn && !x.dead) { L("perr", k); x.dead = true; fk::peer_err(x.f.get(), ECONNRESET); }
		else if (n == "space" && conn && I(o, 2) > 0) { fk::add_space(x.f.get(), I(o, 2)); }
		// the application
		else if (n == "ok" || n == "okc" || n == "str" || n == "strc" || n == "post" || n == "up") answer(k, o, k == cur || n != "up" ? ctx : "x");
		else if (n == "put") put(k, I(o, 2), WRITE);
		else if (n == "putb") put(k, I(o, 2), BUFFER_ONLY);
		else if (n == "last") last(k, WRITE);
		else if (n == "lastb") last(k, BUFFER_ONLY);
		else if ((n == "wt" || n == "wb") && x.mode == "ws" && x.who && !x.wstream) {
			auto g = wgen(I(o, 2));
			L("wsend", k, n == "wt" ? 1 : 2, bytes(g), 0, lnow());
			x.who->write(http::WebMessage(n == "wt" ? http::WebMessageOpcode::TEXT : http::WebMessageOpcode::BINARY, g));
		} else if (n == "wping" && x.mode == "ws" && x.who) {
			auto g = wgen(std::max(1, I(o, 2)));
			L("wsend", k, 9, bytes(g), 0, lnow());
			x.who->write(http::WebMessage(http::WebMessageOpcode::PING, g));
		} else if (n == "wc" && x.mode == "ws" && x.who) {
			auto g = wgen(I(o, 3));
			L("wsend", k, 8, bytes(g), I(o, 2), lnow());
			x.who->write(http::WebMessage(http::WebMessageOpcode::CLOSE, g, (uint16_t)I(o, 2)));
		} else if (n == "ws" && x.mode == "ws" && x.who && !x.wstream && x.who->is_open()) {
			int op = I(o, 2) == 2 ? 2 : 1;
			L("wsbeg", k, op);
			x.wstream = true;
			x.who->start_write_stream(op == 1 ? http::WebMessageOpcode::TEXT : http::WebMessageOpcode::BINARY, mk_stream(k, 0));
		}
	}
}
static void os_state(int k);
static void on_request(Who *who, http::Request &&r);
static void on_request(http::Client *who, http::Request &&r) {
	Via v;
	v.c = who;
	int k = which(&v);
	if (k < 0) { L("unknown"); return; }
	p[k].via = v;
	on_request(&p[k].via, std::move(r));
}
static void own_request(Who *who, http::Request &&r) { on_request(who, std::move(r)); }
static void own_accept() {
	for (auto &o : pool) if (!o.used && acceptor->can_accept()) { o.used = true; o.c.accept(*acceptor); }
}
static void on_request(Who *who, http::Request &&r) {
	int k = which(who);
	if (k < 0) { L("unknown"); return; }
	auto &x = p[k];
	os_state(k);
	int id = r.header.path.size() > 2 ? atoi(r.header.path.c_str() + 2) : -1;
	L("hreq", k, id, r.header.http_version_major * 10 + r.header.http_version_minor, r.header.keep_alive ? 1 : 0, (int)r.body.size(),
	    r.body == gen(id, 0, (long)r.body.size()) && r.header.host == "h" + std::to_string(k) && !r.header.transfer_encoding_chunked);
	x.who = who;
	x.mode = "req";
	x.id = id;
	try {
		body(k, "r");
		if (x.mode == "req" && x.id == id) answer(k, {"ok", ".", "3"}, "r");
	} catch (const std::exception &ex) {
		bool auth = dynamic_cast<const http::ErrorAuthorization *>(&ex) != nullptr;
		bool boom = auth || dynamic_cast<const Boom *>(&ex);
		if (x.mode == "req" || x.mode == "post") date(k);
		L("thr", k, auth ? 401 : 422, auth || boom);
		if (x.mode == "req" || x.mode == "post") done(k);
		L("ret");
		throw;
	}
	L("ret");
}
static void wire(int k) {
	auto &x = p[k];
	if (x.f && x.f->tx.size() != x.seen) { L("wire", k, bytes(x.f->tx.substr(x.seen)), now()); x.seen = x.f->tx.size(); }
}
static void os_state(int k) {
	auto &x = p[k];
	if (!x.f || k >= nacc) return;
	auto &f = *x.f;
	wire(k);
	bool op = f.fd >= 0, room = op && f.space > 0;
	if (op != x.open || room != x.roomy) { L("os", k, op, room, now()); x.open = op; x.roomy = room; }
}
static void on_wait(int timeout) {
	int open = 0;
	for (int k = 0; k < nk; ++k) { os_state(k); if (k < nacc && p[k].f->fd >= 0) ++open; }
	L("sleep", now(), timeout, nk - nacc, open);
	if (++waits > 300) { L("toomany"); loop->cancel(); return; }
	auto b = sc->next_e();
	if (b) exec(*b, 0, "e");
	if (!b && !fk::any_ready()) {
		bool retry = timeout < RunLoop::MAX_SLEEP_MS;
		if (!retry || waits > 60) { loop->cancel(); return; }
	}
	if (!fk::any_ready()) fk::now_ns += timeout * 1000000LL;
	else fk::now_ns += 1000000;
}
void drv::run_script(Script &s) {
	sc = &s;
	static int64_t base = 0;  // the clock never goes back
	fk::now_ns += base;
	fk::wall_ns = 1600000000LL * 1000000000LL - fk::now_ns;
	for (auto &o : s.cfg) if (o[0] == "wall") fk::wall_ns = atoll(o[1].c_str()) * 1000000000LL - fk::now_ns;
	t0 = fk::now_ns;
	handlers = waits = ctr = nk = nacc = nheld = 0;
	for (auto &x : p) x = P();
	std::cout.setstate(std::ios::badbit);
	RunLoop rl;
	loop = &rl;
	http::Server::Settings st;
	for (auto &o : s.cfg) if (o[0] == "max") st.max_connections = (size_t)I(o, 1);
	bool own = false;
	for (auto &o : s.cfg) if (o[0] == "pool") own = true;
	if (own) {
		for (size_t i = 0; i < st.max_connections; ++i) pool.emplace_back();
		acceptor.reset(new TCPAcceptor(Address("127.0.0.1", 80), own_accept, st));
	} else {
		server.reset(new http::Server(Address("127.0.0.1", 80), st));
		server->r_handler = [](http::Client *who, http::Request &&r) { on_request(who, std::move(r)); };
	}
	AF = fk::last_of(fk::LISTEN);
	L("max", (int)st.max_connections);
	fk::on_accept = [](int fd, int e) {  // taken from the OS; served only when there is room for it
		if (e) return;
		int k = nheld++;
		p[k].f = fk::last_tcp();
		if (p[k].pre) flush_client(k, 0);
	};
	fk::on_register = [](int fd) {
		if (nacc >= nheld || !p[nacc].f || p[nacc].f->fd != fd) return;
		int k = nacc++, open = 0;
		for (int i = 0; i <= k; ++i) if (p[i].f->fd >= 0) ++open;
		p[k].open = true; p[k].roomy = p[k].f->space > 0;
		L("acc", k, ntohs(reinterpret_cast<sockaddr_in &>(p[k].f->remote).sin_port) - 9000, p[k].roomy, open);
	};
	fk::on_shutdown = [](int fd) { for (int k = 0; k < nk; ++k) if (p[k].f && p[k].f->fd == fd && !p[k].f->shut) { os_state(k); L("fin", k, lnow()); } };
	exec(s.cfg, 0, "e");
	fk::on_wait = on_wait;
	rl.run();
	server.reset();
	acceptor.reset();
	pool.clear();
	base += fk::now_ns - t0 + 10000000000LL;
}
