// HTTP client: ClientConnection (cfg op "conn" mode) and ClientRequestSimple (cfg op "simple"); the
// server is a raw byte stream, name lookups are answered by the script (HttpCli, HttpSimple).
#define DRV_MAIN
#include "drv.hpp"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <pthread.h>
#include <atomic>
#include <condition_variable>
#include <thread>
using namespace drv;
using namespace crab;

// ---------------------------------------------------------------- the lookup thread
// It runs only inside settle(): either blocked in a lookup, or waiting for work.
static std::mutex dm;
static std::condition_variable_any dc;  // own
static bool in_hook, released, worker_idle, draining;
static int answer_n;
static int dns_ctr, lookups;
static std::thread::id main_id;
static std::atomic<int> epoch;
static void nap() { usleep(50); }
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait");
	if (std::this_thread::get_id() != main_id) __atomic_store_n(&worker_idle, true, __ATOMIC_SEQ_CST);
	return real(c, m);
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) noexcept {
	static auto real = (int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_signal");
	__atomic_store_n(&worker_idle, false, __ATOMIC_SEQ_CST);
	return real(c);
}
static int lookup(const char *host, const char *service, int family, std::vector<sockaddr_storage> &res) {
	int n, id;
	{
		std::unique_lock<std::mutex> l(dm);
		if (draining) return EAI_NONAME;
		id = lookups++;
		L("dnsq", id, host, atoi(service), family == AF_INET ? 4 : family == AF_INET6 ? 6 : 0);
		released = false;
		__atomic_store_n(&in_hook, true, __ATOMIC_SEQ_CST);
	}
	for (;;) {
		std::unique_lock<std::mutex> l(dm);
		if (released) { n = answer_n; break; }
		l.unlock();
		nap();
	}
	for (int i = 0; i < n; ++i) res.push_back(fk::addr4(0x0A010000 + (id << 8) + i, atoi(service)));
	__atomic_store_n(&in_hook, false, __ATOMIC_SEQ_CST);
	return n ? 0 : EAI_NONAME;
}
static bool started;
static void settle() {
	if (!started) return;
	for (int i = 0; i < 100000; ++i) {
		if (__atomic_load_n(&in_hook, __ATOMIC_SEQ_CST) || __atomic_load_n(&worker_idle, __ATOMIC_SEQ_CST)) return;
		nap();
	}
	L("stuck");
}
static void dns_answer(int n) {
	if (!__atomic_load_n(&in_hook, __ATOMIC_SEQ_CST)) return;
	L("dns", lookups - 1, n);
	{
		std::unique_lock<std::mutex> l(dm);
		answer_n = n;
		released = true;
		__atomic_store_n(&worker_idle, false, __ATOMIC_SEQ_CST);
	}
	while (true) {  // gone on to the next lookup, or idle
		{ std::unique_lock<std::mutex> l(dm); if (!in_hook || !released) break; }
		nap();
	}
	settle();
}
// ---------------------------------------------------------------- SHA-1 and base64 for the handshake
static std::string accept_key(std::string s) {
	s += "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	uint64_t bits = s.size() * 8;
	s += (char)0x80;
	while (s.size() % 64 != 56) s += (char)0;
	for (int i = 7; i >= 0; --i) s += (char)(bits >> (8 * i));
	for (size_t o = 0; o < s.size(); o += 64) {
		uint32_t w[80];
		for (int i = 0; i < 16; ++i) w[i] = (uint32_t)(uint8_t)s[o + 4 * i] << 24 | (uint8_t)s[o + 4 * i + 1] << 16 | (uint8_t)s[o + 4 * i + 2] << 8 | (uint8_t)s[o + 4 * i + 3];
		auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
		for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; ++i) {
			uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
			uint32_t k = i < 20 ? 0x5A827999 : i < 40 ? 0x6ED9EBA1 : i < 60 ? 0x8F1BBCDC : 0xCA62C1D6;
			uint32_t t = rol(a, 5) + f + e + k + w[i];
			e = d; d = c; c = rol(b, 30); b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	std::string r, g;
	for (uint32_t x : h) for (int i = 3; i >= 0; --i) r += (char)(x >> (8 * i));
	const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	r += (char)0;
	for (size_t i = 0; i < 21; i += 3) {
		uint32_t v = (uint8_t)r[i] << 16 | (uint8_t)r[i + 1] << 8 | (uint8_t)r[i + 2];
		for (int j = 3; j >= 0; --j) g += T[(v >> (6 * j)) & 63];
	}
	g[27] = '=';
	return g;
}
// ---------------------------------------------------------------- the server
struct Item { std::string kind, data, log; size_t end; bool begun = false; };
static std::shared_ptr<fk::Fd> cur;
static int nsock, waits, handlers, ctr;
static size_t seen, queued, sent;
static std::string outq;
static std::deque<Item> items;
static bool dead, was_open, was_roomy;
static int64_t t0;
static Script *sc;
static RunLoop *loop;
static int now() { return (int)((fk::now_ns - t0) / 1000000); }
static int lnow() { return (int)((std::chrono::duration_cast<std::chrono::nanoseconds>(loop->now().time_since_epoch()).count() - t0) / 1000000); }
static char pat(int id, long i) { return (char)('a' + (id * 7 + i) % 26); }
static std::string gen(int id, long from, long n) { std::string s; for (long i = 0; i < n; ++i) s += pat(id, from + i); return s; }
static std::string wgen(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)('A' + ctr++ % 50); return s; }
static void os_state() {
	if (!cur) return;
	if (cur->tx.size() != seen) { L("wire", nsock - 1, bytes(cur->tx.substr(seen)), now()); seen = cur->tx.size(); }
	bool op = cur->fd >= 0, room = op && cur->connected && cur->space > 0;
	if (op != was_open || room != was_roomy) { L("os", op, room, now()); was_open = op; was_roomy = room; }
}
static void add_item(const std::string &kind, const std::string &data, const std::string &log) {
	if (!cur || cur->fd < 0) return;
	Item it; it.kind = kind; it.data = data; it.log = log;
	outq += data;
	queued += data.size();
	it.end = queued;
	items.push_back(it);
}
static void flush_server(size_t n) {
	if (!cur || cur->fd < 0 || dead || !cur->connected) return;
	if (n == 0 || n > outq.size()) n = outq.size();
	if (!n) return;
	std::string s = outq.substr(0, n);
	outq.erase(0, n);
	sent += n;
	while (!items.empty()) {
		auto &it = items.front();
		if (!it.begun && sent > it.end - it.data.size()) { it.begun = true; L("bg", it.kind); }
		if (sent < it.end) break;
		std::string o = it.log + "\n";
		fwrite(o.data(), 1, o.size(), out);
		items.pop_front();
	}
	fk::peer_send(cur.get(), s);
}
static void server_upgrade(int variant) {
	if (!cur || cur->fd < 0) return;
	std::string low = cur->tx;
	for (auto &c : low) c = (char)tolower(c);
	size_t p = low.find("sec-websocket-key:");
	std::string a = accept_key("");
	bool key = false;
	if (p != std::string::npos) {
		p += 18;
		size_t e = cur->tx.find("\r\n", p);
		if (e == std::string::npos) return;
		while (p < e && cur->tx[p] == ' ') ++p;
		a = accept_key(cur->tx.substr(p, e - p));
		key = true;
	}
	std::string st = "101 Switching Protocols", up = "upgrade: websocket\r\nconnection: upgrade\r\n", extra;
	bool good = variant % 8 == 0;
	if (!key) { if (variant % 8 == 7 || (variant % 8 >= 3 && variant % 8 <= 5)) variant = 0; good = false; }  // an upgrade nobody asked for
	switch (variant % 8) {
	case 1: a[variant / 8 % 27] ^= 1; break;
	case 2: a.resize(27); break;
	case 3: st = "200 OK"; break;
	case 4: up = "upgrade: websocket\r\nconnection: keep-alive\r\n"; break;
	case 5: up = "connection: upgrade\r\n"; break;
	case 6: extra = "content-length: 3\r\n"; break;
	case 7: a = ""; break;
	}
	if (variant % 8 == 3 && variant / 8 % 2) extra = "content-length: 2\r\n";
	std::string d = "HTTP/1.1 " + st + "\r\n" + up + (a.empty() ? std::string() : "sec-websocket-accept: " + a + "\r\n") + extra + "\r\n";
	add_item(good ? "up" : "upb", d, good ? "[\"it\",[\"up\"]]" : "[\"it\",[\"upb\"]]");
}
// ---------------------------------------------------------------- the application
static std::unique_ptr<http::ClientConnection> cc;
static std::unique_ptr<http::ClientRequestSimple> rq;
static bool simple, late;
static void exec(const Block &b);
static void read_all(bool once) {
	if (!cc) return;
	for (;;) {
		http::Response r;
		http::WebMessage m;
		if (cc->read_next(r)) {
			int id = -1;
			for (auto &h : r.header.headers) if (h.name == "x-id") id = atoi(h.value.c_str());
			L("rd", id, r.header.status, r.header.http_version_major * 10 + r.header.http_version_minor, r.header.keep_alive ? 1 : 0, (int)r.body.size(),
			    r.body == gen(id, 0, (long)r.body.size()), cc->is_open());
		} else if (cc->read_next(m)) {
			L("wmsg", (int)m.opcode, bytes(m.body), m.opcode == http::WebMessageOpcode::CLOSE ? (int)m.close_code : 0, cc->is_open(), lnow());
		} else { L("rdn"); return; }
		if (once) return;
	}
}
static void handler_body(bool dflt) {
	if (++handlers > 300) { L("toomany"); loop->cancel(); return; }
	auto b = sc->next_h();
	if (b) exec(*b);
	else if (dflt) read_all(false);
}
static void handler() {
	os_state();
	bool op = cc->is_open();
	L("h", op, lnow());
	handler_body(op);
	os_state();
	L("ret");
}
static http::Request mkreq(int id, int len, int kind) {
	http::Request r("wronghost", len || kind % 2 ? "POST" : "GET", "/r" + std::to_string(id));
	r.header.headers.push_back({"x-id", std::to_string(id)});
	if (len || kind % 2) r.set_body(gen(id, 0, len));
	if (kind & 2) r.header.keep_alive = false;
	if (kind & 4) r.header.http_version_minor = 0;
	return r;
}
static void make() {
	if (simple) {
		http::ClientRequestSimple::R_handler rh = [](http::Response &&r) {
			    os_state();
			    int id = -1;
			    for (auto &h : r.header.headers) if (h.name == "x-id") id = atoi(h.value.c_str());
			    L("rh", id, r.header.status, r.header.http_version_major * 10 + r.header.http_version_minor, r.header.keep_alive ? 1 : 0, (int)r.body.size(),
			        r.body == gen(id, 0, (long)r.body.size()), rq->is_open(), lnow());
			    handler_body(false);
			    os_state();
			    L("ret");
		    };
		http::ClientRequestSimple::E_handler eh = [](std::string &&) {
			    os_state();
			    L("eh", rq->is_open(), lnow());
			    handler_body(false);
			    os_state();
			    L("ret");
		    };
		if (late) { rq.reset(new http::ClientRequestSimple); rq->set_handlers(std::move(rh), std::move(eh)); }
		else rq.reset(new http::ClientRequestSimple(std::move(rh), std::move(eh)));
	} else {
		cc.reset(new http::ClientConnection(handler));
	}
}
static void exec(const Block &b) {
	for (auto &o : b) {
		const std::string &n = o[0];
		if (n == "sp") fk::default_space = I(o, 1);
		else if (n == "ms") fk::default_max_send = I(o, 1);
		else if (n == "mr") fk::default_max_recv = I(o, 1);
		else if (n == "mb") fk::max_batch = I(o, 1);
		else if (n == "ci") fk::connect_immediately = I(o, 1);
		else if (n == "fc") fk::fail_connect = I(o, 1) ? I(o, 1) : ENETUNREACH;
		else if (n == "fs") { fk::fail_socket = I(o, 1) ? I(o, 1) : EMFILE; }
		else if (n == "fe") { fk::fail_epoll_ctl = ENOMEM; }
		else if (n == "age") fk::now_ns += 1000000LL * I(o, 1);
		// the world
		else if (n == "dns") dns_answer(I(o, 1));
		else if (n == "cok") { if (cur && cur->fd >= 0 && cur->connecting) { L("cok"); fk::connect_ok(cur.get()); } }
		else if (n == "cfail") { if (cur && cur->fd >= 0 && cur->connecting) { L("cfail"); dead = true; fk::connect_fail(cur.get(), I(o, 1) ? I(o, 1) : ECONNREFUSED); } }
		else if (n == "r")  // r,id,status,ver,ka,len,hex
			add_item("rs", unhex(o[6]), "[\"it\",[\"rs\"," + o[1] + "," + o[2] + "," + o[3] + "," + o[4] + "," + o[5] + "]]");
		else if (n == "f")  // f,fin,op,payload,wire
			add_item("fr", unhex(o[4]), "[\"it\",[\"fr\"," + o[1] + "," + o[2] + "," + bytes(unhex(o[3])).s + "]]");
		else if (n == "bad") add_item("mal", unhex(o[1]), "[\"it\",[\"mal\"]]");
		else if (n == "sup") server_upgrade(I(o, 1));
		else if (n == "snd") flush_server((size_t)I(o, 1));
		else if (n == "peof") { if (cur && cur->fd >= 0 && cur->connected && !dead) { L("peof"); dead = true; fk::peer_eof(cur.get()); } }
		else if (n == "perr") { if (cur && cur->fd >= 0 && cur->connected && !dead) { L("perr"); dead = true; fk::peer_err(cur.get(), ECONNRESET); } }
		else if (n == "space") { if (cur && cur->fd >= 0 && I(o, 1) > 0) fk::add_space(cur.get(), I(o, 1)); }
		// the application, plain connection
		else if (n == "conn" && cc) {
			os_state();
			L("conn", I(o, 1));
			bool ok = cc->connect(Address("10.0.0.9", (uint16_t)I(o, 1)));
			L("connr", ok, cc->is_open());
		} else if (n == "conh" && cc) {
			os_state();
			L("conh", o[1], I(o, 2));
			started = true;
			bool ok = cc->connect(o[1], (uint16_t)I(o, 2), "http");
			settle();
			L("connr", ok, cc->is_open());
		} else if (n == "conr" && cc && cc->get_protocol() == "http") {  // again, named by what it tells itself
			os_state();
			L("conh", cc->get_host(), (int)cc->get_port());
			started = true;
			bool ok = cc->connect(cc->get_host(), cc->get_port(), cc->get_protocol());
			settle();
			L("connr", ok, cc->is_open());
		} else if (n == "close" && cc) {
			os_state();
			cc->close();
			L("close", cc->is_open());
			os_state();
		} else if (n == "req" && cc) {
			bool th = false;
			os_state();
			auto r = mkreq(I(o, 1), I(o, 2), I(o, 3));
			int ka = I(o, 3) & 2 ? 0 : 1, ver = I(o, 3) & 4 ? 10 : 11;
			L("req", I(o, 1), I(o, 2), ver, ka);
			try { cc->write(std::move(r)); } catch (const std::logic_error &) { th = true; }
			L("reqr", th);
		} else if (n == "upg" && cc) {
			bool th = false;
			os_state();
			http::RequestHeader h;
			h.path = "/u" + o[1];
			h.headers.push_back({"x-id", o[1]});
			L("upg", I(o, 1));
			try { cc->web_socket_upgrade(h); } catch (const std::logic_error &) { th = true; }
			L("reqr", th);
		} else if ((n == "wt" || n == "wb" || n == "wping" || n == "wc") && cc) {
			bool th = false;
			os_state();
			auto g = wgen(n == "wc" ? I(o, 2) : I(o, 1));
			int code = n == "wc" ? I(o, 1) : 0;
			int op = n == "wt" ? 1 : n == "wb" ? 2 : n == "wc" ? 8 : 9;
			L("wsend", op, bytes(g), code, lnow());
			try { cc->write(http::WebMessage((http::WebMessageOpcode)op, g, (uint16_t)code)); } catch (const std::logic_error &) { th = true; }
			L("reqr", th);
		} else if (n == "read" && cc) read_all(false);
		else if (n == "one" && cc) read_all(true);
		else if (n == "st" && cc) L("st", cc->is_open(), cc->get_host(), (int)cc->get_port());
		// the application, simple requests
		else if (n == "send" && rq) {
			bool th = false;
			os_state();
			auto r = mkreq(I(o, 1), I(o, 2), I(o, 3));
			int ka = I(o, 3) & 2 ? 0 : 1, ver = I(o, 3) & 4 ? 10 : 11;
			r.header.host = o[4];
			started = true;
			L("send", I(o, 1), I(o, 2), ver, ka, o[4], I(o, 5), lnow());
			try {
				if (I(o, 3) & 8 && ver == 11) {
					r.header.host = "wronghost";
					bool user = I(o, 3) & 16, query = I(o, 3) & 32;
					r.header.headers.push_back({"x-want", std::string(user ? "user" : "") + (query ? "query" : "")});
					std::string uri = "http://" + std::string(user ? "me%40x:p" + o[1] + "@" : "") + o[4] + (I(o, 5) == 80 ? std::string() : ":" + o[5]) + "/r" + o[1] + (query ? "?q=" + o[1] + "&r=%20+" : "");
					if (r.header.method == "GET") rq->get(uri, std::move(r)); else rq->send(uri, std::move(r));
				} else rq->send(std::move(r), (uint16_t)I(o, 5), "http");
			} catch (const std::logic_error &) { th = true; }
			settle();
			L("sendr", th, rq->is_open());
		} else if (n == "bads" && rq) {  // what cannot be sent: bads,how,host
			bool th = false;
			os_state();
			auto r = mkreq(9000, 0, 0);
			r.header.host = o[2];
			try {
				switch (I(o, 1)) {
				case 0: rq->send("https://" + o[2] + "/r", std::move(r)); break;
				case 1: rq->send(std::move(r), 443, "https"); break;
				case 2: rq->get("ftp://" + o[2] + ":21/r"); break;
				case 3: rq->send("ws://" + o[2] + "/r", std::move(r)); break;
				case 4: rq->get("http//" + o[2]); break;
				case 5: rq->get("http://" + o[2] + ":65536/r"); break;
				case 6: rq->send(std::move(r), 80, "HTTP"); break;
				default: rq->send(std::move(r), 80, ""); break;
				}
			} catch (const std::exception &) { th = true; }
			if (!th) started = true;
			settle();
			L("bads", th, rq->is_open());
		} else if (n == "badc" && cc) {  // badc,how,host
			bool th = false;
			os_state();
			static const char *P[] = {"https", "ftp", "", "HTTP"};
			try { cc->connect(o[2], 80, P[I(o, 1) % 4]); } catch (const std::exception &) { th = true; }
			if (!th) started = true;
			settle();
			L("badc", th, cc->is_open());
		} else if (n == "cancel" && rq) { os_state(); rq->cancel(); L("cancel", rq->is_open()); os_state(); }
		else if (n == "renew" && (rq || cc)) { os_state(); rq.reset(); cc.reset(); make(); if (simple) L("renew"); else L("cancel", false); os_state(); }
	}
}
static void on_wait(int timeout) {
	os_state();
	int open = 0;
	for (auto &f : fk::history) if (f->kind == fk::TCP && f->fd >= 0) ++open;
	L("sleep", now(), timeout, open);
	if (++waits > 200) { L("toomany"); loop->cancel(); return; }
	auto b = sc->next_e();
	if (b) exec(*b);
	if (!b && !fk::any_ready()) {
		bool retry = timeout < RunLoop::MAX_SLEEP_MS;
		if (!retry || waits > 60) { loop->cancel(); return; }
	}
	if (!fk::any_ready()) fk::now_ns += timeout * 1000000LL;
	else fk::now_ns += 1000000;
}
void drv::run_script(Script &s) {
	sc = &s;
	main_id = std::this_thread::get_id();
	t0 = fk::now_ns;
	nsock = waits = handlers = ctr = lookups = 0;
	cur.reset();
	outq.clear(); items.clear();
	draining = false;
	RunLoop rl;
	loop = &rl;
	fk::dns_hook = lookup;
	simple = false;
	for (auto &o : s.cfg) if (o[0] == "simple") { simple = true; late = I(o, 1) != 0; }
	fk::on_connect = [](int fd) {
		os_state();
		cur = fk::last_tcp();
		seen = queued = sent = 0;
		outq.clear(); items.clear();
		dead = false; was_open = true; was_roomy = false;
		++nsock;
		auto &a = reinterpret_cast<sockaddr_in &>(cur->remote);
		L("sock", nsock - 1, (int)ntohl(a.sin_addr.s_addr), (int)ntohs(a.sin_port), fk::fail_connect ? 2 : fk::connect_immediately ? 1 : 0);
		if (cur->fd != fd) L("wrongfd");
	};
	fk::on_fault = [] { L("flt"); };
	fk::on_shutdown = [](int fd) { if (cur && cur->fd == fd && !cur->shut) { os_state(); L("fin", lnow()); } };
	make();
	exec(s.cfg);
	fk::on_wait = on_wait;
	rl.run();
	os_state();
	rq.reset();
	cc.reset();
	{ std::unique_lock<std::mutex> l(dm); draining = true; if (in_hook) { answer_n = 0; released = true; __atomic_store_n(&worker_idle, false, __ATOMIC_SEQ_CST); } }
	if (started) for (int i = 0; i < 100000; ++i) {
		if (!__atomic_load_n(&in_hook, __ATOMIC_SEQ_CST) && __atomic_load_n(&worker_idle, __ATOMIC_SEQ_CST)) break;
		nap();
	}
}
