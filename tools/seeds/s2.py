H = r'''#include <crab/crab.hpp>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <netdb.h>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <thread>
#include <atomic>
#include <vector>
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); fflush(stdout); _Exit(1); } } while (0)
static int listen_any(int &port) {
	int s = socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	CHECK(bind(s, (sockaddr *)&a, sizeof(a)) == 0 && listen(s, 10) == 0);
	socklen_t l = sizeof(a);
	getsockname(s, (sockaddr *)&a, &l);
	port = ntohs(a.sin_port);
	return s;
}
static int connect_to(int port) {
	int s = socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a.sin_port = htons(port);
	CHECK(connect(s, (sockaddr *)&a, sizeof(a)) == 0);
	return s;
}
// bytes received within some seconds, until the end of stream or as many as asked
static std::string recv_all(int s, double sec, size_t most = ~size_t(0), bool *eof = nullptr) {
	std::string r;
	auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(int(sec * 1000));
	while (r.size() < most) {
		auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
		if (left <= 0) break;
		pollfd p{s, POLLIN, 0};
		if (poll(&p, 1, (int)left) <= 0) break;
		char b[65536];
		ssize_t n = recv(s, b, std::min(sizeof(b), most - r.size()), 0);
		if (n <= 0) { if (eof) *eof = true; break; }
		r.append(b, n);
	}
	return r;
}
static void send_all(int s, const std::string &x) { CHECK(send(s, x.data(), x.size(), MSG_NOSIGNAL) == (ssize_t)x.size()); }
template<class T> static std::unique_ptr<T> on_port(int &port, int from) {
	for (port = from; port < from + 200; ++port) try { return std::unique_ptr<T>(new T(crab::Address("127.0.0.1", port))); } catch (const std::exception &) {}
	CHECK(!"no port");
	return nullptr;
}
'''
SRV = r'''
static std::atomic<int> the_port{0};
// runs body(port) in another thread while the loop of the server runs in this one
template<class F> static void with_server(crab::http::Server &srv, int port, F f) {
	crab::Watcher done([&] { crab::RunLoop::current()->cancel(); });
	std::thread t([&] { f(port); done.call(); });
	crab::RunLoop::current()->run();
	t.join();
}
'''
NET='network.hxx'; PX='network_posix.hxx'; CO='http/connection.hxx'; SE='http/server.hxx'; CR='http/client_request.hxx'; WM='http/web_message_parser.hxx'
seeds = [
('buffer-merge-front', 'C07', [(CO, '''	total_data_to_write += ss.size();
	if (!data_to_write.empty() && data_to_write.back().size() < 1024 && ss.size() < 1024)  // TODO - constant
		data_to_write.back().write(ss.data(), ss.size());''', '''	total_data_to_write += ss.size();
	if (!data_to_write.empty() && data_to_write.front().size() < 1024 && ss.size() < 1024)  // TODO - constant
		data_to_write.front().write(ss.data(), ss.size());''')],
 H + r'''
int main() {   // a small piece, a large one and a small one, all before the connection is established
	int port;
	int ls = listen_any(port);
	crab::RunLoop loop;
	crab::BufferedTCPSocket s([] {});
	CHECK(s.connect(crab::Address("127.0.0.1", port)));
	s.write(std::string("first"));
	s.write(std::string(5000, 'x'));
	s.write(std::string("last"));
	s.write_shutdown();
	std::string got;
	std::thread t([&] { int c = accept(ls, nullptr, nullptr); got = recv_all(c, 5); close(c); });
	crab::Timer stop([&] { loop.cancel(); });
	stop.once(3);
	loop.run();
	t.join();
	CHECK(got == "first" + std::string(5000, 'x') + "last");
}
''', 'a small string written while the queue of unsent data has a small piece in front of a large one', 'bytes reach the peer in another order than they were written'),

('stream-raw-no-shutdown', 'C10', [(CO, '''		sock.write(val, count, bo);
		if (*remaining_body_content_length == 0) {
			if (!request_parser.req.keep_alive) {  // We sent it in our response header
				read_buffer.clear();
				sock.write_shutdown();
			}''', '''		sock.write(val, count, bo);
		if (*remaining_body_content_length == 0) {
			if (!request_parser.req.keep_alive) {  // We sent it in our response header
				read_buffer.clear();
				if (sock.get_total_buffer_size() == 0)
					sock.write_shutdown();
			}''')],
 H + SRV + r'''
int main() {   // the response to a request without keep-alive is streamed with buffering; its end must still end the connection
	crab::RunLoop loop;
	int port;
	auto srv = on_port<crab::http::Server>(port, 22001);
	const std::string body(9000000, 'b');
	srv->r_handler = [&](crab::http::Client *who, crab::http::Request &&) {
		crab::http::ResponseHeader h;
		h.status = 200;
		h.content_length = body.size();
		who->start_write_stream(h, [who, &body] {
			while (who->get_body_position() < body.size()) {
				size_t n = std::min<size_t>(500000, body.size() - who->get_body_position());
				who->write((const uint8_t *)body.data() + who->get_body_position(), n);
			}
		});
	};
	with_server(*srv, port, [&](int p) {
		int c = connect_to(p);
		send_all(c, "GET / HTTP/1.0\r\nHost: a\r\n\r\n");
		bool eof = false;
		recv_all(c, 3, ~size_t(0), &eof);
		CHECK(eof);
	});
}
''', 'last piece of a streamed body is written by pointer while data is still waiting to be sent, to a client without keep-alive', 'the connection is never ended'),

('accept-before-erase', 'C12', [(SE, '''	clients.erase(it);
	accept_all();  // In case we were over limit''', '''	accept_all();  // In case we were over limit
	clients.erase(it);''')],
 H + SRV + r'''
int main() {   // at most one client: the second one is served as soon as the first one leaves
	crab::RunLoop loop;
	crab::http::Server::Settings st;
	st.max_connections = 1;
	std::unique_ptr<crab::http::Server> srv;
	int port;
	for (port = 22301; port < 22500; ++port) try { srv.reset(new crab::http::Server(crab::Address("127.0.0.1", port), st)); break; } catch (const std::exception &) {}
	srv->r_handler = [&](crab::http::Client *who, crab::http::Request &&) { who->write(crab::http::Response::simple_text(200, "x")); };
	with_server(*srv, port, [&](int p) {
		int a = connect_to(p);
		send_all(a, "GET / HTTP/1.1\r\nHost: a\r\n\r\n");
		CHECK(recv_all(a, 3, 10).size() == 10);
		int b = connect_to(p);
		send_all(b, "GET / HTTP/1.1\r\nHost: a\r\n\r\n");
		CHECK(recv_all(b, 0.3, 10).empty());
		close(a);
		CHECK(recv_all(b, 3, 10).size() == 10);
	});
}
''', 'connections at the limit, one waiting, one leaving', 'the waiting client is not served'),

('utf8-per-fragment', 'C13', [(CO, '''					write(std::move(nop));
					continue;
				}
				if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PONG)) {
					wm_header_parser = WebMessageHeaderParser{};
					state            = WEB_MESSAGE_HEADER;
					continue;
				}
				if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::CLOSE)) {
					auto body = wm_body_parser.body.clear();
					web_message.emplace(WebMessageOpcode::CLOSE);
					web_message_close_received = true;
					if (body.size() >= 2) {
						web_message->close_code = (uint8_cast(body.data())[0] << 8) + uint8_cast(body.data())[1];
						web_message->body       = body.substr(2);
						if (!is_valid_utf8(web_message->body))
							web_message->body.clear();  // No way to tell user about such an error
					}
					state = WEB_MESSAGE_READY;
					return true;
				}
				if (!web_message) {
					if (wm_header_parser.opcode == 0)
						throw std::runtime_error{"Continuation in the first chunk"};
					web_message.emplace(static_cast<WebMessageOpcode>(wm_header_parser.opcode), wm_body_parser.body.clear());
				} else {
					if (wm_header_parser.opcode != 0)
						throw std::runtime_error{"Non-continuation in the subsequent chunk"};
					web_message->body += wm_body_parser.body.clear();
				}
				if (!wm_header_parser.fin) {
					wm_header_parser = WebMessageHeaderParser{};
					state            = WEB_MESSAGE_HEADER;
					continue;
				}
				if (web_message->is_text() && !is_valid_utf8(web_message->body)) {
					web_message.reset();
					wm_header_parser = WebMessageHeaderParser{};
					state            = WEB_MESSAGE_HEADER;
					WebMessage nop(WebMessageOpcode::CLOSE, {}, WebMessage::CLOSE_STATUS_NOT_UTF8);
					write(std::move(nop));
					return false;
				}
				state = WEB_MESSAGE_READY;
				return true;
			default:  // waiting write, closing, etc
				return false;
			}
		}
	} catch (const std::exception &) {
		wm_ping_timer.cancel();''', '''					write(std::move(nop));
					continue;
				}
				if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PONG)) {
					wm_header_parser = WebMessageHeaderParser{};
					state            = WEB_MESSAGE_HEADER;
					continue;
				}
				if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::CLOSE)) {
					auto body = wm_body_parser.body.clear();
					web_message.emplace(WebMessageOpcode::CLOSE);
					web_message_close_received = true;
					if (body.size() >= 2) {
						web_message->close_code = (uint8_cast(body.data())[0] << 8) + uint8_cast(body.data())[1];
						web_message->body       = body.substr(2);
						if (!is_valid_utf8(web_message->body))
							web_message->body.clear();  // No way to tell user about such an error
					}
					state = WEB_MESSAGE_READY;
					return true;
				}
				if (!web_message) {
					if (wm_header_parser.opcode == 0)
						throw std::runtime_error{"Continuation in the first chunk"};
					web_message.emplace(static_cast<WebMessageOpcode>(wm_header_parser.opcode), wm_body_parser.body.clear());
				} else {
					if (wm_header_parser.opcode != 0)
						throw std::runtime_error{"Non-continuation in the subsequent chunk"};
					web_message->body += wm_body_parser.body.clear();
				}
				if (web_message->is_text() && !is_valid_utf8(web_message->body)) {
					web_message.reset();
					wm_header_parser = WebMessageHeaderParser{};
					state            = WEB_MESSAGE_HEADER;
					WebMessage nop(WebMessageOpcode::CLOSE, {}, WebMessage::CLOSE_STATUS_NOT_UTF8);
					write(std::move(nop));
					return false;
				}
				if (!wm_header_parser.fin) {
					wm_header_parser = WebMessageHeaderParser{};
					state            = WEB_MESSAGE_HEADER;
					continue;
				}
				state = WEB_MESSAGE_READY;
				return true;
			default:  // waiting write, closing, etc
				return false;
			}
		}
	} catch (const std::exception &) {
		wm_ping_timer.cancel();''')],
 H + SRV + r'''
int main() {   // a text whose two-byte character is divided between two frames
	crab::RunLoop loop;
	int port;
	auto srv = on_port<crab::http::Server>(port, 22601);
	std::string got;
	srv->r_handler = [&](crab::http::Client *who, crab::http::Request &&) {
		who->web_socket_upgrade([&](crab::http::WebMessage &&m) { if (!m.is_close()) got += m.body; });
	};
	with_server(*srv, port, [&](int p) {
		int a = connect_to(p);
		send_all(a, "GET / HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\n\r\n");
		recv_all(a, 0.3);
		send_all(a, std::string("\x01\x82\0\0\0\0x\xc3\x80\x82\0\0\0\0\xa9y", 16));
		recv_all(a, 0.5);
		close(a);
		usleep(200000);
	});
	CHECK(got == "x\xc3\xa9y");
}
''', 'a text message fragmented in the middle of a multi-byte character, received by a server', 'a valid message is refused with code 1007'),

('frame-length-65535', 'C14', [(WM, "} else if (payload_len < 65536) {", "} else if (payload_len < 65535) {")],
 H + SRV + r'''
int main() {   // a message of 65535 bytes has a 16 bit length
	crab::RunLoop loop;
	int port;
	auto srv = on_port<crab::http::Server>(port, 22901);
	srv->r_handler = [&](crab::http::Client *who, crab::http::Request &&) {
		who->web_socket_upgrade([&](crab::http::WebMessage &&) {});
		who->write(crab::http::WebMessage(crab::http::WebMessageOpcode::BINARY, std::string(65535, 'z')));
	};
	with_server(*srv, port, [&](int p) {
		int a = connect_to(p);
		send_all(a, "GET / HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\n\r\n");
		auto r = recv_all(a, 1);
		r = r.substr(r.find("\r\n\r\n") + 4);
		CHECK(r.substr(0, 4) == "\x82\x7e\xff\xff");
		CHECK(r == "\x82\x7e\xff\xff" + std::string(65535, 'z'));
	});
}
''', 'a message of exactly 65535 bytes', 'the frame header is longer than minimal'),

('waiting-request-survives', 'C15', [(CO, '''	waiting_request.reset();
	web_message.reset();''', '''	web_message.reset();''')],
 H + r'''
int main() {   // a request waiting for resolution dies with close(); the next connection must not send it
	int port;
	int ls = listen_any(port);
	fcntl(ls, F_SETFL, O_NONBLOCK);
	crab::RunLoop loop;
	crab::http::ClientConnection cc([] {});
	crab::http::Request r;
	r.header.method = "GET";
	r.header.path = "/old";
	CHECK(cc.connect("127.0.0.1", port, "http"));
	cc.write(std::move(r));
	cc.close();
	CHECK(cc.connect("127.0.0.1", port, "http"));
	crab::Timer stop([&] { loop.cancel(); });
	stop.once(3);
	loop.run();
	std::string got;
	for (;;) {
		int c = accept(ls, nullptr, nullptr);
		if (c < 0) break;
		got += recv_all(c, 0.2);
	}
	CHECK(got.empty());
}
''', 'a request written before the name is resolved, close, and connect again', 'the request of the closed connection is sent on the new one'),

('keep-timer-left', 'C17', [(CR, '''	timeout_timer.cancel();
	if (!connection.is_open())
		connection.connect''', '''	if (!connection.is_open())
		connection.connect''')],
 H + SRV + r'''
int main() {   // second request is in progress when 10 seconds since the first response pass
	int port;
	int ls = listen_any(port);
	std::thread t([&] {
		int c = accept(ls, nullptr, nullptr);
		for (int i = 0; i < 2; ++i) {
			std::string r;
			while (r.find("\r\n\r\n") == std::string::npos) { auto x = recv_all(c, 15, 1); if (x.empty()) { close(c); return; } r += x; }
			if (i == 1) usleep(2000000);
			send(c, "HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx", 39, MSG_NOSIGNAL);
		}
		recv_all(c, 0.5);
		close(c);
	});
	crab::RunLoop loop;
	int responses = 0, errors = 0;
	std::unique_ptr<crab::http::ClientRequestSimple> q;
	const std::string uri = "http://127.0.0.1:" + std::to_string(port) + "/";
	crab::Timer again([&] { q->get(uri); });
	q.reset(new crab::http::ClientRequestSimple([&](crab::http::Response &&) { if (++responses == 1) again.once(9.0); else loop.cancel(); }, [&](std::string &&) { ++errors; loop.cancel(); }));
	crab::Timer stop([&] { loop.cancel(); });
	stop.once(14);
	q->get(uri);
	loop.run();
	CHECK(responses == 2 && errors == 0);
	q.reset();
	t.join();
}
''', 'a request sent over a kept connection less than 10 seconds after the previous response, answered after more', 'neither the response nor the error handler is called'),

('one-siginfo-per-wakeup', 'C22', [(PX, '''		    if (bytes < 0)
			    break;
		    // Condition (bytes >= sizeof(info)''', '''		    if (bytes < 0 || info.ssi_signo == (uint32_t)signals.back())
			    break;
		    // Condition (bytes >= sizeof(info)''')],
 H + r'''
int main() {   // two signals arrive before the loop looks: both must be consumed, or the second one kills us when Signal is gone
	crab::RunLoop loop;
	int n = 0;
	{
		std::unique_ptr<crab::Signal> s(new crab::Signal([&] { ++n; loop.cancel(); }, {SIGUSR2, SIGUSR1}));
		crab::Timer stop([&] { loop.cancel(); });
		stop.once(2);
		raise(SIGUSR1);
		raise(SIGUSR2);
		loop.run();
		CHECK(n == 1);
		sigset_t p;
		sigpending(&p);
		CHECK(!sigismember(&p, SIGUSR1) && !sigismember(&p, SIGUSR2));
	}
}
''', 'two different signals pending at once, the last of the list delivered first', 'the second one is not consumed and its handler never called'),

('one-watcher-per-wakeup', 'C03', [(NET, '''	while (!fired_objects.empty()) {
		Watcher &watcher = fired_objects.front();''', '''	if (!fired_objects.empty()) {
		Watcher &watcher = fired_objects.front();''')],
 H + r'''
int main() {   // two watchers called from other threads before the loop wakes
	crab::RunLoop loop;
	int a = 0, b = 0;
	crab::Watcher wa([&] { ++a; });
	crab::Watcher wb([&] { ++b; });
	crab::Timer stop([&] { loop.cancel(); });
	stop.once(3);
	std::thread([&] { wa.call(); }).join();
	std::thread([&] { wb.call(); }).join();
	loop.run();
	CHECK(a == 1 && b == 1);
}
''', 'two watchers called within one sleep of the loop', 'the second one is not called until some later call'),

('cancel-before-run-lost', 'C04', [(NET, '''	links.now = steady_clock::now();
	while (!links.quit) {''', '''	links.now  = steady_clock::now();
	links.quit = false;
	while (!links.quit) {'''), (NET, '''	links.quit = false;
}

CRAB_INLINE steady_clock''', '''}

CRAB_INLINE steady_clock''')],
 H + r'''
int main() {   // cancelled before it runs
	crab::RunLoop loop;
	bool late = false;
	crab::Timer stop([&] { late = true; loop.cancel(); });
	stop.once(2);
	std::thread([&] { loop.cancel(); }).join();
	loop.run();
	CHECK(!late);
}
''', 'cancel of a loop just before its run() starts', 'run() does not return'),

('dns-cancel-unlocked', 'C16', [(NET, '''	auto &w = details::DNSWorker::get_instance();
	std::unique_lock<std::mutex> lock(w.dns_mutex);
	if (w.executing_request == this)''', '''	auto &w = details::DNSWorker::get_instance();
	ab.cancel();
	std::unique_lock<std::mutex> lock(w.dns_mutex);
	if (w.executing_request == this)'''), (NET, '''	work_queue_node.unlink();
	ab.cancel();
	resolving = false;''', '''	work_queue_node.unlink();
	resolving = false;''')],
 H + r'''
// the lookup ends exactly when the main thread is about to take the K-th mutex of its cancel()
static std::atomic<int> armed{0}, in_lookup{0}, let_go{0};
static thread_local bool is_main = false;
extern "C" int getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **res) {
	in_lookup = 1;
	while (!let_go) usleep(1000);
	*res = nullptr;
	return EAI_NONAME;
}
extern "C" void freeaddrinfo(struct addrinfo *) {}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
	static auto real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if (is_main && armed > 0 && --armed == 0) { let_go = 1; usleep(200000); }
	return real(m);
}
int main() {
	is_main = true;
	for (int k = 1; k <= 3; ++k) {
		crab::RunLoop loop;
		int calls = 0;
		crab::DNSResolver r([&](const std::vector<crab::Address> &) { ++calls; });
		in_lookup = let_go = 0;
		r.resolve("example", 80, true, false);
		while (!in_lookup) usleep(1000);
		armed = k;
		r.cancel();
		armed = 0;
		let_go = 1;
		crab::Timer stop([&] { loop.cancel(); });
		stop.once(0.4);
		loop.run();
		CHECK(calls == 0);
	}
}
''', 'cancel while the worker publishes the answer of that request', 'the handler is called after cancel'),
]
