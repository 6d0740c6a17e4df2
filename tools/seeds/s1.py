H = r'''#include <crab/crab.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <vector>
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); fflush(stdout); _Exit(1); } } while (0)
'''
NET='network.hxx'; PX='network_posix.hxx'; ST='streams.hxx'; RQ='http/request_parser.hxx'; QP='http/query_parser.hxx'; TY='http/types.hxx'
seeds = [
('timer-stale-move', 'C01', [(NET, "moved_fire_time = fire_time = time_point;", "fire_time = time_point;\n\t\tif (moved_fire_time < time_point)\n\t\t\tmoved_fire_time = time_point;")],
 H + r'''
int main() {   // armed, moved to later, then pulled to earlier: must fire at the last time given
	crab::RunLoop loop;
	double fired = -1;
	auto t0 = crab::steady_clock::now();
	crab::Timer t([&] { fired = std::chrono::duration<double>(crab::steady_clock::now() - t0).count(); loop.cancel(); });
	crab::Timer guard([&] { loop.cancel(); });
	guard.once(5);
	t.once(0.3);
	t.once(3);
	t.once(0.1);
	loop.run();
	CHECK(fired > 0.05 && fired < 1.5);
}
''', 'a timer armed three times without firing: to later, then to earlier than both', 'the timer fires at the overridden later time'),
('watcher-cancel-twice-called', 'C02', [(NET, "	a_handler.cancel_callable();\n	loop->links.cancel_called_watcher(this);", "	if (a_handler.is_pending_callable()) {\n		a_handler.cancel_callable();\n		return;\n	}\n	loop->links.cancel_called_watcher(this);")],
 H + r'''
int main() {   // a watcher already triggered is called again, then cancelled: nothing must run
	crab::RunLoop loop;
	int b_runs = 0;
	std::unique_ptr<crab::Watcher> b(new crab::Watcher([&] { ++b_runs; }));
	crab::Watcher a([&] { b->call(); b->cancel(); });
	crab::Timer stop([&] { loop.cancel(); });
	a.call();
	b->call();
	stop.once(0.3);
	loop.run();
	CHECK(b_runs == 0);
}
''', 'Watcher::cancel while its handler is triggered and it has been called once more since', 'the handler runs after cancel (or after the Watcher is destroyed)'),
('idle-before-events', 'C05', [(NET, "if (links.triggered_callables.empty() && !idle_handlers.empty()) {", "if (!idle_handlers.empty()) {")],
 H + r'''
int main() {   // an idle handler may run only when a poll found nothing to do
	crab::RunLoop loop;
	std::vector<int> order;
	crab::Watcher w([&] { order.push_back(9); });
	int n = 0;
	std::unique_ptr<crab::Idle> i1, i2;
	i1.reset(new crab::Idle([&] { order.push_back(1); if (++n == 1) w.call(); if (n == 3) loop.cancel(); }));
	i2.reset(new crab::Idle([&] { order.push_back(2); }));
	loop.run();
	CHECK(order.size() >= 3 && order[0] == 1 && order[1] == 9 && order[2] == 2);
}
''', 'an event arriving between two idle handlers', 'idle work runs before the event handler'),
('enough-data-one-part', 'C08', [(ST, "	return size() >= count;\n}\n\nCRAB_INLINE bool Buffer::peek", "	return read_count() >= count;\n}\n\nCRAB_INLINE bool Buffer::peek")],
 H + r'''
int main() {   // enough data, stored in two parts
	crab::Buffer b(8);
	uint8_t x[8] = {1, 2, 3, 4, 5, 6, 7, 8};
	b.write_some(x, 6);
	b.read_some(x, 5);
	crab::IMemoryStream in(x, 5);
	CHECK(b.read_enough_data(in, 5));
}
''', 'buffer contents that wrap around the end of the storage', 'read_enough_data says there is not enough data although there is'),
('vector-write-to-limit', 'C09', [(ST, "		size_t count = out.write_some(rimpl->data() + read_pos, rc);\n		read_pos += count;\n		max_count -= count;\n		total_count += count;\n		if (count == 0)\n			break;\n	}\n	return total_count;\n}\n\nCRAB_INLINE size_t OVectorStream", "		size_t count = out.write_some(rimpl->data() + read_pos, rc);\n		read_pos += count;\n		max_count -= rc;\n		total_count += count;\n		if (count == 0)\n			break;\n	}\n	return total_count;\n}\n\nCRAB_INLINE size_t OVectorStream")],
 H + r'''
struct Slow : crab::OStream {   // takes at most 2 bytes at a time
	std::string got;
	size_t write_some(const uint8_t *v, size_t n) override { n = n < 2 ? n : 2; got.append((const char *)v, n); return n; }
};
int main() {
	std::vector<uint8_t> v{1, 2, 3, 4, 5, 6, 7, 8};
	crab::IVectorStream in(&v);
	Slow out;
	CHECK(in.write_to(out, 6) == 6);
	CHECK(out.got.size() == 6);
	CHECK(in.size() == 2);
}
''', 'a destination that takes only part of each write', 'write_to stops before max_count bytes although the source has more and the destination accepts more'),
('chunk-headers-add-up', 'C11', [(RQ, "			chunk_header_total_length = 0;\n			state                     = CHUNK_BODY_CR;", "			state = CHUNK_BODY_CR;")],
 H + r'''
int main() {   // many small chunks, each with a short header
	crab::http::BodyParser p({}, true);
	std::string s;
	for (int i = 0; i < 3000; ++i) s += "1\r\nx\r\n";
	s += "0\r\n\r\n";
	try { p.parse((const uint8_t *)s.data(), (const uint8_t *)s.data() + s.size()); } catch (const std::exception &) { CHECK(!"body rejected"); }
	CHECK(p.is_good() && p.body.get_buffer().size() == 3000);
}
''', 'a chunked body whose chunk headers together exceed the per-header limit', 'a legal chunked body is rejected'),
('uri-percent-before-query', 'C20', [(QP, "	case PATH_HEX2: {\n		if (input == '?') {\n			cur_path_.push_back('%');\n			cur_path_.push_back(percent1_hex_sym);", "	case PATH_HEX2: {\n		if (input == '?') {\n			cur_path_.push_back('%');")],
 H + r'''
int main() {
	auto u = crab::http::parse_uri("http://h/x%4?q=1");
	CHECK(u.path == "/x%4");
	CHECK(u.query == "q=1");
}
''', 'an incomplete escape of one hex digit directly before the query', 'a character of the path is lost'),
('two-codings', 'C21', [(TY, 'ss << (pos++ ? ", " : " ") << te;', 'ss << (pos++ ? "; " : " ") << te;')],
 H + r'''
int main() {
	crab::http::ResponseHeader h;
	h.status = 200;
	h.transfer_encodings = {"br", "gzip"};
	h.transfer_encoding_chunked = true;
	std::string s = h.to_string();
	crab::http::ResponseParser p;
	p.parse(s.data(), s.data() + s.size());
	CHECK(p.is_good() && p.req.transfer_encodings == h.transfer_encodings && p.req.transfer_encoding_chunked);
}
''', 'a header with two or more transfer codings', 'the codings are read back as one'),
('acceptor-errno-eintr', 'C18', [(PX, "if (errno == ECONNABORTED || errno == EPERM || errno == EINTR) {", "if (errno == ECONNABORTED || errno == EPERM) {")],
 H + r'''
#include <dlfcn.h>
#include <errno.h>
#include <sys/socket.h>
#include <unistd.h>
#include <netinet/in.h>
static int fail = 0;
extern "C" int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) {   // the first call is interrupted
	if (fail) { --fail; errno = EINTR; return -1; }
	int r = accept(fd, a, l);
	return r;
}
int main() {
	crab::RunLoop loop;
	double when = -1;
	auto t0 = crab::steady_clock::now();
	std::unique_ptr<crab::TCPAcceptor> acc;
	int port = 0;
	for (port = 20001; port < 20200; ++port) try { acc.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", port), [&] { if (acc->can_accept() && when < 0) { when = std::chrono::duration<double>(crab::steady_clock::now() - t0).count(); loop.cancel(); } })); break; } catch (const std::exception &) {}
	crab::TCPSocket s([] {});
	fail = 1;
	CHECK(s.connect(crab::Address("127.0.0.1", port)));
	crab::Timer stop([&] { loop.cancel(); });
	stop.once(3);
	loop.run();
	CHECK(when >= 0 && when < 0.7);
}
''', 'accept interrupted by a signal', 'the waiting connection is accepted only a second later'),
('udp-truncated-is-nothing', 'C19', [(PX, "		if (errno != EMSGSIZE) {", "		if (errno != EMSGSIZE || count == 0) {"), (PX, "	if (result > static_cast<ssize_t>(count))  // Can only happen when reading into workaround_buffer\n		result = static_cast<ssize_t>(count);", "	if (result > static_cast<ssize_t>(count)) {  // Can only happen when reading into workaround_buffer\n		errno  = EAGAIN;\n		result = -1;\n	}")],
 H + r'''
int main() {   // a datagram read with a buffer of size 0 is still a datagram, and the next one is still announced
	crab::RunLoop loop;
	int port = 0;
	std::unique_ptr<crab::UDPReceiver> r;
	int got = 0, zero = 0;
	auto read = [&] {
		uint8_t b[10];
		if (auto x = r->read_datagram(nullptr, 0, nullptr)) { CHECK(*x == 0); ++zero; }
		while (r->read_datagram(b, 10, nullptr)) ++got;
		if (got == 2) loop.cancel();
	};
	for (port = 21001; port < 21200; ++port) try { r.reset(new crab::UDPReceiver(crab::Address("127.0.0.1", port), read)); break; } catch (const std::exception &) {}
	crab::UDPTransmitter t(crab::Address("127.0.0.1", port), [] {});
	crab::Timer go([&] { for (int i = 0; i < 3; ++i) t.write_datagram((const uint8_t *)"abc", 3); });
	crab::Timer stop([&] { loop.cancel(); });
	go.once(0.1);
	stop.once(2);
	loop.run();
	CHECK(zero == 1 && got == 2);
}
''', 'reading a non-empty datagram into a buffer of size zero', 'the datagram is reported as nothing to read and the ones behind it are never announced'),
('write-deque-skip-second', 'C06', [(PX, "		if (d.read_count2()) {", "		if (d.read_count2() && iovec_count != 1) {")],
 H + r'''
#include <thread>
int main() {   // first buffer of the queue wraps around its end: bytes must arrive in order
	crab::RunLoop loop;
	std::unique_ptr<crab::TCPAcceptor> acc;
	crab::TCPSocket srv([&] {});
	std::string got;
	int port = 0;
	std::unique_ptr<crab::TCPSocket> in;
	auto rd = [&] { uint8_t b[100]; while (size_t n = in->read_some(b, 100)) got.append((char *)b, n); if (got.size() >= 9) loop.cancel(); };
	in.reset(new crab::TCPSocket(rd));
	for (port = 22001; port < 22200; ++port) try { acc.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", port), [&] { if (acc->can_accept()) in->accept(*acc); })); break; } catch (const std::exception &) {}
	bool sent = false;
	std::unique_ptr<crab::TCPSocket> s;
	s.reset(new crab::TCPSocket([&] {
		if (sent || !s->can_write()) return;
		sent = true;
		std::deque<crab::Buffer> d;
		d.emplace_back(6);
		d.emplace_back(6);
		uint8_t t[6];
		d[0].write_some((const uint8_t *)"....12", 6); d[0].read_some(t, 4); d[0].write_some((const uint8_t *)"345", 3);
		d[1].write_some((const uint8_t *)"6789", 4);
		s->write_some(d);
	}));
	CHECK(s->connect(crab::Address("127.0.0.1", port)));
	crab::Timer stop([&] { loop.cancel(); });
	stop.once(2);
	loop.run();
	CHECK(got == "123456789");
}
''', 'a queue whose first buffer wraps around the end of its storage', 'the wrapped part of the buffer is skipped on the wire'),
]
