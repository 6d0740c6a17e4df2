N='network_posix.hxx'
seeds=[
('optional-stays-set','C30',[('util.hpp','''		impl  = std::move(other.impl);
		valid = other.valid;
		return *this;''','''		if (other.valid) {
			impl  = std::move(other.impl);
			valid = true;
		}
		return *this;''')],'''
#include <crab/crab.hpp>
#include <string>
static crab::optional<std::string> find(bool yes) {
	crab::optional<std::string> r;
	if (yes) r = std::string("here");
	return r;
}
int main() {
	crab::optional<std::string> v;
	v = find(true);
	if (!v || *v != "here") return 1;
	v = find(false);
	if (v.has_value()) return 2;
	try { v.value(); return 3; } catch (const std::bad_cast &) {}
	v = find(true);
	return v && v.value() == "here" ? 0 : 4;
}
''','C++14 build; an optional which has a value is assigned an empty temporary (only move assignment)','The old value stays: an optional has a value although the last thing assigned to it had none'),
('accept-into-open-socket','C31',[(N,'''		throw std::logic_error{"TCPAcceptor::accept error, forgot if(can_accept())?"};
	close();''','''		throw std::logic_error{"TCPAcceptor::accept error, forgot if(can_accept())?"};
	rwd_handler.cancel_callable();''')],'''
#include <crab/crab.hpp>
#include <iostream>
#include <unistd.h>
// two clients; the server keeps one socket and takes the last client
int main() {
	crab::RunLoop loop;
	crab::Address a("127.0.0.1", 0);
	int port = 0;
	std::unique_ptr<crab::TCPAcceptor> acc;
	for (port = 17001; port < 17400; ++port) try {
			acc.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", (uint16_t)port), [&] {}));
			break;
		} catch (const std::exception &) {}
	if (!acc) return 3;
	bool lost = false;
	crab::TCPSocket server([] {}), c2([] {});
	std::unique_ptr<crab::TCPSocket> c1;
	c1.reset(new crab::TCPSocket([&] {
		uint8_t b[10];
		if (c1->is_open()) c1->read_some(b, 10);
		if (!c1->is_open()) lost = true;
	}));
	int taken = 0;
	crab::Timer stop([&] { loop.cancel(); });
	crab::Timer poll([&] {
		while (acc->can_accept()) {
			if (++taken > 2) { std::cout << "third connection of two" << std::endl; _exit(1); }
			server.accept(*acc);
		}
		if (taken == 1) c2.connect(crab::Address("127.0.0.1", (uint16_t)port));
		poll.once(0.05);
	});
	c1->connect(crab::Address("127.0.0.1", (uint16_t)port));
	poll.once(0.05);
	stop.once(0.7);
	loop.run();
	// the first one has been closed by the server
	std::cout << taken << " " << lost << std::endl;
	_exit(taken == 2 && lost ? 0 : 1);
}
''','a connection is accepted into a TCPSocket which is still open','The old descriptor is handed back to the acceptor as if it were a newly accepted connection, and the old connection is not closed'),
('view-equal-up-to-zero','C30',[('util.hpp','std::memcmp(d, value, s)','std::strncmp(d, value, s)')],'''
#include <crab/crab.hpp>
#include <string>
int main() {
	std::string a("key\\0one", 7), b("key\\0two", 7);
	crab::string_view v(a.data(), a.size());
	if (!(v == a)) return 1;
	if (v == b) return 2;
	return v != b ? 0 : 3;
}
''','C++14 build; same length, zero character inside and a difference after it','string_view equals a different text'),
]
