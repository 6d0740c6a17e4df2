// Deterministic in-process kernel: replaces clock, epoll, eventfd, signalfd, sockets and getaddrinfo for the
// program it is linked into (the definitions in fk.cpp take precedence over libc's).
#pragma once
#include <stdint.h>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include <sys/socket.h>

namespace fk {

enum Kind { EPOLL, EVENTFD, SIGNALFD, TCP, LISTEN, UDP };

struct Dgram {
	std::string data;
	sockaddr_storage from{};
};

struct Fd {
	Kind kind;
	int fd  = -1;
	int uid = 0;  // never reused
	bool nonblock = false;
	// eventfd
	uint64_t counter = 0;
	// signalfd
	std::deque<int> sigs;
	uint64_t sigmask = 0;
	// tcp
	std::string rx;          // sent by the peer, not yet received by the application
	bool rx_eof     = false; // peer closed after rx
	int err         = 0;     // pending socket error
	bool connecting = false, connected = false;
	std::string tx;          // everything accepted from the application
	bool fin        = false; // writing is over
	bool shut       = false; // the application shut down writing
	long space      = 1 << 20;  // free bytes in send buffer (datagrams for UDP)
	bool nospace    = false;
	long max_send   = 1 << 30;  // per call
	long max_recv   = 1 << 30;
	sockaddr_storage local{}, remote{};
	// listen
	std::deque<sockaddr_storage> backlog;
	std::deque<int> accept_errs;  // negative: does not consume the backlog entry
	// udp
	std::deque<Dgram> urx;
	std::deque<int> uerrs;  // errors returned by recvfrom before data
	std::vector<Dgram> utx;
	std::deque<int> serrs;  // errors returned by send
	int last_errno_returned = 0;
	// epoll registration
	bool registered = false;
	uint32_t interest = 0;
	uint64_t udata    = 0;
	bool ready        = false;
};

extern int64_t now_ns;  // CLOCK_MONOTONIC
extern int64_t wall_ns; // CLOCK_REALTIME offset
extern std::recursive_mutex mu;
extern std::function<void(int timeout_ms)> on_wait;  // called when nothing is ready (timeout 0 for a poll)
extern std::function<void(int timeout_ms, int n)> on_poll;  // called when events were ready at once
extern std::function<void(int n)> on_wake;              // after on_wait, with the number of events returned
extern std::function<void(int fd, int err)> on_accept;      // after every accept call
extern std::function<void()> on_fault;                       // a scripted failure of socket or epoll_ctl happens
extern std::function<void(int fd)> on_connect;               // connect called (TCP)
extern std::function<void(int fd)> on_register;              // added to an epoll
extern std::function<void(int fd)> on_shutdown;              // the stream is ended
extern uint64_t blocked;                                  // signal mask of the process
extern int fail_socket, fail_connect, fail_epoll_ctl;  // one-shot errno for next call
// scripted failures of set-up calls: name -> errnos of the next calls (0: succeeds)
extern std::map<std::string, std::deque<int>> faults;
extern std::function<void(const char *call, int uid, const std::string &args, int err)> on_sys;   // after each set-up call
extern int eintr_every;   // every so many sleeps in epoll_wait are interrupted (0: none)
std::string addr_args(const void *a, size_t n);
bool open_fds(std::vector<int> &uids);
extern bool connect_immediately;
extern long default_space, default_max_send, default_max_recv;
extern int max_batch;  // events per epoll_wait
extern long syscalls;  // watchdog counter
extern std::vector<std::pair<int, std::string>> closed_log;  // uid, transmitted bytes at close
extern std::vector<std::shared_ptr<Fd>> history;             // all tcp sockets ever (connect/accept order), kept after close

void reset();
Fd *get(int fd);
std::shared_ptr<Fd> by_uid(int uid);
std::shared_ptr<Fd> last_tcp();
std::shared_ptr<Fd> last_of(Kind k);
void edge(Fd *f);
bool any_ready();
void peer_send(Fd *f, const std::string &s);
void peer_eof(Fd *f);
void peer_err(Fd *f, int e);
void add_space(Fd *f, long n);
void connect_ok(Fd *f);
void connect_fail(Fd *f, int e);
void incoming(Fd *listener, int id);   // id becomes the peer port
void retry_edge(Fd *f);
void raise_signal(Fd *f, int signo);
bool signal_process(int signo);  // false: the signal is not blocked, the process would be killed
void udp_arrive(Fd *f, const std::string &s, int from_port);
bool is_open(const std::shared_ptr<Fd> &f);

// fake DNS: getaddrinfo blocks until dns_release; empty answer is failure
extern std::function<int(const char *host, const char *service, int family, std::vector<sockaddr_storage> &out)> dns_hook;
sockaddr_storage addr4(uint32_t ip, int port);
extern uint64_t eventfd_writes;

}  // namespace fk
