#include "fk.hpp"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <net/if.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/signalfd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace fk {
int64_t now_ns  = 1000000000000LL;
int64_t wall_ns = 1600000000LL * 1000000000LL;
std::recursive_mutex mu;
std::function<void(int)> on_wait;
std::function<void(int, int)> on_poll;
std::function<void(int)> on_wake;
std::function<void(int, int)> on_accept;
std::function<void(int)> on_shutdown;
std::function<void(int)> on_register;
std::function<void(int)> on_connect;
std::function<void()> on_fault;
uint64_t blocked = 0;
int fail_socket, fail_connect, fail_epoll_ctl;
std::map<std::string, std::deque<int>> faults;
std::function<void(const char *, int, const std::string &, int)> on_sys;
int eintr_every = 3;
static int sleeps;
static bool sigpipe_ignored;
bool connect_immediately;
long default_space = 1 << 20, default_max_send = 1 << 30, default_max_recv = 1 << 30;
int max_batch  = 512;
long syscalls  = 0;
uint64_t eventfd_writes = 0;
std::vector<std::pair<int, std::string>> closed_log;
std::vector<std::shared_ptr<Fd>> history;
std::function<int(const char *, const char *, int, std::vector<sockaddr_storage> &)> dns_hook;

static const int BASE = 1000;
static std::vector<std::shared_ptr<Fd>> table;
static std::deque<int> ready_list;  // fds in order of readiness
static int next_uid = 1;

void reset() {
	std::lock_guard<std::recursive_mutex> l(mu);
	now_ns = 1000000000000LL;
	table.clear();
	ready_list.clear();
	history.clear();
	closed_log.clear();
	next_uid    = 1;
	fail_socket = fail_connect = fail_epoll_ctl = 0;
	connect_immediately = false;
	default_space = 1 << 20;
	default_max_send = default_max_recv = 1 << 30;
	max_batch = 512;
	syscalls  = 0;
	eventfd_writes = 0;
	on_wait   = nullptr;
	on_poll   = nullptr;
	on_wake   = nullptr;
	on_accept = nullptr;
	on_shutdown = nullptr;
	on_register = nullptr;
	on_connect = nullptr;
	on_fault = nullptr;
	on_sys = nullptr;
	faults.clear();
	sleeps = 0;
	eintr_every = 3;
	blocked   = 0;
	dns_hook  = nullptr;
}
Fd *get(int fd) {
	if (fd < BASE || fd >= BASE + (int)table.size())
		return nullptr;
	return table[fd - BASE].get();
}
static std::shared_ptr<Fd> make(Kind k) {
	auto f  = std::make_shared<Fd>();
	f->kind = k;
	f->uid  = next_uid++;
	f->max_send = default_max_send;
	f->max_recv = default_max_recv;
	f->space    = default_space;
	size_t i = 0;
	while (i < table.size() && table[i])
		++i;
	if (i == table.size())
		table.emplace_back();
	table[i] = f;
	f->fd    = BASE + (int)i;
	if (k == TCP || k == UDP || k == LISTEN)
		history.push_back(f);
	return f;
}
std::shared_ptr<Fd> by_uid(int uid) {
	for (auto &f : history)
		if (f->uid == uid)
			return f;
	return nullptr;
}
std::shared_ptr<Fd> last_of(Kind k) {
	for (size_t i = history.size(); i-- > 0;)
		if (history[i]->kind == k)
			return history[i];
	return nullptr;
}
std::shared_ptr<Fd> last_tcp() { return last_of(TCP); }
bool is_open(const std::shared_ptr<Fd> &f) { return f && f->fd >= 0; }

static uint32_t level(Fd *f) {
	uint32_t m = 0;
	switch (f->kind) {
	case EVENTFD:
		if (f->counter) m |= EPOLLIN;
		m |= EPOLLOUT;
		break;
	case SIGNALFD:
		if (!f->sigs.empty()) m |= EPOLLIN;
		break;
	case TCP:
		if (f->connecting) break;
		if (!f->connected && !f->err) { m |= EPOLLOUT | EPOLLHUP; break; }
		if (!f->rx.empty() || f->rx_eof) m |= EPOLLIN;
		if (f->rx_eof) m |= EPOLLRDHUP;
		if (f->space > 0 || f->fin) m |= EPOLLOUT;
		if (f->err) m |= EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT;
		if (f->rx_eof && f->fin) m |= EPOLLHUP;
		break;
	case LISTEN:
		if (!f->backlog.empty()) m |= EPOLLIN;
		break;
	case UDP:
		if (!f->urx.empty()) m |= EPOLLIN;
		if (!f->uerrs.empty()) m |= EPOLLERR;
		if (f->space > 0) m |= EPOLLOUT;
		break;
	default: break;
	}
	return m;
}
void edge(Fd *f) {
	std::lock_guard<std::recursive_mutex> l(mu);
	if (!f->registered || f->ready)
		return;
	if (!(level(f) & (f->interest | EPOLLERR | EPOLLHUP)))
		return;
	f->ready = true;
	ready_list.push_back(f->fd);
}
bool any_ready() {
	std::lock_guard<std::recursive_mutex> l(mu);
	return !ready_list.empty();
}
void peer_send(Fd *f, const std::string &s) {
	if (f->rx_eof || f->err || s.empty()) return;
	f->rx += s;
	edge(f);
}
void peer_eof(Fd *f) {
	f->rx_eof = true;
	edge(f);
}
void peer_err(Fd *f, int e) {
	f->err = e;
	edge(f);
}
void add_space(Fd *f, long n) {
	f->space += n;
	if (f->nospace && f->space > 0) {
		f->nospace = false;
		edge(f);
	}
}
void connect_ok(Fd *f) {
	f->connecting = false;
	f->connected  = true;
	edge(f);
}
void connect_fail(Fd *f, int e) {
	f->connecting = false;
	f->err        = e;
	edge(f);
}
sockaddr_storage addr4(uint32_t ip, int port) {
	sockaddr_storage s{};
	auto a             = reinterpret_cast<sockaddr_in *>(&s);
	a->sin_family      = AF_INET;
	a->sin_addr.s_addr = htonl(ip);
	a->sin_port        = htons(port);
	return s;
}
void incoming(Fd *f, int id) {
	f->backlog.push_back(addr4(0x0A000001, id));
	edge(f);
}
void retry_edge(Fd *f) { edge(f); }
void raise_signal(Fd *f, int s) {
	f->sigs.push_back(s);
	edge(f);
}
bool signal_process(int s) {
	if (!(blocked & (1ULL << s))) return false;  // would take the default action
	for (auto &f : table)
		if (f && f->kind == SIGNALFD && (f->sigmask & (1ULL << s))) { raise_signal(f.get(), s); return true; }
	return true;
}
void udp_arrive(Fd *f, const std::string &s, int from) {
	Dgram d;
	d.data = s;
	d.from = addr4(0x0A000002, from);
	f->urx.push_back(d);
	edge(f);
}
static void do_close(int fd) {
	auto f = table[fd - BASE];
	for (auto it = ready_list.begin(); it != ready_list.end();)
		it = (*it == fd) ? ready_list.erase(it) : it + 1;
	closed_log.emplace_back(f->uid, f->tx);
	f->fd         = -1;
	f->registered = false;
	table[fd - BASE].reset();
}
// what would hang or kill the process, or hit a descriptor which is not the library's any more
[[noreturn]] static void fatal(const char *what) {
	fprintf(stderr, "fk: %s\n", what);
	abort();
}
bool open_fds(std::vector<int> &uids) {
	for (auto &f : table) if (f) uids.push_back(f->uid);
	return !uids.empty();
}
static int fault(const char *name) {
	auto it = faults.find(name);
	if (it == faults.end() || it->second.empty()) return 0;
	int e = it->second.front();
	it->second.pop_front();
	return e;
}
static void sys(const char *name, Fd *f, const std::string &args, int e) { if (on_sys) on_sys(name, f ? f->uid : 0, args, e); }
static std::string bytes_args(const void *a, size_t n) {
	std::string r = "[";
	for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string(((const unsigned char *)a)[i]);
	return r + "]";
}
// [4 or 6, port, bytes of the address]
std::string addr_args(const void *a, size_t n) {
	auto s = (const sockaddr *)a;
	if (n >= sizeof(sockaddr_in) && s->sa_family == AF_INET) { auto p = (const sockaddr_in *)a; return "[4," + std::to_string(ntohs(p->sin_port)) + "," + bytes_args(&p->sin_addr, 4) + "]"; }
	if (n >= sizeof(sockaddr_in6) && s->sa_family == AF_INET6) { auto p = (const sockaddr_in6 *)a; return "[6," + std::to_string(ntohs(p->sin6_port)) + "," + bytes_args(&p->sin6_addr, 16) + "]"; }
	return "[0,0,[]]";
}
static void watchdog() {
	if (++syscalls > 4000000) {
		fprintf(stderr, "fk: too many system calls (livelock)\n");
		abort();
	}
}
}  // namespace fk

using namespace fk;
#define LOCK std::lock_guard<std::recursive_mutex> lock_(fk::mu)
#define REAL(name) ((decltype(&::name))dlsym(RTLD_NEXT, #name))
static int err(int e) { errno = e; return -1; }
static int badf(int fd) { if (fd >= fk::BASE) fatal("call on a descriptor which is closed"); return err(EBADF); }
static int wouldblock(Fd *f, int flags) { if (!f->nonblock && !(flags & MSG_DONTWAIT)) fatal("call blocks the thread of the loop"); return err(EAGAIN); }

extern "C" {

int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
	int64_t t;
	if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME)
		t = fk::now_ns;
	else if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
		t = fk::now_ns + fk::wall_ns;
	else
		return (int)syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec  = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
int epoll_create1(int) noexcept { LOCK; int e = fault("epoll_create"); Fd *f = e ? nullptr : make(EPOLL).get(); sys("epoll", f, "0", e); return e ? err(e) : f->fd; }
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) noexcept {
	LOCK;
	if (!get(ep) || get(ep)->kind != EPOLL) return err(EBADF);
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (int e = op == EPOLL_CTL_ADD ? fault("epoll_ctl") : 0) { sys("add", f, "0", e); return err(e); }
	if (fail_epoll_ctl && op == EPOLL_CTL_ADD && f->kind == TCP) { int e = fail_epoll_ctl; fail_epoll_ctl = 0; if (on_fault) on_fault(); return err(e); }
	if (op == EPOLL_CTL_DEL) {
		if (!f->registered) return err(ENOENT);
		f->registered = false;
		f->ready      = false;
		for (auto it = ready_list.begin(); it != ready_list.end();)
			it = (*it == fd) ? ready_list.erase(it) : it + 1;
		return 0;
	}
	if (op == EPOLL_CTL_ADD && f->registered) return err(EEXIST);
	if (op == EPOLL_CTL_MOD && !f->registered) return err(ENOENT);
	f->registered = true;
	f->interest   = ev->events;
	f->udata      = ev->data.u64;
	if (op == EPOLL_CTL_ADD) sys("add", f, "0", 0);
	if (op == EPOLL_CTL_ADD && on_register) on_register(fd);
	edge(f);
	return 0;
}
static int collect(struct epoll_event *events, int maxev) {
	LOCK;
	int n = 0;
	std::deque<int> again;
	int lim = maxev < max_batch ? maxev : max_batch;
	while (n < lim && !ready_list.empty()) {
		int fd = ready_list.front();
		ready_list.pop_front();
		Fd *f = get(fd);
		if (!f || !f->registered) continue;
		f->ready   = false;
		uint32_t m = level(f) & (f->interest | EPOLLERR | EPOLLHUP);
		if (!m) continue;
		events[n].events   = m;
		events[n].data.u64 = f->udata;
		++n;
		if (!(f->interest & EPOLLET)) again.push_back(fd);
	}
	for (int fd : again) {
		get(fd)->ready = true;
		ready_list.push_back(fd);
	}
	return n;
}
int epoll_wait(int ep, struct epoll_event *events, int maxev, int timeout) {
	watchdog();
	if (!get(ep) || get(ep)->kind != EPOLL) return err(EBADF);
	int n = collect(events, maxev);
	if (n) {
		if (on_poll) on_poll(timeout, n);
		return n;
	}
	if (timeout && eintr_every && ++sleeps % eintr_every == 0) return err(EINTR);   // a signal handler ran on this thread
	if (on_wait) on_wait(timeout);
	n = collect(events, maxev);
	if (on_wake) on_wake(n);
	return n;
}
int epoll_pwait(int ep, struct epoll_event *events, int maxev, int timeout, const sigset_t *) { return epoll_wait(ep, events, maxev, timeout); }

int eventfd(unsigned int v, int flags) noexcept { LOCK; int e = fault("eventfd"); if (e) { sys("eventfd", nullptr, "0", e); return err(e); } auto f = make(EVENTFD); f->counter = v; f->nonblock = (flags & EFD_NONBLOCK) != 0; sys("eventfd", f.get(), "0", 0); return f->fd; }
int eventfd_read(int fd, eventfd_t *v) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f || f->kind != EVENTFD) return err(EBADF);
	if (!f->counter) return wouldblock(f, 0);
	*v = f->counter; f->counter = 0;
	return 0;
}
int eventfd_write(int fd, eventfd_t v) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f || f->kind != EVENTFD) return err(EBADF);
	f->counter += v;
	++eventfd_writes;
	edge(f);
	return 0;
}
int signalfd(int, const sigset_t *mask, int flags) noexcept { LOCK; int e = fault("signalfd"); if (e) { sys("signalfd", nullptr, "0", e); return err(e); } auto f = make(SIGNALFD); f->nonblock = (flags & SFD_NONBLOCK) != 0; sys("signalfd", f.get(), "0", 0); for (int s = 1; s < 64; ++s) if (sigismember(mask, s) == 1) f->sigmask |= 1ULL << s; history.push_back(f); return f->fd; }
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) noexcept {
	if (old) sigemptyset(old);
	uint64_t m = 0;
	for (int s = 1; set && s < 64; ++s) if (sigismember(set, s) == 1) m |= 1ULL << s;
	if (how == SIG_BLOCK) blocked |= m;
	else if (how == SIG_UNBLOCK) blocked &= ~m;
	else if (set) blocked = m;
	return 0;
}
sighandler_t signal(int s, sighandler_t h) noexcept { if (s == SIGPIPE) sigpipe_ignored = h == SIG_IGN; return SIG_DFL; }
int sigprocmask(int how, const sigset_t *set, sigset_t *old) noexcept { return pthread_sigmask(how, set, old); }

int socket(int domain, int type, int proto) noexcept {
	LOCK;
	if (domain != AF_INET && domain != AF_INET6) return (int)syscall(SYS_socket, domain, type, proto);
	if (fail_socket) { int e = fail_socket; fail_socket = 0; if (on_fault) on_fault(); return err(e); }
	std::string args = std::string("[\"") + ((type & 0xf) == SOCK_DGRAM ? "udp" : "tcp") + "\"," + (domain == AF_INET6 ? "6" : "4") + "]";
	if (int e = fault("socket")) { sys("socket", nullptr, args, e); return err(e); }
	auto f = make((type & 0xf) == SOCK_DGRAM ? UDP : TCP);
	f->nonblock = (type & SOCK_NONBLOCK) != 0;
	f->local.ss_family = f->remote.ss_family = (sa_family_t)domain;
	sys("socket", f.get(), args, 0);
	if (f->nonblock) sys("nonblock", f.get(), "true", 0);
	return f->fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t n) noexcept {
	LOCK;
	Fd *f = get(fd);
	if (!f) return badf(fd);
	int e = fault("bind");
	if (!e) memcpy(&f->local, a, n);
	sys("bind", f, addr_args(a, n), e);
	return e ? err(e) : 0;
}
int listen(int fd, int backlog) noexcept { LOCK; Fd *f = get(fd); if (!f) return badf(fd); int e = fault("listen"); if (!e) f->kind = LISTEN; sys("listen", f, std::to_string(backlog), e); return e ? err(e) : 0; }
int connect(int fd, const struct sockaddr *a, socklen_t n) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f) return (int)syscall(SYS_connect, fd, a, n);
	memcpy(&f->remote, a, n);
	if (int e = fault("connect")) { sys("connect", f, addr_args(a, n), e); return err(e); }
	if (f->kind == UDP) { f->connected = true; sys("connect", f, addr_args(a, n), 0); return 0; }
	if (on_connect) on_connect(fd);
	if (fail_connect) { int e = fail_connect; fail_connect = 0; return err(e); }
	sys("connect", f, addr_args(a, n), 0);
	f->local = addr4(0x0A0000FE, 40000 + f->uid);
	if (connect_immediately) { f->connected = true; return 0; }
	if (!f->nonblock) fatal("connect blocks the thread of the loop");
	f->connecting = true;
	return err(EINPROGRESS);
}
static int do_accept2(int fd, struct sockaddr *a, socklen_t *n, int flags) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (f->kind != LISTEN) return err(EINVAL);
	if (!f->accept_errs.empty()) {
		int e = f->accept_errs.front();
		if (f->backlog.empty()) { return wouldblock(f, 0); }
		f->accept_errs.pop_front();
		if (e > 0) { f->backlog.pop_front(); return err(e); }
		return err(-e);
	}
	if (f->backlog.empty()) return wouldblock(f, 0);
	auto s       = make(TCP);
	f            = get(fd);
	s->connected = true;
	s->nonblock  = (flags & SOCK_NONBLOCK) != 0;
	s->remote    = f->backlog.front();
	s->local     = f->local;
	f->backlog.pop_front();
	if (a) { memcpy(a, &s->remote, sizeof(sockaddr_in)); *n = sizeof(sockaddr_in); }
	return s->fd;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *n, int flags) {
	int r = do_accept2(fd, a, n, flags), e = errno;
	if (r >= 0) { sys("accept", get(r), "[" + std::to_string(get(fd)->uid) + "," + addr_args(&get(r)->remote, sizeof(sockaddr_in)) + "]", 0); if (get(r)->nonblock) sys("nonblock", get(r), "true", 0); }
	if (on_accept) on_accept(fd, r < 0 ? e : 0);
	errno = e;
	return r;
}
int accept(int fd, struct sockaddr *a, socklen_t *n) { return do_accept(fd, a, n, 0); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) { return do_accept(fd, a, n, flags); }
int setsockopt(int fd, int level, int name, const void *v, socklen_t n) noexcept {
	LOCK;
	Fd *f = get(fd);
	if (!f) return badf(fd);
	int e = fault("setsockopt");
	const char *o = level == SOL_SOCKET ? (name == SO_SNDBUF ? "sndbuf" : name == SO_RCVBUF ? "rcvbuf" : name == SO_REUSEADDR ? "reuseaddr" : name == SO_REUSEPORT ? "reuseport" : name == SO_BROADCAST ? "broadcast" : nullptr)
	              : level == IPPROTO_TCP ? (name == TCP_NODELAY ? "nodelay" : nullptr)
	              : level == IPPROTO_IP ? (name == IP_MULTICAST_TTL ? "ttl" : name == IP_MULTICAST_IF ? "mif" : name == IP_ADD_MEMBERSHIP ? "join" : nullptr) : nullptr;
	std::string val;
	if (o && (!strcmp(o, "mif") || !strcmp(o, "join"))) {   // <<group, interface address, interface index>>
		ip_mreqn m{};
		if (n >= sizeof m) memcpy(&m, v, sizeof m); else if (n >= sizeof(ip_mreq)) memcpy(&m, v, sizeof(ip_mreq)); else if (n == 4) memcpy(&m.imr_address, v, 4);
		val = "[" + bytes_args(&m.imr_multiaddr, 4) + "," + bytes_args(&m.imr_address, 4) + "," + std::to_string(m.imr_ifindex) + "]";
		if (f->local.ss_family != AF_INET && !e) e = ENOPROTOOPT;
	} else {
		int i = 0;
		memcpy(&i, v, n < 4 ? n : 4);
		val = std::to_string(i);
	}
	sys("opt", f, std::string("[\"") + (o ? o : "other") + "\"," + val + "]", e);
	return e ? err(e) : 0;
}
unsigned if_nametoindex(const char *name) noexcept {
	if (!strcmp(name, "eth0")) return 2;
	if (!strcmp(name, "lo")) return 1;
	errno = ENODEV;
	return 0;
}
int ioctl(int fd, unsigned long req, ...) noexcept {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (fd < 1000) return (int)syscall(SYS_ioctl, fd, req, arg);
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (req == FIONBIO) { f->nonblock = *(int *)arg != 0; sys("nonblock", f, f->nonblock ? "true" : "false", 0); }
	return 0;
}
int getsockopt(int fd, int, int name, void *v, socklen_t *) noexcept { Fd *f = get(fd); if (f && v && name == SO_ERROR) { *(int *)v = f->err; f->err = 0; } return 0; }
int getsockname(int fd, struct sockaddr *a, socklen_t *n) noexcept { LOCK; Fd *f = get(fd); if (!f) return badf(fd); socklen_t k = f->local.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); memcpy(a, &f->local, k < *n ? k : *n); *n = k; return 0; }
int getpeername(int fd, struct sockaddr *a, socklen_t *n) noexcept { LOCK; Fd *f = get(fd); if (!f) return badf(fd); if (!f->connected) return err(ENOTCONN); socklen_t k = f->remote.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); memcpy(a, &f->remote, k < *n ? k : *n); *n = k; return 0; }
int shutdown(int fd, int how) noexcept {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f || f->kind != TCP) return err(EBADF);
	if (f->connecting) { f->connecting = false; f->err = ECONNRESET; edge(f); return 0; }
	if (!f->connected) return err(ENOTCONN);
	if (how == SHUT_WR || how == SHUT_RDWR) { if (on_shutdown) on_shutdown(fd); f->fin = f->shut = true; }
	if (f->rx_eof) edge(f);
	return 0;
}
static ssize_t stream_recv(Fd *f, const struct iovec *iov, int cnt, int flags = 0) {
	if (f->err && f->rx.empty()) { int e = f->err; f->err = 0; f->rx_eof = true; f->connected = true; f->fin = true; return err(e); }
	if (f->connecting) return wouldblock(f, flags);
	if (!f->connected && !f->err) return err(ENOTCONN);
	size_t want = 0;
	for (int i = 0; i < cnt; ++i) want += iov[i].iov_len;
	if (want == 0) return 0;
	if (f->rx.empty()) return f->rx_eof ? 0 : wouldblock(f, flags);
	size_t n = want;
	if (n > f->rx.size()) n = f->rx.size();
	if (n > (size_t)f->max_recv) n = (size_t)f->max_recv;
	size_t pos = 0;
	for (int i = 0; i < cnt && pos < n; ++i) {
		size_t k = iov[i].iov_len;
		if (k > n - pos) k = n - pos;
		memcpy(iov[i].iov_base, f->rx.data() + pos, k);
		pos += k;
	}
	f->rx.erase(0, n);
	return (ssize_t)n;
}
static ssize_t stream_send(Fd *f, const struct iovec *iov, int cnt, int flags = 0) {
	if (f->err) { int e = f->err; if (e == EPIPE && !(flags & MSG_NOSIGNAL) && !sigpipe_ignored) fatal("the process is killed by SIGPIPE"); f->err = 0; f->rx_eof = true; f->connected = true; f->fin = true; return err(e); }
	if (f->connecting) { f->nospace = true; return wouldblock(f, flags); }
	if (!f->connected) return err(ENOTCONN);
	if (f->fin) { if (!(flags & MSG_NOSIGNAL) && !sigpipe_ignored) fatal("the process is killed by SIGPIPE"); return err(EPIPE); }
	size_t want = 0;
	for (int i = 0; i < cnt; ++i) want += iov[i].iov_len;
	if (want == 0) return 0;
	if (f->space <= 0) { f->nospace = true; return wouldblock(f, flags); }
	size_t n = want;
	if (n > (size_t)f->space) n = (size_t)f->space;
	if (n > (size_t)f->max_send) n = (size_t)f->max_send;
	size_t left = n;
	for (int i = 0; i < cnt && left; ++i) {
		size_t k = iov[i].iov_len < left ? iov[i].iov_len : left;
		f->tx.append((const char *)iov[i].iov_base, k);
		left -= k;
	}
	f->space -= (long)n;
	if (f->space <= 0 && n < want) f->nospace = true;
	return (ssize_t)n;
}
static ssize_t dgram_recv(Fd *f, void *buf, size_t len, struct sockaddr *a, socklen_t *n, bool *trunc, int flags) {
	if (!f->uerrs.empty()) { int e = f->uerrs.front(); f->uerrs.pop_front(); if (f->last_errno_returned != -1) f->last_errno_returned = e; return err(e); }
	if (f->urx.empty()) return wouldblock(f, flags);
	Dgram d = f->urx.front();
	f->urx.pop_front();
	size_t k = d.data.size() < len ? d.data.size() : len;
	memcpy(buf, d.data.data(), k);
	if (trunc) *trunc = d.data.size() > len;
	if (a) { memcpy(a, &d.from, sizeof(sockaddr_in)); if (n) *n = sizeof(sockaddr_in); }
	return (ssize_t)k;
}
static ssize_t dgram_send(Fd *f, const std::string &s, const struct sockaddr *a, int flags) {
	if (!f->serrs.empty()) { int e = f->serrs.front(); f->serrs.pop_front(); return err(e); }
	if (f->space <= 0) { f->nospace = true; return wouldblock(f, flags); }
	Dgram d;
	d.data = s;
	if (a) memcpy(&d.from, a, sizeof(sockaddr_in)); else d.from = f->remote;
	f->utx.push_back(d);
	f->space -= 1;
	return (ssize_t)s.size();
}
ssize_t recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *a, socklen_t *n) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (f->kind == UDP) return dgram_recv(f, buf, len, a, n, nullptr, flags);
	struct iovec v = {buf, len};
	return stream_recv(f, &v, 1, flags);
}
ssize_t recv(int fd, void *buf, size_t len, int flags) { return recvfrom(fd, buf, len, flags, nullptr, nullptr); }
ssize_t recvmsg(int fd, struct msghdr *m, int flags) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (f->kind == UDP) {
		std::string tmp(65536, 0);
		bool tr   = false;
		size_t len = 0;
		for (size_t i = 0; i < m->msg_iovlen; ++i) len += m->msg_iov[i].iov_len;
		ssize_t r = dgram_recv(f, &tmp[0], len < tmp.size() ? len : tmp.size(), (sockaddr *)m->msg_name, &m->msg_namelen, &tr, flags);
		if (r < 0) return r;
		size_t pos = 0;
		for (size_t i = 0; i < m->msg_iovlen && pos < (size_t)r; ++i) {
			size_t k = m->msg_iov[i].iov_len < (size_t)r - pos ? m->msg_iov[i].iov_len : (size_t)r - pos;
			memcpy(m->msg_iov[i].iov_base, tmp.data() + pos, k);
			pos += k;
		}
		m->msg_flags = tr ? MSG_TRUNC : 0;
		return r;
	}
	return stream_recv(f, m->msg_iov, (int)m->msg_iovlen, flags);
}
ssize_t sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *a, socklen_t) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (f->kind == UDP) return dgram_send(f, std::string((const char *)buf, len), a, flags);
	struct iovec v = {(void *)buf, len};
	return stream_send(f, &v, 1, flags);
}
ssize_t send(int fd, const void *buf, size_t len, int flags) { return sendto(fd, buf, len, flags, nullptr, 0); }
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (f->kind == UDP) {
		std::string s;
		for (size_t i = 0; i < m->msg_iovlen; ++i) s.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
		return dgram_send(f, s, (const sockaddr *)m->msg_name, flags);
	}
	return stream_send(f, m->msg_iov, (int)m->msg_iovlen, flags);
}
ssize_t read(int fd, void *buf, size_t len) {
	if (fd < 1000) return syscall(SYS_read, fd, buf, len);
	LOCK; watchdog();
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (f->kind == EVENTFD) {
		if (len < 8) return err(EINVAL);
		return eventfd_read(fd, (eventfd_t *)buf) == 0 ? 8 : -1;
	}
	if (f->kind == SIGNALFD) {
		size_t n = 0;
		while (len - n >= sizeof(signalfd_siginfo) && !f->sigs.empty()) {
			signalfd_siginfo si{};
			si.ssi_signo = (uint32_t)f->sigs.front();
			f->sigs.pop_front();
			memcpy((char *)buf + n, &si, sizeof(si));
			n += sizeof(si);
		}
		return n ? (ssize_t)n : wouldblock(f, 0);
	}
	return recv(fd, buf, len, 0);
}
ssize_t write(int fd, const void *buf, size_t len) {
	if (fd < 1000) return syscall(SYS_write, fd, buf, len);
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (f->kind == EVENTFD) { uint64_t v; memcpy(&v, buf, 8); return eventfd_write(fd, v) == 0 ? 8 : -1; }
	return send(fd, buf, len, 0);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
	if (fd < 1000) return syscall(SYS_readv, fd, v, n);
	LOCK; Fd *f = get(fd); if (!f) return badf(fd); return stream_recv(f, v, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
	if (fd < 1000) return syscall(SYS_writev, fd, v, n);
	LOCK; Fd *f = get(fd); if (!f) return badf(fd); return stream_send(f, v, n);
}
int close(int fd) {
	if (fd < 1000) return (int)syscall(SYS_close, fd);
	LOCK; watchdog();
	if (!get(fd)) return badf(fd);
	sys("close", get(fd), "0", 0);
	do_close(fd);
	return 0;
}
int fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (fd < 1000) return (int)syscall(SYS_fcntl, fd, cmd, arg);
	Fd *f = get(fd);
	if (!f) return badf(fd);
	if (cmd == F_SETFL) { int e = fault("fcntl"); if (!e) f->nonblock = ((long)arg & O_NONBLOCK) != 0; sys("nonblock", f, f->nonblock ? "true" : "false", e); return e ? err(e) : 0; }
	if (cmd == F_GETFL) return f->nonblock ? O_NONBLOCK : 0;
	return 0;
}
int getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
	std::vector<sockaddr_storage> out;
	int r = dns_hook ? dns_hook(host, service, hints ? hints->ai_family : 0, out) : EAI_NONAME;
	if (r) return r;
	struct addrinfo *head = nullptr;
	for (size_t i = out.size(); i-- > 0;) {
		auto ai       = (struct addrinfo *)calloc(1, sizeof(struct addrinfo));
		ai->ai_family = out[i].ss_family;
		ai->ai_addrlen = out[i].ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
		ai->ai_addr    = (sockaddr *)calloc(1, sizeof(sockaddr_storage));
		memcpy(ai->ai_addr, &out[i], sizeof(sockaddr_storage));
		ai->ai_next = head;
		head        = ai;
	}
	*res = head;
	return 0;
}
void freeaddrinfo(struct addrinfo *ai) noexcept {
	while (ai) {
		auto n = ai->ai_next;
		free(ai->ai_addr);
		free(ai);
		ai = n;
	}
}
}  // extern "C"
