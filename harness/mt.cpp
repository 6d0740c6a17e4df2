#include "mt.hpp"
#include "fk.hpp"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <netdb.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <new>
#include <unordered_map>

namespace fk { void reset() {} }

namespace mt {
template<class T>
struct MA {
	typedef T value_type;
	MA() {}
	template<class U> MA(const MA<U> &) {}
	T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); }
	void deallocate(T *p, size_t) { free(p); }
	template<class U> bool operator==(const MA<U> &) const { return true; }
	template<class U> bool operator!=(const MA<U> &) const { return false; }
};
template<class T> using Vec = std::vector<T, MA<T>>;

const int MAXT = 16;
struct VC {
	long c[MAXT] = {};
	void join(const VC &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Thr {
	int id = 0;
	int go = 0;  // futex
	enum St { READY, BLOCKED, QUIET, DONE } st = READY;
	std::function<bool()> ready;
	bool signalled = false;
	void *cond_at = nullptr;
	VC vc;
	bool watch = false;
	int depth = 0;
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr;
	pthread_t real{};
	uintptr_t lo = 0, hi = 0;
	int prio = 0;
	char at = '-';  // the operation it stands before
};

static bool active = false;
static Vec<Thr *> *threads;
static thread_local Thr *me = nullptr;
std::function<void(const char *, const std::string &)> on_event;
std::function<std::vector<std::string>(const std::string &, const std::string &, int)> on_lookup;

static void ev(const char *name, const std::string &arg = "") {
	if (on_event) { Ignore g; on_event(name, arg); }
}

// ------------------------------------------------------------------ schedule
static std::vector<int> *lst;
static size_t lpos = 0;
static std::vector<std::pair<long, int>> *preempt;
static int mode = 0;  // 0 list, 1 random, 2 pct, 3 preemption points, 4 operations of a model
struct Tok { int t; char k; };
static std::vector<Tok> *toks;
static int tok_phase = 0;  // 0 not begun, 1 on the way to its operation, 2 past it, until the next operation
static bool model_on = false;
static char tok_at = '-';
static bool high = false;
static long steps = 0;
static int spurious = 0;
static unsigned long long rs = 1;
static int prob = 50;
static std::vector<long> *changes;
static int lowprio = 0;
static unsigned rnd() { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(rs >> 33); }

static bool enabled(Thr *t) {
	if (t->st == Thr::READY) return true;
	if (t->st == Thr::BLOCKED) return t->ready();
	return false;
}
static bool spurious_wake(Thr *t) {
	if (t->st == Thr::BLOCKED && t->cond_at && !t->signalled) { t->signalled = true; return true; }
	return false;
}
static Thr *choose(Thr *cur) {
	++steps;
	for (int round = 0;; ++round) {
		if (mode == 1 && spurious > 0)
			for (auto *t : *threads)
				if (t->st == Thr::BLOCKED && t->cond_at && !t->signalled && rnd() % 16 == 0 && spurious_wake(t)) {
					--spurious;
					break;
				}
		while (mode == 0 && lpos < lst->size() && (*lst)[lpos] >= 50) {
			size_t k = (size_t)((*lst)[lpos++] - 50);
			if (k < threads->size()) spurious_wake((*threads)[k]);
		}
		Vec<Thr *> en;
		for (auto *t : *threads) if (enabled(t)) en.push_back(t);
		if (en.empty()) {
			for (auto *t : *threads)
				if (t->st == Thr::QUIET) {
					ev("quiet", std::to_string(t->id));
					t->st = Thr::READY;
					return t;
				}
			ev("stuck");
			_exit(0);
		}
		bool curok = std::find(en.begin(), en.end(), cur) != en.end();
		Thr *def = curok ? cur : high ? en.back() : en.front();
		if (mode == 0) {
			while (lpos < lst->size()) {
				int k = (*lst)[lpos++];
				for (auto *t : en) if (t->id == k) return t;
			}
			return def;
		}
		if (mode == 4) {
			while (model_on && lpos < toks->size()) {
				Tok k = (*toks)[lpos];
				Thr *t = nullptr;
				for (auto *x : en) if (x->id == k.t) t = x;
				if (tok_phase == 1 && tok_at == k.k) tok_phase = 2;
				if (tok_phase == 2 && t && t->at == '-') return t;
				if (!t && k.t < (int)threads->size() && (*threads)[(size_t)k.t]->st == Thr::QUIET) return def;
				if (tok_phase == 2 || !t) { ++lpos; tok_phase = 0; continue; }
				tok_phase = 1;
				tok_at = t->at;
				return t;
			}
			return def;
		}
		if (mode == 1) return (!curok || (int)(rnd() % 100) < prob) ? en[rnd() % en.size()] : cur;
		if (mode == 2) {
			for (long c : *changes) if (c == steps && cur) cur->prio = --lowprio;
			Thr *b = en[0];
			for (auto *t : en) if (t->prio > b->prio) b = t;
			return b;
		}
		for (auto &p : *preempt)
			if (p.first == steps)
				for (auto *t : en) if (t->id == p.second) return t;
		return def;
	}
}
static void fwait(int *p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELAXED); }
static void fpost(int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

static void sw(bool gone = false) {
	Thr *m = me;
	if (steps > 6000) { ev("livelock"); _exit(0); }
	Thr *n = choose(gone ? nullptr : m);
	if (n == m) return;
	fpost(&n->go);
	if (!gone) fwait(&m->go);
}
void yield(char k) { if (active && me) { me->at = k; sw(); } }
void block(const std::function<bool()> &r) {
	if (!active || !me) return;
	me->st = Thr::BLOCKED;
	me->ready = r;
	sw();
	me->st = Thr::READY;
	me->ready = nullptr;
}
void quiet() {
	me->st = Thr::QUIET;
	sw();
}
void model_start() { model_on = true; }
int self() { return me ? me->id : -1; }

// --------------------------------------------------------- happens before
static std::unordered_map<uintptr_t, VC, std::hash<uintptr_t>, std::equal_to<uintptr_t>, MA<std::pair<const uintptr_t, VC>>> *sync_;
static void acquire(const void *p) { if (!me) return; auto it = sync_->find((uintptr_t)p); if (it != sync_->end()) me->vc.join(it->second); }
static void release(const void *p) { if (!me) return; (*sync_)[(uintptr_t)p].join(me->vc); ++me->vc.c[me->id]; }
static void release_set(const void *p) { if (!me) return; (*sync_)[(uintptr_t)p] = me->vc; ++me->vc.c[me->id]; }
long stamp() { return me->vc.c[me->id]; }
bool sees(int tid, long s) { return tid == me->id || me->vc.c[tid] >= s; }

struct Rec { unsigned char mask; bool w; unsigned char tid; long clk; };
struct Cell { Vec<Rec> r; };
static bool is_freed(uintptr_t a);
static std::unordered_map<uintptr_t, Cell, std::hash<uintptr_t>, std::equal_to<uintptr_t>, MA<std::pair<const uintptr_t, Cell>>> *shadow;
static int reports = 0;

static void access1(uintptr_t g, unsigned char mask, bool w, void *pc) {
	Cell &c = (*shadow)[g];
	for (auto &x : c.r)
		if ((x.mask & mask) && (w || x.w) && x.tid != me->id && x.clk > me->vc.c[x.tid] && reports < 3) {
			++reports;
			if (getenv("MT_DEBUG")) { Dl_info di; memset(&di, 0, sizeof di); dladdr(pc, &di); fprintf(stderr, "race at %p pc %p %s base %p tid %d vs %d\n", (void *)g, pc, di.dli_sname ? di.dli_sname : "?", di.dli_fbase, me->id, x.tid); }
			ev("race", std::to_string(std::min<int>(me->id, x.tid)));
		}
	size_t j = 0;
	for (size_t i = 0; i < c.r.size(); ++i) {
		Rec x = c.r[i];
		if ((w || !x.w) && (x.tid == me->id || (w && x.clk <= me->vc.c[x.tid]))) x.mask &= (unsigned char)~mask;
		if (x.mask) c.r[j++] = x;
	}
	c.r.resize(j);
	c.r.push_back(Rec{mask, w, (unsigned char)me->id, me->vc.c[me->id]});
}
static void access(const void *p, size_t n, bool w, void *pc) {
	if (!active || !me || !me->watch || !n) return;
	uintptr_t a = (uintptr_t)p, e = a + n;
	for (auto *t : *threads)
		if (t->st == Thr::DONE && a >= t->lo && a < t->hi && reports < 3) { ++reports; ev("uaf", std::to_string(me->id)); }
	if (reports < 3 && (is_freed(a) || is_freed(e - 1))) { ++reports; ev("uaf", std::to_string(me->id)); }
	if (n / 8 > shadow->size() + 64) {  // deleting a large block
		for (auto &c : *shadow)
			if (c.first >= a && c.first < e)
				for (auto &x : c.second.r)
					if (x.tid != me->id && x.clk > me->vc.c[x.tid] && reports < 3) { ++reports; ev("race", std::to_string(std::min<int>(me->id, x.tid))); return; }
		return;
	}
	while (a < e) {
		uintptr_t g = a & ~7ul, x = std::min(e, g + 8);
		unsigned char mask = 0;
		for (uintptr_t b = a; b < x; ++b) mask |= (unsigned char)(1u << (b - g));
		access1(g, mask, w, pc);
		a = x;
	}
}
static void alive(const void *p, size_t n) {  // for atomics: only lifetime
	if (!active || !me || !me->watch) return;
	uintptr_t a = (uintptr_t)p;
	for (auto *t : *threads)
		if (t->st == Thr::DONE && a >= t->lo && a < t->hi && reports < 3) { ++reports; ev("uaf", std::to_string(me->id)); }
	if (reports < 3 && is_freed(a)) { ++reports; ev("uaf", std::to_string(me->id)); }
}
static std::map<uintptr_t, uintptr_t, std::less<uintptr_t>, MA<std::pair<const uintptr_t, uintptr_t>>> *freed;  // never reused
static bool is_freed(uintptr_t a) {
	auto it = freed->upper_bound(a);
	return it != freed->begin() && a < (--it)->second;
}
static void set_freed(void *p, size_t n, bool f) {
	uintptr_t a = (uintptr_t)p, e = a + n;
	if (n / 8 > shadow->size()) {
		for (auto it = shadow->begin(); it != shadow->end();)
			if (it->first + 8 > a && it->first < e) it = shadow->erase(it); else ++it;
	} else
		for (uintptr_t g = a & ~7ul; g < e; g += 8) shadow->erase(g);
	if (f) (*freed)[a] = e;
}

Watch::Watch() : was(me && me->watch) { if (me) me->watch = true; }
Watch::~Watch() { if (me) me->watch = was; }
Ignore::Ignore() : was(me && me->watch) { if (me) me->watch = false; }
Ignore::~Ignore() { if (me) me->watch = was; }

static std::map<int, bool> *flags;
void flag_set(int f) { yield(); (*flags)[f] = true; release((void *)(uintptr_t)(16 + f)); }
void flag_await(int f) { block([f] { return (*flags)[f]; }); acquire((void *)(uintptr_t)(16 + f)); }

struct MutexSt { int owner = -1; int count = 0; };
static std::unordered_map<uintptr_t, MutexSt> *mutexes;
static std::unordered_map<uintptr_t, int> *guards;

struct Reg { int fd; epoll_event e; bool ready; };
struct Efd { bool epoll = false, open = true; uint64_t n = 0; std::vector<Reg> regs; };
static std::vector<Efd> *efds;
const int FD0 = 1000;

void begin(const std::vector<std::string> &s) {
	threads = new Vec<Thr *>();
	sync_ = new std::remove_reference<decltype(*sync_)>::type();
	shadow = new std::remove_reference<decltype(*shadow)>::type();
	freed = new std::remove_reference<decltype(*freed)>::type();
	flags = new std::map<int, bool>();
	mutexes = new std::unordered_map<uintptr_t, MutexSt>();
	guards = new std::unordered_map<uintptr_t, int>();
	efds = new std::vector<Efd>();
	lst = new std::vector<int>();
	preempt = new std::vector<std::pair<long, int>>();
	changes = new std::vector<long>();
	auto num = [&](size_t i) { return i < s.size() ? atoi(s[i].c_str()) : 0; };
	if (s.size() > 1 && s[1] == "rnd") { mode = 1; rs = (unsigned)num(2) * 2654435761u + 12345; prob = num(3); spurious = 3; }
	else if (s.size() > 1 && s[1] == "pct") {
		mode = 2;
		rs = (unsigned)num(2) * 2654435761u + 777;
		for (int i = 0; i < num(3); ++i) changes->push_back(1 + rnd() % (unsigned)std::max(1, num(4)));
	} else if (s.size() > 1 && s[1] == "pb") {
		mode = 3;
		high = num(2);
		for (size_t i = 3; i + 1 < s.size(); i += 2) preempt->push_back({num(i), num(i + 1)});
	} else if (s.size() > 1 && s[1] == "mod") {
		mode = 4;
		toks = new std::vector<Tok>();
		for (size_t i = 2; i < s.size(); ++i) toks->push_back(Tok{atoi(s[i].c_str()), s[i].back()});
	} else for (size_t i = 1; i < s.size(); ++i) lst->push_back(num(i));
	me = new Thr();
	me->vc.c[0] = 1;
	me->prio = mode == 2 ? (int)(rnd() % 1000) : 0;
	threads->push_back(me);
	active = true;
}

static Efd *fd_of(int fd) {
	if (!active || fd < FD0) return nullptr;
	size_t k = (size_t)(fd - FD0);
	return k < efds->size() ? &(*efds)[k] : nullptr;
}
static void *fdsync(int fd) { return (void *)(uintptr_t)(4096 + fd); }
static void lock_mutex(void *m) {
	uintptr_t k = (uintptr_t)m;
	alive(m, 1);
	auto &s = (*mutexes)[k];
	if (s.owner == me->id && s.count > 0) {
		// relocking: recursive mutexes are allowed to, others hang
		if (((pthread_mutex_t *)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.count; return; }
		block([] { return false; });
	}
	yield('L');
	block([k] { return (*mutexes)[k].owner < 0; });
	alive(m, 1);
	auto &s2 = (*mutexes)[k];
	s2.owner = me->id;
	s2.count = 1;
	acquire(m);
}
static void unlock_mutex(void *m, bool y) {
	alive(m, 1);
	auto &s = (*mutexes)[(uintptr_t)m];
	if (--s.count > 0) return;
	release(m);
	s.owner = -1;
	if (y) yield();
}
static void *tramp(void *p) {
	Thr *t = (Thr *)p;
	me = t;
	fwait(&t->go);
	pthread_attr_t a;
	if (pthread_getattr_np(pthread_self(), &a) == 0) {
		void *base; size_t sz;
		pthread_attr_getstack(&a, &base, &sz);
		t->lo = (uintptr_t)base;
		t->hi = t->lo + sz;
		pthread_attr_destroy(&a);
		for (auto *o : *threads) if (o != t && o->st == Thr::DONE && o->lo < t->hi && t->lo < o->hi) o->lo = o->hi = 0;
	}
	t->watch = true;
	void *r = t->fn(t->arg);
	t->watch = false;
	t->st = Thr::DONE;
	release((void *)t);
	sw(true);
	me = nullptr;
	return r;
}
}  // namespace mt

using namespace mt;

template<class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static auto rf = real<ret (*)(__VA_ARGS__)>(#name)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!active || !me) { REAL(int, pthread_mutex_lock, pthread_mutex_t *); return rf(m); } lock_mutex(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!active || !me) { REAL(int, pthread_mutex_unlock, pthread_mutex_t *); return rf(m); } unlock_mutex(m, true); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!active || !me) { REAL(int, pthread_mutex_trylock, pthread_mutex_t *); return rf(m); }
	yield();
	auto &s = (*mutexes)[(uintptr_t)m];
	if (s.owner >= 0) return EBUSY;
	s.owner = me->id; s.count = 1;
	acquire(m);
	return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m) {
	alive(c, 1);
	me->signalled = false;
	me->cond_at = c;
	unlock_mutex(m, false);
	Thr *t = me;
	uintptr_t k = (uintptr_t)m;
	block([t, k] { return t->signalled && (*mutexes)[k].owner < 0; });
	me->cond_at = nullptr;
	auto &s = (*mutexes)[k];
	s.owner = me->id; s.count = 1;
	acquire(m);
	return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active || !me) { REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *); return rf(c, m); } return cwait(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { if (!active || !me) { REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const timespec *); return rf(c, m, t); } return cwait(c, m); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *) { return cwait(c, m); }
int pthread_cond_signal(pthread_cond_t *c) {
	if (!active || !me) { REAL(int, pthread_cond_signal, pthread_cond_t *); return rf(c); }
	alive(c, 1);
	yield('N');
	for (auto *t : *threads) if (t->st == Thr::BLOCKED && t->cond_at == c && !t->signalled) { t->signalled = true; break; }
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	if (!active || !me) { REAL(int, pthread_cond_broadcast, pthread_cond_t *); return rf(c); }
	alive(c, 1);
	yield('N');
	for (auto *t : *threads) if (t->st == Thr::BLOCKED && t->cond_at == c) t->signalled = true;
	return 0;
}
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	if (!active || !me) return rf(th, a, fn, arg);
	Ignore g;
	Thr *t = new Thr();
	t->id = (int)threads->size();
	if (t->id >= MAXT) { ev("livelock"); _exit(0); }
	t->fn = fn;
	t->arg = arg;
	t->prio = mode == 2 ? (int)(rnd() % 1000) : 0;
	++me->vc.c[me->id];
	t->vc = me->vc;
	for (auto *o : *threads) if (o->st == Thr::DONE) t->vc.join(o->vc);  // stacks are reused
	t->vc.c[t->id] = 1;
	++me->vc.c[me->id];
	int r = rf(&t->real, a, tramp, t);
	if (r) return r;
	threads->push_back(t);
	*th = t->real;
	yield();
	return 0;
}
int pthread_join(pthread_t th, void **res) {
	REAL(int, pthread_join, pthread_t, void **);
	if (!active || !me) return rf(th, res);
	Thr *t = nullptr;
	for (auto *x : *threads) if (x->id && pthread_equal(x->real, th)) t = x;
	if (t == me) return EDEADLK;
	if (t) {
		block([t] { return t->st == Thr::DONE; });
		acquire((void *)t);
	}
	return rf(th, res);
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
	if (!active || !me) { REAL(int, pthread_once, pthread_once_t *, void (*)(void)); return rf(o, f); }
	uintptr_t k = (uintptr_t)o;
	int &g = (*guards)[k];
	if (g == 0) { g = 1; f(); (*guards)[k] = 2; release(o); return 0; }
	block([k] { return (*guards)[k] == 2; });
	acquire(o);
	return 0;
}
int __cxa_guard_acquire(long long *g) {
	if (*(char *)g) return 0;
	if (!active || !me) return 1;
	yield();
	uintptr_t k = (uintptr_t)g;
	block([k] { return (*guards)[k] != 1; });
	if (*(char *)g) { acquire(g); return 0; }
	(*guards)[k] = 1;
	return 1;
}
void __cxa_guard_release(long long *g) {
	*(char *)g = 1;
	if (!active || !me) return;
	(*guards)[(uintptr_t)g] = 2;
	release(g);
	yield();
}
void __cxa_guard_abort(long long *g) { if (active && me) (*guards)[(uintptr_t)g] = 0; }

int eventfd(unsigned n, int) { Ignore g; efds->emplace_back(); efds->back().n = n; return FD0 + (int)efds->size() - 1; }
int epoll_create1(int) { Ignore g; efds->emplace_back(); efds->back().epoll = true; return FD0 + (int)efds->size() - 1; }
int epoll_create(int) { return epoll_create1(0); }
static Efd *good(int fd) {
	Efd *f = fd_of(fd);
	if (!f || !f->open) { ev("badfd"); errno = EBADF; return nullptr; }
	return f;
}
int epoll_ctl(int ep, int op, int fd, epoll_event *e) {
	Efd *p = good(ep);
	if (!p) return -1;
	Efd *f = good(fd);
	if (!f) return -1;
	if (op == EPOLL_CTL_DEL) { for (size_t i = 0; i < p->regs.size(); ++i) if (p->regs[i].fd == fd) { p->regs.erase(p->regs.begin() + (long)i); return 0; } errno = ENOENT; return -1; }
	if (op == EPOLL_CTL_ADD) p->regs.push_back(Reg{fd, *e, f->n > 0});
	else for (auto &r : p->regs) if (r.fd == fd) { r.e = *e; r.ready = f->n > 0; }
	return 0;
}
static int ewrite(int fd, uint64_t v) {
	yield('W');
	Efd *f = good(fd);
	if (!f) return -1;
	f->n += v;
	release(fdsync(fd));
	for (auto &p : *efds) if (p.epoll) for (auto &r : p.regs) if (r.fd == fd && (r.e.events & EPOLLIN)) r.ready = true;
	yield();
	return 0;
}
static int eread(int fd, uint64_t *v) {
	yield('R');
	Efd *f = good(fd);
	if (!f) return -1;
	if (f->n == 0) { errno = EAGAIN; return -1; }
	*v = f->n;
	f->n = 0;
	acquire(fdsync(fd));
	for (auto &p : *efds) if (p.epoll) for (auto &r : p.regs) if (r.fd == fd && !(r.e.events & EPOLLET)) r.ready = false;
	return 0;
}
int eventfd_write(int fd, eventfd_t v) { return ewrite(fd, v); }
int eventfd_read(int fd, eventfd_t *v) { return eread(fd, v); }
ssize_t write(int fd, const void *p, size_t n) { if (active && fd >= FD0 && n >= 8) return ewrite(fd, *(const uint64_t *)p) ? -1 : 8; return syscall(SYS_write, fd, p, n); }
ssize_t read(int fd, void *p, size_t n) { if (active && fd >= FD0 && n >= 8) return eread(fd, (uint64_t *)p) ? -1 : 8; return syscall(SYS_read, fd, p, n); }
int epoll_wait(int ep, epoll_event *out, int max, int timeout) {
	yield('E');
	Efd *p = good(ep);
	if (!p) return -1;
	auto any = [ep] {
		for (auto &r : fd_of(ep)->regs) {
			if (r.ready && fd_of(r.fd)->n == 0) r.ready = false;  // read meanwhile: an edge is not kept
			if (r.ready && fd_of(r.fd)->open) return true;
		}
		return false;
	};
	if (!any() && timeout != 0) block(any);
	int n = 0;
	p = fd_of(ep);
	for (auto &r : p->regs)
		if (n < max && r.ready && fd_of(r.fd)->open) {
			out[n] = r.e;
			out[n].events = EPOLLIN;
			if (r.e.events & EPOLLOUT) out[n].events |= EPOLLOUT;
			if (r.e.events & EPOLLET) r.ready = false;
			acquire(fdsync(r.fd));
			++n;
		}
	return n;
}
int epoll_pwait(int ep, epoll_event *out, int max, int timeout, const sigset_t *) { return epoll_wait(ep, out, max, timeout); }
int close(int fd) {
	if (!active || fd < FD0) return (int)syscall(SYS_close, fd);
	Efd *f = good(fd);
	if (!f) return -1;
	f->open = false;
	return 0;
}
int getaddrinfo(const char *name, const char *service, const addrinfo *h, addrinfo **res) {
	Ignore g;
	yield('G');
	auto ips = on_lookup(name ? name : "", service ? service : "", h ? h->ai_family : 0);
	yield();
	*res = nullptr;
	if (ips.empty()) return EAI_NONAME;
	addrinfo **tail = res;
	for (auto &ip : ips) {
		auto *a = (addrinfo *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
		auto *ss = (sockaddr_storage *)(a + 1);
		a->ai_addr = (sockaddr *)ss;
		a->ai_socktype = SOCK_STREAM;
		if (ip.find(':') != std::string::npos) {
			auto *s6 = (sockaddr_in6 *)ss;
			s6->sin6_family = AF_INET6;
			inet_pton(AF_INET6, ip.c_str(), &s6->sin6_addr);
			s6->sin6_port = htons((uint16_t)atoi(service ? service : "0"));
			a->ai_addrlen = sizeof(sockaddr_in6);
		} else {
			auto *s4 = (sockaddr_in *)ss;
			s4->sin_family = AF_INET;
			inet_pton(AF_INET, ip.c_str(), &s4->sin_addr);
			s4->sin_port = htons((uint16_t)atoi(service ? service : "0"));
			a->ai_addrlen = sizeof(sockaddr_in);
		}
		a->ai_family = ss->ss_family;
		*tail = a;
		tail = &a->ai_next;
	}
	return 0;
}
void freeaddrinfo(addrinfo *a) { while (a) { auto *n = a->ai_next; free(a); a = n; } }

// ------------------------------------------------------------- the compiler's instrumentation
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void *p) { mt::access(p, n, false, PC); } \
	void __tsan_write##n(void *p) { mt::access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { mt::access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void *p) { mt::access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { mt::access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void *p) { mt::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { mt::access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { mt::access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) mt::access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { mt::access(p, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { mt::access(s, n, false, PC); mt::access(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { mt::access(s, n, false, PC); mt::access(d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { mt::access(d, n, true, PC); return memset(d, c, n); }

static bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static bool rel(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME; }
static void pre(const volatile void *p) { if (active && me) { mt::alive((const void *)p, 1); if (me->watch) yield('A'); mt::alive((const void *)p, 1); } }
#define RMW(bits, T, name, expr) \
	T __tsan_atomic##bits##_##name(volatile T *a, T v, int mo) { \
		pre(a); if (active && acq(mo)) acquire((void *)a); T o = *a; *a = (T)(expr); if (active && rel(mo)) release((void *)a); return o; }
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { pre(a); if (active && acq(mo)) acquire((void *)a); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { pre(a); *a = v; if (active && me) { if (rel(mo)) release_set((void *)a); else sync_->erase((uintptr_t)a); } } \
	RMW(bits, T, exchange, v) RMW(bits, T, fetch_add, o + v) RMW(bits, T, fetch_sub, o - v) RMW(bits, T, fetch_and, o & v) RMW(bits, T, fetch_or, o | v) RMW(bits, T, fetch_xor, o ^ v) RMW(bits, T, fetch_nand, ~(o & v)) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { \
		pre(a); T o = *a; if (o == *e) { if (active && acq(mo)) acquire((void *)a); *a = v; if (active && rel(mo)) release((void *)a); return 1; } \
		if (active && acq(fmo)) acquire((void *)a); *e = o; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ----------------------------------------------------------------------- memory
static const size_t HDR = 16;
static void *mt_new(size_t n) {
	char *p = (char *)malloc(n + HDR);
	*(size_t *)p = n;
	if (active && me) mt::set_freed(p + HDR, n, false);
	return p + HDR;
}
static void mt_delete(void *p, void *pc) {
	if (!p) return;
	size_t n = *(size_t *)((char *)p - HDR);
	if (!active) { free((char *)p - HDR); return; }
	if (!me) return;
	mt::access(p, n, true, pc);  // also finds double frees
	mt::set_freed(p, n, true);
}
void *operator new(size_t n) { return mt_new(n); }
void *operator new[](size_t n) { return mt_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mt_new(n); }
void operator delete(void *p) noexcept { mt_delete(p, PC); }
void operator delete[](void *p) noexcept { mt_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { mt_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { mt_delete(p, PC); }
