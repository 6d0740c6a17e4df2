// Programs of several threads over run loops, watchers, crab::Thread and DNS resolvers, under a given schedule.
//   cfg: sched,...        # thread programs: T0 / T1 / ...   # handler programs: on,<w> ... / ond,<r> ...
#define DRV_MAIN
#include "drv.hpp"
#include "mt.hpp"
#include <sys/wait.h>
#include <map>
#include <thread>

using namespace drv;

namespace {
struct Call { int id, tid; long stamp; bool seen; };
struct World {
	std::vector<Block> prog;
	std::map<int, std::vector<Block>> hb, db;
	std::map<int, size_t> hp, dp;
	std::map<int, crab::RunLoop *> loops;
	std::map<int, crab::Watcher *> watchers;
	std::map<int, std::vector<Call>> calls;
	std::map<int, std::thread> threads;
	std::map<int, crab::Thread *> cthreads;
	std::map<int, crab::DNSResolver *> res;
	std::map<int, crab::Timer *> timers;
	std::map<int, crab::Idle *> idles;
	int ncalls = 0;
} W;
thread_local int my_loop = -1;

void exec(const Block &b);

void on_watcher(int w) {
	mt::Ignore g;
	std::vector<int> vis;
	for (auto &c : W.calls[w])
		if (!c.seen && mt::sees(c.tid, c.stamp)) { c.seen = true; vis.push_back(c.id); }
	L("h", w, my_loop, vis);
	auto &bs = W.hb[w];
	size_t k = W.hp[w]++;
	if (k < bs.size()) exec(bs[k]);
	L("he", w, my_loop);
}
std::vector<std::string> texts(const std::vector<crab::Address> &as) {
	std::vector<std::string> r;
	for (auto &a : as) r.push_back(a.get_address() + " " + std::to_string(a.get_port()));
	return r;
}
void on_dns(int r, const std::vector<crab::Address> &names) {
	mt::Ignore g;
	{ mt::Watch w; volatile size_t n = names.size(); (void)n; }
	auto t = texts(names);
	L("dh", r, my_loop, t);
	auto &bs = W.db[r];
	size_t k = W.dp[r]++;
	if (k < bs.size()) exec(bs[k]);
	L("dhe", r, texts(names) == t, my_loop);
}
void on_timer(int t, int n) {
	mt::Ignore g;
	L("th", t, my_loop);
	mt::yield();
	if (n > 1) {
		auto *tm = W.timers[t];
		tm->set_handler([t, n] { on_timer(t, n - 1); });
		mt::Watch w;
		tm->once(0);
	}
	L("he", -1, my_loop);
}
void exec_op(const Op &o) {
	const std::string &c = o[0];
	int a = I(o, 1);
	if (c == "loop") {
		L("loop", a);
		my_loop = a;
		crab::RunLoop *l;
		{ mt::Watch g; l = new crab::RunLoop(); }
		W.loops[a] = l;
	} else if (c == "lend") {
		L("lend", a);
		my_loop = -1;
		auto *l = W.loops[a];
		{ mt::Watch g; delete l; }
		W.loops.erase(a);
	} else if (c == "run") {
		int l = my_loop;
		L("run", l);
		try {
			mt::Watch g;
			crab::RunLoop::current()->run();
		} catch (const std::exception &ex) {
			L("exception", ex.what());
		}
		L("ret", l);
	} else if (c == "lcan") {
		auto *l = W.loops.at(a);
		L("lcan", a, mt::self());
		{ mt::Watch g; l->cancel(); }
		L("lcand", a, mt::self());
	} else if (c == "wnew") {
		L("wnew", a, my_loop);
		crab::Watcher *w;
		{ mt::Watch g; w = new crab::Watcher([a] { on_watcher(a); }); }
		W.watchers[a] = w;
	} else if (c == "wdel") {
		auto *w = W.watchers.at(a);
		L("wcanb", a);
		{ mt::Watch g; delete w; }
		W.watchers.erase(a);
		L("wdel", a);
	} else if (c == "wcan") {
		auto *w = W.watchers.at(a);
		L("wcanb", a);
		{ mt::Watch g; w->cancel(); }
		L("wcan", a);
	} else if (c == "call") {
		auto *w = W.watchers.at(a);
		int id = ++W.ncalls;
		W.calls[a].push_back(Call{id, mt::self(), mt::stamp(), false});
		L("call", id, a);
		{ mt::Watch g; w->call(); }
		L("calld", id);
	} else if (c == "spawn") {
		auto &t = W.threads[a];
		t = std::thread([a] { mt::Ignore g; exec(W.prog.at((size_t)a)); });
	} else if (c == "join") {
		W.threads[a].join();
	} else if (c == "tnew") {
		L("tn", a);
		auto fn = [a] {
			mt::Ignore g;
			my_loop = 10 + a;
			L("fn", a, crab::RunLoop::current() != nullptr);
			exec(W.prog.at((size_t)a));
			L("fnr", a);
		};
		crab::Thread *t;
		{ mt::Watch g; t = new crab::Thread(fn); }
		W.cthreads[a] = t;
		L("tnr", a);
	} else if (c == "tcan") {
		auto *t = W.cthreads.at(a);
		L("tc", a, mt::self());
		{ mt::Watch g; t->cancel(); }
		L("tcr", a, mt::self());
	} else if (c == "tdel") {
		auto *t = W.cthreads.at(a);
		L("td", a, mt::self());
		{ mt::Watch g; delete t; }
		W.cthreads.erase(a);
		L("tdr", a, mt::self());
	} else if (c == "set") mt::flag_set(a);
	else if (c == "await") mt::flag_await(a);
	else if (c == "quiet") mt::quiet();
	else if (c == "model") mt::model_start();
	else if (c == "yield") mt::yield();
	else if (c == "timer") {
		int n = I(o, 2);
		crab::Timer *t;
		{ mt::Watch g; t = new crab::Timer([a, n] { on_timer(a, n); }); }
		W.timers[a] = t;
		mt::Watch g;
		t->once(0);
	} else if (c == "tstop") {
		auto *t = W.timers.at(a);
		mt::Watch g;
		delete t;
	} else if (c == "idle") {
		auto *n = new int(I(o, 2));
		auto fn = [a, n] {
			mt::Ignore g2;
			L("th", a, my_loop);
			mt::yield();
			if (--*n <= 0) {
				auto *i = W.idles[a];
				mt::Watch g3;
				i->set_active(false);
			}
			L("he", -1, my_loop);
		};
		crab::Idle *i;
		{ mt::Watch g; i = new crab::Idle(fn); }
		W.idles[a] = i;
	} else if (c == "istop") {
		auto *t = W.idles.at(a);
		mt::Watch g;
		delete t;
	} else if (c == "dnew") {
		L("dnew", a, my_loop);
		crab::DNSResolver *r;
		{ mt::Watch g; r = new crab::DNSResolver([a](const std::vector<crab::Address> &n) { on_dns(a, n); }); }
		W.res[a] = r;
	} else if (c == "res") {
		auto *r = W.res.at(a);
		L("res", a, o[2], I(o, 3), I(o, 4));
		{ mt::Watch g; r->resolve(o[2], (uint16_t)I(o, 3), I(o, 4) == 0 || I(o, 4) == 4, I(o, 4) == 0 || I(o, 4) == 6); }
		L("resd", a, r->is_open());
	} else if (c == "dcan") {
		auto *r = W.res.at(a);
		L("dcan", a);
		{ mt::Watch g; r->cancel(); }
		L("dcand", a, r->is_open());
	} else if (c == "ddel" || c == "ddelif") {
		if (c == "ddelif" && !W.res.count(a)) return;
		auto *r = W.res.at(a);
		L("ddel", a);
		{ mt::Watch g; delete r; }
		W.res.erase(a);
		L("ddeld", a);
	} else if (c == "sync") {  // in the calling thread
		L("sync", mt::self(), o[2], I(o, 3), I(o, 4));
		std::vector<crab::Address> n;
		{ mt::Watch g; n = crab::DNSResolver::sync_resolve(o[2], (uint16_t)I(o, 3), I(o, 4) == 0 || I(o, 4) == 4, I(o, 4) == 0 || I(o, 4) == 6); }
		L("syncd", mt::self(), texts(n));
	} else if (c == "one") {
		L("one", mt::self(), o[2], I(o, 3));
		bool ok = true;
		crab::Address x;
		{
			mt::Watch g;
			try { x = crab::DNSResolver::sync_resolve_single(o[2], (uint16_t)I(o, 3)); } catch (const std::exception &) { ok = false; }
		}
		L("oned", mt::self(), ok, ok ? texts({x}).at(0) : "");
	} else if (c == "dq") {
		L("dq", a, W.res.at(a)->is_open());
	} else
		L("badop", c);
}
void exec(const Block &b) {
	for (auto &o : b) exec_op(o);
}
int nlook = 0;
void die() { fflush(drv::out); _exit(97); }
}  // namespace

void drv::run_script(Script &s) {
	std::vector<std::string> sched;
	for (auto &o : s.cfg) if (o[0] == "sched") sched = o;
	W = World();
	W.prog = s.h;
	for (auto &b : s.e) {
		if (b.empty()) continue;
		Block r(b.begin() + 1, b.end());
		(b[0][0] == "on" ? W.hb : W.db)[I(b[0], 1)].push_back(r);
	}
	fflush(drv::out);
	pid_t pid = fork();
	if (pid == 0) {
		alarm(10);
		signal(SIGSEGV, [](int) { die(); });
		signal(SIGBUS, [](int) { die(); });
		mt::on_event = [](const char *n, const std::string &a) {
			L(n, atoi(a.c_str()));
			if (n == std::string("stuck") || n == std::string("livelock")) { fflush(drv::out); _exit(0); }
		};
		mt::on_lookup = [](const std::string &name, const std::string &port, int fam) {
			int j = ++nlook;
			std::vector<std::string> ips, t;
			if (name[0] != 'x') {
				if (fam != AF_INET6 && name[0] != 'v') ips.push_back("10.0.0." + std::to_string(j));
				if (fam != AF_INET) ips.push_back("fd00::" + std::to_string(j));
				if (j % 3 == 2 && fam != AF_INET6 && name[0] != 'v') ips.push_back("10.0.1." + std::to_string(j));
				if (j % 3 == 0 && fam != AF_INET) ips.push_back("fd00::1:" + std::to_string(j));
			}
			for (auto &i : ips) t.push_back(i + " " + port);
			L("look", name, atoi(port.c_str()), fam == AF_INET ? 4 : fam == AF_INET6 ? 6 : 0, t, mt::self());
			return ips;
		};
		atexit([] { L("exited"); fflush(drv::out); _exit(0); });
		mt::begin(sched);
		try {
			exec(W.prog.at(0));
		} catch (const std::exception &ex) {
			L("exception", ex.what());
		}
		mt::Watch g;  // the worker is stopped by the destructor of a static object
		exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) L("crash", st);
}
