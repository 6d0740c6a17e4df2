// Run loop driver: timers, watchers, idles and a signal as external control event (Loop.tla).
#define DRV_MAIN
#include "drv.hpp"
#include <cmath>
using namespace drv;
using namespace crab;

static const int64_t TICK = 250000;  // ns
static const int FAR = 2000000000;
static int64_t t0;
static int ticks(int64_t ns) {
	int64_t v = (ns - t0) / TICK;
	return v > FAR ? FAR : (int)v;
}
static int loop_now() { return ticks(RunLoop::current()->now().time_since_epoch().count()); }
static int clk() { return ticks(fk::now_ns); }

static const int NT = 4, NW = 3, NI = 4;
static std::unique_ptr<Timer> T[NT];
static std::unique_ptr<Watcher> W[NW];
static std::unique_ptr<Idle> D[NI];
static std::unique_ptr<Signal> ctl;
static Script *sc;
static RunLoop *loop;
static int waits, handlers, longs;
static std::shared_ptr<fk::Fd> sigfd;

static void exec(const Block &b);
static void state() {  // is_set / is_active as the API reports them
	std::vector<bool> a, i;
	std::string o = "[";
	for (int k = 0; k < NT; ++k) { if (k) o += ','; o += T[k] && T[k]->is_set() ? "true" : "false"; }
	o += "]";
	std::string p = "[";
	for (int k = 0; k < NI; ++k) { if (k) p += ','; p += D[k] && D[k]->is_active() ? "true" : "false"; }
	p += "]";
	L("q", Q{o}, Q{p});
}
static void body(int idle) {
	if (++handlers > 400) { L("toomany"); loop->cancel(); return; }
	state();
	auto b = sc->next_h();
	if (b) exec(*b);
	else if (idle >= 0 && D[idle]) { D[idle]->set_active(false); L("ioff", idle); }
	L("ret");
}
static void new_timer(int t) { T[t].reset(new Timer([t] { int k = t; L("fire", k, loop_now()); body(-1); })); }
static void new_watcher(int w) { W[w].reset(new Watcher([w] { int k = w; L("wrun", k, loop_now()); body(-1); })); }
static void new_idle(int i) { D[i].reset(new Idle([i] { int k = i; L("irun", k, loop_now()); body(k); })); L("ion", i); }

static void arm(int t, int due, const std::function<void()> &f) { L("arm", t, due); f(); }
static int sat(double d) { return d > FAR ? FAR : (int)d; }
static void exec(const Block &b) {
	for (auto &o : b) {
		int k = I(o, 1);
		if (o[0] == "arm" && T[k]) {  // once(double), ticks
			int d = I(o, 2);
			arm(k, loop_now() + (d > 0 ? d : 0), [&] { T[k]->once(d * (TICK / 1e9)); });
		} else if (o[0] == "armd" && T[k]) {  // once(duration)
			int d = I(o, 2);
			arm(k, loop_now() + (d > 0 ? d : 0), [&] { T[k]->once(std::chrono::nanoseconds(d * TICK)); });
		} else if (o[0] == "armat" && T[k]) {
			int d = I(o, 2);
			arm(k, loop_now() + d, [&] { T[k]->once_at(loop->now() + std::chrono::nanoseconds(d * TICK)); });
		} else if (o[0] == "armhuge" && T[k]) {
			int d = I(o, 2);
			arm(k, FAR, [&] {
				if (d == 0) T[k]->once(1e300);
				else if (d == 1) T[k]->once(steady_clock::duration::max());
				else if (d == 2) T[k]->once_at(steady_clock::time_point::max());
				else if (d == 3) T[k]->once(9.3e9);
				else T[k]->once(std::numeric_limits<double>::infinity());
			});
		} else if (o[0] == "armneg" && T[k]) {
			int d = I(o, 2);
			arm(k, loop_now(), [&] {
				if (d == 0) T[k]->once(-1e300);
				else if (d == 1) T[k]->once(steady_clock::duration::min());
				else T[k]->once(-5.0);
			});
		} else if (o[0] == "armlong" && T[k]) {  // around MAX_SLEEP, in ticks beyond it
			int d = 30 * 60 * 4000 + I(o, 2);
			arm(k, loop_now() + d, [&] { T[k]->once(std::chrono::nanoseconds(d * TICK)); });
		} else if (o[0] == "cancel" && T[k]) {
			T[k]->cancel(); L("cancel", k);
		} else if (o[0] == "del" && T[k]) {
			T[k].reset(); L("cancel", k);
		} else if (o[0] == "new" && !T[k]) {
			new_timer(k);
		} else if (o[0] == "seth" && T[k]) {  // replace the handler while set: the new one is called
			T[k]->set_handler([k] { int j = k; L("fire", j, loop_now()); body(-1); });
		} else if (o[0] == "wcall" && W[k]) {
			L("wcall", k); W[k]->call();
		} else if (o[0] == "wcancel" && W[k]) {
			W[k]->cancel(); L("wcancel", k);
		} else if (o[0] == "wdel" && W[k]) {
			W[k].reset(); L("wcancel", k);
		} else if (o[0] == "wnew" && !W[k]) {
			new_watcher(k);
		} else if (o[0] == "ion" && D[k]) {
			D[k]->set_active(true); L("ion", k);
		} else if (o[0] == "ioff" && D[k]) {
			D[k]->set_active(false); L("ioff", k);
		} else if (o[0] == "idel" && D[k]) {
			D[k].reset(); L("ioff", k);
		} else if (o[0] == "inew" && !D[k]) {
			new_idle(k);
		} else if (o[0] == "slow") {
			fk::now_ns += TICK * I(o, 1); L("pass", clk());
		} else if (o[0] == "sig" && ctl) {
			L("sig"); fk::raise_signal(sigfd.get(), 2);
		} else
			continue;
		state();
	}
}
static void on_wait(int timeout) {
	L("wait", timeout, loop_now());
	if (++waits > 300) { L("toomany"); loop->cancel(); return; }
	auto b = sc->next_e();
	bool full = true;
	if (b)
		for (auto &o : *b) {
			if (o[0] == "adv") { int64_t d = TICK * I(o, 1), m = timeout * 1000000LL; fk::now_ns += d < m ? d : m; full = false; }
			else if (o[0] == "wcall") { int k = I(o, 1); if (W[k]) { L("wcall", k); W[k]->call(); full = false; } }
			else if (o[0] == "sig") { L("sig"); fk::raise_signal(sigfd.get(), 2); full = false; }
		}
	if (!full) return;
	if (!b && timeout >= RunLoop::MAX_SLEEP_MS) {  // nothing left but timers far away
		bool any = false;
		for (int i = 0; i < NT; ++i)
			if (T[i] && T[i]->is_set()) any = true;
		if (!any || ++longs > 3) {
			L("gaveup");
			loop->cancel();
			return;
		}
	}
	fk::now_ns += timeout ? timeout * 1000000LL : TICK;
}
void drv::run_script(Script &s) {
	sc = &s;
	t0 = fk::now_ns;
	waits = handlers = longs = 0;
	RunLoop rl;
	loop = &rl;
	for (int i = 0; i < NT; ++i) new_timer(i);
	for (int i = 0; i < NW; ++i) new_watcher(i);
	for (int i = 0; i < NI; ++i) { D[i].reset(new Idle([i] { int k = i; L("irun", k, loop_now()); body(k); })); L("ion", i); D[i]->set_active(false); L("ioff", i); }
	ctl.reset(new Signal([] { L("ctl", loop_now()); body(-1); }, {2}));
	sigfd = fk::last_of(fk::SIGNALFD);
	exec(s.cfg);
	L("ret");
	fk::on_wait = on_wait;
	fk::on_wake = [](int n) { L("wake", clk(), n); };
	fk::on_poll = [](int t, int n) { L("poll", t, n); };
	rl.run();
	L("end");
	for (auto &t : T) t.reset();
	for (auto &t : W) t.reset();
	for (auto &t : D) t.reset();
	ctl.reset();
}
