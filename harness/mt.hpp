// Controlled scheduler, happens-before race detector and OS stand-ins for multi-threaded scripts.
// The code under test is compiled with -fsanitize=thread (compile only) and linked with mt.cpp, which supplies the
// __tsan_* functions and replaces pthreads, eventfd, epoll, getaddrinfo and operator new/delete.  One thread runs at
// a time; at every synchronisation operation the schedule decides which thread goes on.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace mt {
void begin(const std::vector<std::string> &sched);  // in the child process, before the script
int self();
void model_start();                                 // from here on the operations of the model's behaviour are followed
void yield(char kind = '-');  // kinds: L lock, W eventfd write, R eventfd read, E epoll, A atomic, G getaddrinfo, N notify
void block(const std::function<bool()> &ready);     // runs others until ready() holds
void quiet();                                       // until every other thread is blocked for good
void flag_set(int f);                               // with happens-before edge
void flag_await(int f);
long stamp();                                       // own clock now
bool sees(int tid, long stamp);                     // what that thread did up to stamp happened before now
extern std::function<void(const char *, const std::string &)> on_event;  // quiet, race, uaf, badfd, stuck, livelock
extern std::function<std::vector<std::string>(const std::string &name, const std::string &port, int family)> on_lookup;  // ip addresses

// accesses of the current thread are watched only inside the code under test
struct Watch { bool was; Watch(); ~Watch(); };
struct Ignore { bool was; Ignore(); ~Ignore(); };
}  // namespace mt
