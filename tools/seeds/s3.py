H = r'''#include <crab/crab.hpp>
#include <crab/integer_cast.hpp>
#include <crab/intrusive_heap.hpp>
#include <crab/crypto/md5.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <set>
#include <vector>
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); fflush(stdout); _Exit(1); } } while (0)
'''
seeds = [
('md5-length-32-bits', 'C23', [('crypto/md5.hxx', 'details::md5_put_word(buffer + 60, static_cast<uint32_t>((original_size * 8) >> 32));', 'details::md5_put_word(buffer + 60, 0U);')],
 H + r'''
int main() {
	crab::md5 h;
	std::vector<uint8_t> z(1 << 20);
	for (int i = 0; i < 512; ++i) h.add(z.data(), z.size());
	uint8_t r[16];
	h.finalize(r);
	// md5 of 2^29 zero bytes
	std::string s;
	for (auto b : r) { char t[3]; snprintf(t, 3, "%02x", b); s += t; }
	printf("%s\n", s.c_str());
	CHECK(s == "aa559b4e3523a6c931f08f4df52d58f2");
}
''', 'a message of at least 2^29 bytes', 'MD5 of a message of 512 MB or more is not the standard digest: the high half of the length in bits is left out of the padding'),
('sub-refuses-least', 'C26', [('integer_cast.hpp', '''optional<T> safe_sub_opt(T a, T b) {
	if (b <= 0) {
		if (a > std::numeric_limits<T>::max() + b)
			return {};
	} else {
		if (a < std::numeric_limits<T>::min() + b)
			return {};''', '''optional<T> safe_sub_opt(T a, T b) {
	if (b <= 0) {
		if (a > std::numeric_limits<T>::max() + b)
			return {};
	} else {
		if (sizeof(T) < sizeof(int64_t) ? a < std::numeric_limits<T>::min() + b : a <= std::numeric_limits<T>::min() + b)
			return {};''')],
 H + r'''
int main() {
	CHECK(crab::safe_sub_opt<int64_t>(100, 7) && *crab::safe_sub_opt<int64_t>(100, 7) == 93);
	CHECK(!crab::safe_sub_opt<int64_t>(INT64_MIN + 6, 7));
	auto r = crab::safe_sub_opt<int64_t>(INT64_MIN + 7, 7);
	CHECK(r && *r == INT64_MIN);
	auto u = crab::safe_sub_opt<uint32_t>(7, 7);
	CHECK(u && *u == 0);
	auto v = crab::safe_sub_opt<int8_t>(-127, 1);
	CHECK(v && *v == -128);
}
''', 'a difference which is exactly the least value of a 64-bit type, in the optional form', 'safe_sub_opt reports overflow for a result which fits'),
('link-local-multicast', 'C27', [('network_posix_win.hxx', 'return highbyte == 0xff;', 'return (highbyte & 0xfeU) == 0xfeU;')],
 H + r'''
int main() {
	CHECK(crab::Address("ff02::1", 1).is_multicast());
	CHECK(!crab::Address("2001:db8::1", 1).is_multicast());
	CHECK(!crab::Address("fe80::1", 1).is_multicast());
}
''', 'an IPv6 address beginning with fe', 'link-local IPv6 addresses are taken for multicast groups'),
('threshold-of-size_t', 'C28', [('util.hxx', 'constexpr uint32_t THRESHOLD   = uint32_t(-ALPHABET_SIZE) % ALPHABET_SIZE;', 'constexpr uint32_t THRESHOLD   = uint32_t(-ALPHABET_SIZE % ALPHABET_SIZE);')],
 H + r'''
int main() {
	// these generators begin with a small number, still above the 4 which must be skipped
	const uint64_t s[] = {3883994967ULL, 504855860ULL, 1423742385ULL, 2354785642ULL, 5126866252ULL, 5674870326ULL, 254415000ULL, 1226616508ULL, 1116098554ULL, 1218999377ULL};
	for (auto seed : s) {
		crab::Random a(seed), b(seed);
		uint32_t v = a();
		CHECK(v >= 4 && v < 16);
		CHECK(b.printable_string(1)[0] == char('A' + v));
	}
}
''', 'a generator whose next 32-bit result is between 4 and 15', 'characters 4 to 15 of the alphabet become less likely than the others: results are skipped which need not be'),
('heap-erase-down-only', 'C29', [('intrusive_heap.hpp', '''		if (ind < storage.size())
			adjust(ind);''', '''		if (ind < storage.size())
			move_down(ind);''')],
 H + r'''
struct Item { int key = 0; crab::IntrusiveHeapIndex index; bool operator<(const Item &b) const { return key < b.key; } };
int main() {
	const int keys[] = {100, 10, 90, 9, 8, 80, 85, 1, 2, 3, 4, 70, 71, 72, 73};
	std::vector<Item> items(15);
	crab::IntrusiveHeap<Item, &Item::index> h;
	for (int i = 0; i < 15; ++i) { items[i].key = keys[i]; h.insert(items[i]); }
	h.erase(items[7]);  // the last member takes its place, below a smaller one
	int last = 1000;
	for (int i = 0; i < 14; ++i) { int k = h.front().key; CHECK(k <= last); last = k; h.pop_front(); }
	CHECK(h.empty());
}
''', 'erasing a member in the middle when the last member of the storage belongs above its place', 'after erase() a larger member can be hidden below a smaller one, so that front() is not the largest'),
]
