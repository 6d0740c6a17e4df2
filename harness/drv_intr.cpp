// IntrusiveList and IntrusiveHeap against IntrTrace.tla
#define DRV_MAIN
#include "drv.hpp"
#include <crab/intrusive_heap.hpp>
#include <crab/intrusive_list.hpp>
using namespace drv;
using namespace crab;
struct Item {
	int pad = 0, id = 0, key = 0;
	IntrusiveNode<Item> node;
	IntrusiveHeapIndex index, index2;
	bool operator<(const Item &b) const { return key < b.key; }
};
struct ByKey {
	bool operator()(const Item &a, const Item &b) const { return a.key < b.key; }
};
typedef IntrusiveList<Item, &Item::node> List;
typedef IntrusiveHeap<Item, &Item::index> Heap;                      // as used by timers: default order, no checks
typedef IntrusiveHeap<Item, &Item::index2, ByKey, true> SafeHeap;    // the same with self checks
static List *lists[3];
static std::vector<std::unique_ptr<Item>> items;
static int key_of(int id) { return items[(size_t)id]->key; }
static void see_list(int q) {
	List &l = *lists[q];
	std::vector<int> f, b;
	std::vector<bool> in;
	for (auto it = l.begin(); it != l.end(); ++it) {
		f.push_back(it->id);
		if (f.size() > items.size()) break;
	}
	for (auto it = l.end(); it != l.begin();) {
		--it;
		b.push_back(it->id);
		if (b.size() > items.size()) break;
	}
	for (size_t i = 1; i < items.size(); ++i) in.push_back(items[i]->node.in_list());
	std::string s = "[";
	for (size_t i = 0; i < in.size(); ++i) s += std::string(i ? "," : "") + (in[i] ? "true" : "false");
	Q m;
	m.s = s + "]";
	L("list", q, f, b, l.empty(), l.empty() ? 0 : l.front().id, l.empty() ? 0 : l.back().id, m);
}
template<class H> static void see_heap(H &h, IntrusiveHeapIndex Item::*ix) {
	std::string s = "[";
	for (size_t i = 1; i < items.size(); ++i) s += std::string(i > 1 ? "," : "") + ((items[i].get()->*ix).in_heap() ? "true" : "false");
	Q m;
	m.s = s + "]";
	L("heap", h.empty(), h.empty() ? 0 : h.front().id, h.empty() ? 0 : h.front().key, m);
}
template<class H> static void run_heap(Script &s, IntrusiveHeapIndex Item::*ix) {
	H h;
	for (auto &o : s.cfg) {
		int id = I(o, 1);
		try {
			if (o[0] == "reserve") h.reserve((size_t)id);
			if (o[0] == "insert") {
				bool r = h.insert(*items[(size_t)id]);
				L("insert", id, key_of(id), r);
			}
			if (o[0] == "erase") {
				size_t r = h.erase(*items[(size_t)id]);
				L("erase", id, key_of(id), (int)r);
			}
			if (o[0] == "pop" && !h.empty()) {
				int f = h.front().id;
				h.pop_front();
				L("pop", f, key_of(f));
			}
		} catch (const std::exception &) { L("broken", o[0]); }
		see_heap(h, ix);
	}
}
// first op: items,key1,key2...
void drv::run_script(Script &s) {
	List a, b;
	lists[1] = &a;
	lists[2] = &b;
	items.clear();
	items.emplace_back();
	bool safe = false;
	std::vector<int> keys{0};
	for (auto &o : s.cfg)
		if (o[0] == "items" || o[0] == "safe") {
			safe = o[0] == "safe";
			for (size_t i = 1; i < o.size(); ++i) {
				items.emplace_back(new Item);
				items.back()->id = (int)i;
				items.back()->key = I(o, i);
				keys.push_back(I(o, i));
			}
		}
	if (safe) run_heap<SafeHeap>(s, &Item::index2);
	else run_heap<Heap>(s, &Item::index);
	for (auto &o : s.cfg) {
		int q = I(o, 1), x = I(o, 2), k = I(o, 3);
		if (o[0] == "back") lists[q]->push_back(*items[(size_t)x]);
		else if (o[0] == "front") lists[q]->push_front(*items[(size_t)x]);
		else if (o[0] == "at") {
			auto it = lists[q]->begin();
			for (int i = 0; i < k && it != lists[q]->end(); ++i) i % 2 ? it++ : ++it;
			lists[q]->insert(it, *items[(size_t)x]);
		} else if (o[0] == "unlink") items[(size_t)x]->node.unlink();
		else if (o[0] == "del") {
			items[(size_t)x].reset();
			items[(size_t)x].reset(new Item);
			items[(size_t)x]->id = x;
			items[(size_t)x]->key = keys[(size_t)x];
		} else continue;
		L(o[0].c_str(), q, x, k);
		see_list(1);
		see_list(2);
	}
	items.clear();  // nodes first, then lists
}
