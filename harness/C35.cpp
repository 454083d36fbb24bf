// C35: running out of memory at any point
#include "vp.h"
#include <utki/base64.hpp>
#include <utki/linq.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/singleton.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/utility.hpp>
#include <list>
#include <map>
#include <memory>
#include <new>
#include "forest.h"
namespace {
void burn(){ void* p = ::operator new(sizeof(uint64_t)); ::operator delete(p); }
// runs f with its nth allocation failing; true when f completed
template <class F> bool fails(F&& f){
	uint64_t nth = 1 + vp_choice(VP_BOUND(10, 16), "which allocation fails"); // the last ones are never reached
	int o = 2;
	vp_arm_alloc_failure(nth);
	try { f(); o = 0; } catch(const std::bad_alloc&){ o = 1; } catch(...){ o = 2; }
	vp_disarm_alloc_failure();
	vp_assert(o != 2, "running out of memory is reported as std::bad_alloc");
	vp_reach(o ? "failed" : "completed");
	vp_observe_val("o", o);
	return o == 0;
}
// a function of its arguments alone: the same result as ever, or nothing is left behind
template <class F> void pure(F&& f){
	size_t heap = vp_heap_count();
	{
		auto want = f();
		size_t before = vp_heap_count();
		{
			decltype(want) got{};
			bool done = fails([&]{ got = f(); });
			if(done) vp_assert(got == want, "what completes is right");
			else vp_assert(vp_heap_count() == before, "nothing is lost when memory runs out");
		}
		vp_assert(f() == want, "it works again when there is memory");
	}
	vp_assert(vp_heap_count() == heap, "everything is freed");
}
}
VP_ENTRY(c35_base64){
	size_t n = vp_choice(VP_BOUND(3, 6), "size") * 4;
	vp_buf<char> b(n);
	static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef";
	for(size_t i = 0; i < n; ++i) b[i] = abc[vp_sym<uint8_t>("c") & 31];
	pure([&]{ return utki::base64_decode(std::string_view(b.p, n)); });
}
VP_ENTRY(c35_unicode){
	size_t n = vp_choice(VP_BOUND(6, 12), "size");
	vp_buf<char> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = char('a' + (vp_sym<uint8_t>("c") & 7));
	pure([&]{ return utki::to_utf32(std::string_view(b.p, n)); });
}
VP_ENTRY(c35_split){
	size_t n = vp_choice(VP_BOUND(5, 7), "size");
	size_t long_word = vp_choice(2, "long word") * 20;
	std::string s;
	for(size_t i = 0; i < n; ++i){ char c = "a ,"[vp_choice(3, "c")]; s += c; if(c == 'a') s.append(long_word, 'b'); }
	switch(vp_choice(3, "function")){
		case 0: pure([&]{ return utki::split(std::string_view(s)); }); break;
		case 1: pure([&]{ return utki::split(s, ','); }); break;
		default: pure([&]{ return utki::word_wrap(s, 4); }); break;
	}
}
VP_ENTRY(c35_strings){
	size_t n = vp_choice(4, "size") * 8;
	vp_buf<char> b(n, "bytes");
	utki::span<const char> s(b.p, n);
	switch(vp_choice(4, "function")){
		case 0: pure([&]{ return utki::make_string(s); }); break;
		case 1: pure([&]{ return utki::make_vector(s); }); break;
		case 2: pure([&]{ return utki::make_indentation(unsigned(n), 2); }); break;
		default: pure([&]{ return utki::to_string(uint64_t(1) << n, utki::integer_base::bin); }); break;
	}
}
VP_ENTRY(c35_make_string){
	static const size_t len[] = {1, 20, 1022, 1023, 1024, 3000};
	std::string text(len[vp_choice(6, "length")], 'x');
	pure([&]{ return utki::make_string("%s%c", text.c_str(), '!'); });
}
VP_ENTRY(c35_flip){
	std::map<uint8_t, std::string> m;
	size_t n = vp_choice(4, "size");
	for(size_t i = 0; i < n; ++i) m[uint8_t(i)] = std::string(20, char('a' + vp_choice(2, "value")));
	pure([&]{ return utki::flip_map(m); });
}
namespace { struct item { uint8_t key; std::string text; bool operator==(const item& i) const { return key == i.key && text == i.text; } }; }
VP_ENTRY(c35_linq){
	size_t n = vp_choice(4, "size");
	std::vector<item> v;
	for(size_t i = 0; i < n; ++i) v.push_back({uint8_t(vp_choice(2, "key")), std::string(20, char('a' + i))});
	const auto copy = v;
	switch(vp_choice(4, "query")){
		case 0: pure([&]{ return utki::linq(v).select([](const item& i){ return i.text; }).get(); }); break;
		case 1: pure([&]{ return utki::linq(v).where([](const item& i){ return i.key == 0; }).get(); }); break;
		case 2: pure([&]{ return utki::linq(v).group_by([](const item& i){ return i.key; }).get(); }); break;
		default: pure([&]{ return utki::linq(v).order_by([](const item& i) -> const std::string& { return i.text; }).get(); }); break;
	}
	vp_assert(v == copy, "the collection is not changed");
	{ // a collection given away
		size_t heap = vp_heap_count();
		{
			auto w = v;
			bool done = fails([&]{ auto r = utki::linq(std::move(w)).group_by([](const item& i){ return i.key; }).get(); });
			(void)done;
		}
		vp_assert(vp_heap_count() == heap, "nothing is lost when memory runs out");
	}
}
// signals: a failing connection leaves the connected callbacks alone
VP_ENTRY(c35_signal){
	size_t heap = vp_heap_count();
	{
		utki::signal<uint32_t> s;
		std::vector<utki::signal<uint32_t>::connection> c;
		std::string calls;
		size_t n = vp_choice(4, "connected");
		auto cb = [&calls](char id){ return [&calls, id, ballast = std::array<uint64_t, 5>{}](uint32_t a){ if(a == 7 + ballast[0]) calls += id; }; };
		std::string want;
		for(size_t i = 0; i < n; ++i){ c.push_back(s.connect(cb(char('a' + i)))); want += char('a' + i); }
		size_t before = vp_heap_count();
		utki::signal<uint32_t>::connection x;
		bool done = fails([&]{ x = s.connect(cb('x')); });
		if(done) want += 'x';
		else vp_assert(vp_heap_count() == before, "nothing is lost when memory runs out");
		vp_assert(s.size() == n + done && s.empty() == (n + done == 0), "a failed connection connects nothing");
		s.emit(7);
		vp_assert(calls == want, "the other callbacks are called as before");
		// an emission which runs out of memory in a callback
		auto y = s.connect([](uint32_t){ burn(); });
		calls.clear(); calls.reserve(20);
		fails([&]{ s.emit(7); });
		vp_assert(calls == want && s.size() == n + done + 1, "an exception of a callback reaches the caller and changes nothing");
		s.disconnect(y);
		if(done) s.disconnect(x);
		for(auto& i : c) s.disconnect(i);
		vp_assert(s.empty(), "disconnecting needs no memory");
	}
	vp_assert(vp_heap_count() == heap, "everything is freed");
}
namespace {
template <class T> bool same(const typename T::container_type& roots, const shape& s){
	oracle<T> o(roots);
	if(o.node.size() != s.n) return false;
	bool ok = true;
	for(size_t k = 0; k < s.n; ++k){ if(o.path[k].size() != s.depth[k] + 1) return false; ok &= o.node[k]->value == s.val[k]; }
	return ok;
}
template <class T> void forest_op(size_t max){
	size_t heap = vp_heap_count();
	{
		shape s(max);
		auto roots = s.build<T>(0, 0, s.n);
		auto tr = utki::make_traversal(roots);
		unsigned op = unsigned(vp_choice(7, "op"));
		size_t at = vp_choice(s.n + 1, "at");
		vp_assume(at != s.n || op == 0 || op == 1 || op >= 5); // the end is a place to insert before only
		size_t d = at == s.n ? 0 : s.depth[at];
		shape want = s;
		uint8_t v = vp_sym<uint8_t>("new"), w = vp_sym<uint8_t>("new child");
		{
			typename T::container_type cs;
			cs.push_back(T(w));
			T t(v, cs);
			std::vector<std::pair<size_t, uint8_t>> sub{{0, v}, {1, w}};
			if(op < 2) want.insert(at, d, sub);
			else if(op < 4) want.insert(want.subtree_end(at), d, sub);
			else if(op == 4) want.erase(at, want.subtree_end(at));
			auto it = tr.begin();
			for(size_t k = 0; k < at; ++k) ++it;
			size_t before = vp_heap_count();
			bool done = fails([&]{
				switch(op){
					case 0: tr.insert(it, t); break;
					case 1: tr.insert(it, std::move(t)); break;
					case 2: tr.insert_after(it, t); break;
					case 3: tr.insert_after(it, std::move(t)); break;
					case 4: tr.erase(it); break;
					case 5: { size_t n = 0; for(auto i = tr.begin(); i != tr.end(); ++i) ++n; vp_assert(n == s.n, "a traversal which completes visits all"); auto x = it.index(); break; }
					default: { auto c = roots; vp_assert(same<T>(c, s), "a copy which completes is equal"); break; }
				}
			});
			if(done){ vp_assert(same<T>(roots, want), "what completes is right"); }
			else {
				vp_assert(same<T>(roots, s), "a failed operation leaves the forest as it was");
				if(op != 1 && op != 3) vp_assert(vp_heap_count() == before, "nothing is lost when memory runs out");
				if(op < 4) vp_assert(op == 1 || op == 3 || (t.value == v && t.children.size() == 1), "the inserted tree is not changed");
			}
		}
	}
	vp_assert(vp_heap_count() == heap, "everything is freed");
}
}
VP_ENTRY(c35_tree){ forest_op<utki::tree<uint8_t>>(VP_BOUND(3, 4)); }
VP_ENTRY(c35_tree_list){ forest_op<utki::tree<uint8_t, std::list>>(VP_BOUND(3, 4)); }
// owners: an object which cannot be made is not there
namespace {
size_t made;
struct thing { std::unique_ptr<uint32_t> p; thing(uint32_t v) : p(new uint32_t(v)) { ++made; } ~thing(){ --made; } bool operator==(const thing& t) const { return *p == *t.p; } };
struct sh : utki::shared { std::unique_ptr<uint32_t> p{new uint32_t(5)}; };
struct single : utki::singleton<single> { std::unique_ptr<uint32_t> p; single(uint32_t v) : p(new uint32_t(v)) {} };
}
VP_ENTRY(c35_owners){
	size_t heap = vp_heap_count();
	uint32_t v = vp_sym<uint32_t>("v");
	unsigned what = unsigned(vp_choice(5, "what"));
	made = 0;
	bool done = fails([&]{
		switch(what){
			case 0: { auto r = utki::make_shared<thing>(v); bool ok = *r.get().p == v && made == 1; vp_assert(ok, "the object is made"); break; }
			case 1: { auto r = utki::make_unique<thing>(v); bool ok = *r.get().p == v && made == 1; vp_assert(ok, "the object is made"); break; }
			case 2: { auto r = utki::make_shared<sh>(); auto q = utki::make_shared_from(r.get()); auto w = utki::make_weak_from(r.get()); vp_assert(&q.get() == &r.get() && w.lock().get() == &r.get(), "references to itself"); break; }
			case 3: { single s(v); bool ok = single::is_created() && &single::inst() == &s; vp_assert(ok, "the instance is made"); break; }
			default: { std::unique_ptr<single> s(new single(v)); auto o = s.release(); bool ok = single::is_created() && &single::inst() == o; vp_assert(ok, "the instance is made"); delete o; break; }
		}
	});
	vp_assert(made == 0 && !single::is_created(), "nothing is left");
	vp_assert(vp_heap_count() == heap, "nothing is lost when memory runs out");
	if(!done){ single s(v); vp_assert(single::is_created() && *single::inst().p == v, "it can be made when there is memory again"); }
	vp_assert(!single::is_created(), "destroyed");
	vp_observe_val("v", v);
}
// scope exit: making the guard may fail, then the action is still the caller's; the action may fail itself
VP_ENTRY(c35_scope_exit){
	size_t heap = vp_heap_count();
	uint32_t add = vp_sym<uint32_t>("add"), runs = 0;
	std::function<void()> act = [&runs, add, ballast = std::array<uint64_t, 5>{}]{ runs += add + uint32_t(ballast[0]); burn(); runs += 1; };
	bool entered = false;
	bool done = fails([&]{ utki::scope_exit se(std::move(act)); entered = true; burn(); });
	// one allocation in the scope, one in the action
	bool ran = entered;
	vp_assert(runs == (ran ? add : 0) || runs == (ran ? add + 1 : 0), "the action runs once");
	(void)done;
	vp_observe_val("runs", runs);
	act = nullptr;
	vp_assert(vp_heap_count() == heap, "nothing is lost when memory runs out");
}
