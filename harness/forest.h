// ordered forests: a pre-order sequence of depths and values, and what follows from it
#pragma once
#include <vector>
struct shape {
	size_t n;
	std::vector<size_t> depth;
	std::vector<uint8_t> val;
	explicit shape(size_t max, size_t fixed = size_t(-1)){
		n = fixed != size_t(-1) ? fixed : size_t(vp_choice(max + 1, "nodes"));
		for(size_t k = 0; k < n; ++k){
			depth.push_back(k == 0 ? 0 : size_t(vp_choice(depth.back() + 2, "depth")));
			val.push_back(vp_sym<uint8_t>("value"));
		}
	}
	// large forests of chosen forms
	enum { chain, wide, comb, deep_last, binary, groups, num_forms };
	static shape large(unsigned form, size_t size){
		shape s(0, 0);
		switch(form){
		case chain: for(size_t k = 0; k < size; ++k) s.depth.push_back(k); break;
		case wide: s.depth.assign(size, 0); break;
		case comb: // a spine, every node of it followed by a childless sibling
			for(size_t k = 0; k < size / 2; ++k) s.depth.push_back(k);
			for(size_t k = size / 2; k-- > 0;) s.depth.push_back(k);
			break;
		case deep_last: // the childless sibling goes first
			for(size_t k = 0; k < size / 2; ++k){ s.depth.push_back(k); s.depth.push_back(k); }
			break;
		case binary: s.bin(0, size); break;
		case groups: for(size_t k = 0, w = size < 16 ? 3 : size < 64 ? 5 : 17; k < size; ++k) s.depth.push_back(k % w ? 1 : 0); break;
		}
		s.n = s.depth.size();
		for(size_t k = 0; k < s.n; ++k) s.val.push_back(uint8_t(k * 7));
		if(s.n) s.val[s.n - 1] = vp_sym<uint8_t>("value");
		return s;
	}
	void bin(size_t d, size_t size){
		if(size == 0) return;
		depth.push_back(d);
		size_t l = (size - 1) / 2;
		bin(d + 1, l);
		bin(d + 1, size - 1 - l);
	}
	size_t subtree_end(size_t k) const { size_t e = k + 1; while(e < n && depth[e] > depth[k]) ++e; return e; }
	// the sibling list at depth d made of nodes [from, to)
	template <class T> typename T::container_type build(size_t d, size_t from, size_t to) const {
		typename T::container_type r;
		for(size_t k = from; k < to;){
			size_t e = subtree_end(k);
			r.push_back(T(val[k], build<T>(d + 1, k + 1, e)));
			k = e;
		}
		return r;
	}
	void insert(size_t at, size_t d, const std::vector<std::pair<size_t, uint8_t>>& sub){
		for(size_t i = 0; i < sub.size(); ++i){
			depth.insert(depth.begin() + (at + i), d + sub[i].first);
			val.insert(val.begin() + (at + i), sub[i].second);
		}
		n = depth.size();
	}
	void erase(size_t from, size_t to){
		depth.erase(depth.begin() + from, depth.begin() + to);
		val.erase(val.begin() + from, val.begin() + to);
		n = depth.size();
	}
};
template <class T> struct oracle {
	std::vector<const T*> node; // pre-order
	std::vector<std::vector<size_t>> path;
	std::vector<std::vector<const T*>> up;
	std::vector<bool> last;
	explicit oracle(const typename T::container_type& roots){ visit(roots, {}, {}); }
	const T* ancestor(size_t k, size_t level) const { return up[k][level]; }
	void visit(const typename T::container_type& c, std::vector<size_t> p, std::vector<const T*> u){
		size_t i = 0;
		for(auto& t : c){
			auto q = p; q.push_back(i);
			auto v = u; v.push_back(&t);
			node.push_back(&t);
			path.push_back(q);
			up.push_back(v);
			last.push_back(i + 1 == c.size());
			visit(t.children, q, v);
			++i;
		}
	}
};
