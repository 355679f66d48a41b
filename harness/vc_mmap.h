// Contract of std::multimap (trusted): a sequence of entries ordered by key, of unknown, unbounded content.  The first entry becomes
// known when it is asked for; or, in walk mode, entry i when an iteration reaches it.  Force-included in front of harness and sources.
#pragma once
#include "vc_umap.h"
#undef unordered_map
extern "C" void vc_assume(bool c);
namespace std {
template<class K, class V, class...> struct vc_mmap {
	using key_type = K; using mapped_type = V; using value_type = pair<const K, V>; using size_type = size_t; using difference_type = ptrdiff_t;
	using reference = value_type&; using const_reference = const value_type&;
	mutable uint64_t n = 0;                 // number of entries
	mutable value_type* head = nullptr;     // the first one, when known
	mutable bool has_lo = false; mutable K lo{};  // no key is smaller
	mutable value_type* arr = nullptr;      // walk mode
	inline static V (*mk_value)(const K&) = nullptr;                  // the value of an existing entry
	inline static value_type* (*mk_entry)(uint64_t, void*) = nullptr; // entry i of a walk
	inline static void (*on_insert)(vc_mmap*, const K&, V&) = nullptr;
	inline static void (*on_erase)() = nullptr;
	inline static bool (*le)(const K&, const K&) = nullptr;
	inline static K (*any_key)() = nullptr;
	inline static bool walk = false; inline static uint64_t walked = 0;
	struct iterator {
		using iterator_category = bidirectional_iterator_tag; using value_type = pair<const K, V>; using difference_type = ptrdiff_t;
		using pointer = value_type*; using reference = value_type&;
		mutable value_type* p = nullptr; const vc_mmap* m = nullptr; mutable bool later = false;   // later: the new first entry, once it is asked for
		value_type* at() const { if (later) { later = false; p = m->first(); } return p; }
		reference operator*() const { return *at(); }
		pointer operator->() const { return at(); }
		iterator& operator++() { at(); if (!m->arr) vc_out_of_reach(); ++p; return *this; }
		iterator operator++(int) { at(); iterator r = *this; ++*this; return r; }
		bool operator==(const iterator& o) const { return at() == o.at(); }
		bool operator!=(const iterator& o) const { return at() != o.at(); }
	};
	using const_iterator = iterator;
	vc_mmap() = default;
	vc_mmap(const vc_mmap&) = delete;
	vc_mmap(vc_mmap&& o) noexcept { take(o); }
	vc_mmap& operator=(vc_mmap&& o) noexcept { if (this != &o) { if (n) vc_out_of_reach(); take(o); } return *this; }
	~vc_mmap() {}
	void take(vc_mmap& o) { n = o.n; head = o.head; has_lo = o.has_lo; lo = o.lo; arr = o.arr; o.n = 0; o.head = nullptr; o.has_lo = false; o.arr = nullptr; }
	void swap(vc_mmap& o) { vc_mmap t(std::move(o)); o.take(*this); take(t); }
	void any_GHOST(uint64_t n_) { n = n_; head = nullptr; has_lo = false; arr = nullptr; }
	size_type size() const { return n; }
	bool empty() const { return n == 0; }
	value_type* first() const {
		if (!walk && n == 0) return nullptr;
		if (walk) { if (!arr) { if (head) vc_out_of_reach(); walked = n; arr = (value_type*)vc_lazy_array(n, sizeof(value_type), (void* (*)(uint64_t, void*))mk_entry, nullptr, "map entries"); } return arr; }
		if (!head) { K k = any_key(); vc_assume(!has_lo || le(lo, k)); head = new value_type(k, mk_value(k)); }
		return head;
	}
	iterator begin() const { return { first(), this }; }
	iterator cbegin() const { return { first(), this }; }
	iterator end() const { return { arr ? arr + n : nullptr, this }; }
	iterator cend() const { return end(); }
	iterator put(value_type* v) {
		if (arr || head) vc_out_of_reach();
		if (has_lo && !le(lo, v->first)) { lo = v->first; }
		++n; on_insert(this, v->first, v->second); return { v, this };
	}
	iterator insert(value_type&& v) { return put(new value_type(std::move(v))); }
	iterator insert(const value_type& v) { return put(new value_type(v)); }
	template<class P> requires(is_constructible_v<value_type, P&&>) iterator insert(P&& v) { return put(new value_type(std::forward<P>(v))); }
	template<class... A> iterator emplace(A&&... a) { return put(new value_type(std::forward<A>(a)...)); }
	iterator erase(iterator it) {
		if (arr || !head || it.at() != head) vc_out_of_reach();
		value_type* h = head; has_lo = true; lo = h->first; head = nullptr; --n; if (on_erase) on_erase(); delete h; return { nullptr, this, true };
	}
	void clear() { if (n) vc_out_of_reach(); }
};
}
#define unordered_map vc_umap
#define multimap vc_mmap
