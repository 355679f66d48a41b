// Contract of std::unordered_map (trusted): a finite map of unknown, unbounded content.  Entries become known one by one, when a
// key is looked up; everything else is the symbolic remainder.  Force-included in front of harness and library sources.
#pragma once
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <compare>
#include <concepts>
#include <coroutine>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
extern "C" {
	int vc_choose(const char* name);
	void* vc_lazy_array(uint64_t count, uint64_t es, void* (*mk)(uint64_t i, void* user), void* user, const char* name);
	void vc_out_of_reach();   // not modelled: makes the harness undecided
}
namespace std {
template<class K, class V, class...> struct vc_umap {
	using key_type = K; using mapped_type = V; using value_type = pair<const K, V>; using size_type = size_t; using difference_type = ptrdiff_t;
	using reference = value_type&; using const_reference = const value_type&;
	struct ent { K key; value_type* cur; value_type* org; };
	enum { MAX = 6 };
	mutable uint64_t rest = 0;       // entries not known yet
	mutable int ntab = 0;
	mutable ent tab[MAX];
	mutable value_type* arr = nullptr; mutable uint64_t n = 0;
	bool clobbered = false;
	inline static V (*mk_value)(const K&) = nullptr;                     // the value of an existing entry
	inline static value_type* (*mk_entry)(uint64_t, void*) = nullptr;    // entry number i of an iteration
	template<bool C> struct iter {
		using iterator_category = forward_iterator_tag; using value_type = pair<const K, V>; using difference_type = ptrdiff_t;
		using pointer = conditional_t<C, const value_type*, value_type*>; using reference = conditional_t<C, const value_type&, value_type&>;
		value_type* p = nullptr; const vc_umap* m = nullptr;
		iter() = default;
		iter(value_type* p_, const vc_umap* m_) : p(p_), m(m_) {}
		template<bool D> requires(C && !D) iter(const iter<D>& o) : p(o.p), m(o.m) {}
		reference operator*() const { return *p; }
		pointer operator->() const { return p; }
		iter& operator++() { if (!m->arr) vc_out_of_reach(); ++p; return *this; }
		iter operator++(int) { iter r = *this; ++*this; return r; }
		bool operator==(const iter& o) const { return p == o.p; }
		bool operator!=(const iter& o) const { return p != o.p; }
	};
	using iterator = iter<false>; using const_iterator = iter<true>;
	vc_umap() = default;
	vc_umap(const vc_umap&) = delete;
	vc_umap(vc_umap&& o) noexcept { vc_out_of_reach(); }
	~vc_umap() { clear(); }
	ent* look(const K& k) const {
		for (int i = 0; i < ntab; ++i) if (tab[i].key == k) return &tab[i];
		if (arr || ntab == MAX) vc_out_of_reach();
		ent* e = &tab[ntab++]; e->key = k; e->cur = e->org = nullptr;
		if (rest != 0 && vc_choose("the key is in the map")) { --rest; e->cur = e->org = new value_type(k, mk_value(k)); }
		return e;
	}
	// ---- ghost
	void any_GHOST(uint64_t n_) { rest = n_; ntab = 0; arr = nullptr; clobbered = false; }
	void known_GHOST(const K& k, bool present) {
		ent* e = &tab[ntab++]; e->key = k; e->cur = e->org = nullptr;
		if (present) { e->cur = e->org = new value_type(k, mk_value(k)); }
	}
	value_type* at_GHOST(const K& k) const { for (int i = 0; i < ntab; ++i) if (tab[i].key == k) return tab[i].cur; return nullptr; }
	// nothing but (possibly) the entry of k has changed
	bool kept_GHOST(const K* k) const {
		if (clobbered) return false;
		for (int i = 0; i < ntab; ++i) if (!(k && tab[i].key == *k) && tab[i].cur != tab[i].org) return false;
		return true;
	}
	// ---- interface
	size_type size() const { uint64_t s = rest; for (int i = 0; i < ntab; ++i) if (tab[i].cur) ++s; return s; }
	bool empty() const { return size() == 0; }
	iterator find(const K& k) { return { look(k)->cur, this }; }
	const_iterator find(const K& k) const { return { look(k)->cur, this }; }
	size_type count(const K& k) const { return look(k)->cur ? 1 : 0; }
	bool contains(const K& k) const { return look(k)->cur != nullptr; }
	V& at(const K& k) { value_type* p = look(k)->cur; if (!p) vc_out_of_reach(); return p->second; }
	V& operator[](const K& k) { ent* e = look(k); if (!e->cur) e->cur = new value_type(k, V()); return e->cur->second; }
	iterator begin() { enter(); return { arr, this }; }
	const_iterator begin() const { enter(); return { arr, this }; }
	const_iterator cbegin() const { enter(); return { arr, this }; }
	iterator end() { return { arr ? arr + n : nullptr, this }; }
	const_iterator end() const { return { arr ? arr + n : nullptr, this }; }
	const_iterator cend() const { return { arr ? arr + n : nullptr, this }; }
	void enter() const {
		if (arr) return;
		if (ntab) vc_out_of_reach();
		n = rest; arr = (value_type*)vc_lazy_array(n, sizeof(value_type), (void* (*)(uint64_t, void*))mk_entry, nullptr, "map entries");
	}
	pair<iterator, bool> put(value_type* nd) {
		ent* e = look(nd->first);
		if (e->cur) { delete nd; return { { e->cur, this }, false }; }
		e->cur = nd; return { { nd, this }, true };
	}
	template<class... A> pair<iterator, bool> emplace(A&&... a) { return put(new value_type(std::forward<A>(a)...)); }
	template<class P> pair<iterator, bool> insert(P&& p) { return put(new value_type(std::forward<P>(p))); }
	pair<iterator, bool> insert(value_type&& p) { return put(new value_type(std::move(p))); }
	template<class... A> pair<iterator, bool> try_emplace(const K& k, A&&... a) {
		ent* e = look(k);
		if (e->cur) return { { e->cur, this }, false };
		e->cur = new value_type(piecewise_construct, forward_as_tuple(k), forward_as_tuple(std::forward<A>(a)...));
		return { { e->cur, this }, true };
	}
	template<class M> pair<iterator, bool> insert_or_assign(const K& k, M&& v) {
		ent* e = look(k);
		if (e->cur) { e->cur->second = std::forward<M>(v); return { { e->cur, this }, false }; }
		e->cur = new value_type(k, std::forward<M>(v)); return { { e->cur, this }, true };
	}
	iterator erase(const_iterator it) {
		if (arr) vc_out_of_reach();
		for (int i = 0; i < ntab; ++i) if (tab[i].cur == it.p && it.p) { value_type* p = tab[i].cur; tab[i].cur = nullptr; delete p; return end(); }
		vc_out_of_reach(); return end();
	}
	iterator erase(iterator it) { return erase(const_iterator(it)); }
	size_type erase(const K& k) {
		ent* e = look(k);
		if (!e->cur) return 0;
		value_type* p = e->cur; e->cur = nullptr; delete p; return 1;
	}
	struct node_type {                       // an entry taken out of the map
		value_type* p = nullptr;
		node_type() = default; explicit node_type(value_type* q) : p(q) {}
		node_type(node_type&& o) noexcept : p(o.p) { o.p = nullptr; }
		node_type& operator=(node_type&& o) noexcept { if (p) delete p; p = o.p; o.p = nullptr; return *this; }
		~node_type() { if (p) delete p; }
		bool empty() const { return p == nullptr; }
		explicit operator bool() const { return p != nullptr; }
		K& key() const { return const_cast<K&>(p->first); }
		V& mapped() const { return p->second; }
	};
	node_type extract(const_iterator it) {
		if (arr) vc_out_of_reach();
		for (int i = 0; i < ntab; ++i) if (tab[i].cur == it.p && it.p) { tab[i].cur = nullptr; return node_type(const_cast<value_type*>(it.p)); }
		vc_out_of_reach(); return node_type();
	}
	node_type extract(iterator it) { return extract(const_iterator(it)); }
	node_type extract(const K& k) { ent* e = look(k); value_type* p = e->cur; e->cur = nullptr; return node_type(p); }
	void clear() { for (int i = 0; i < ntab; ++i) if (tab[i].cur) { value_type* p = tab[i].cur; tab[i].cur = nullptr; delete p; } if (rest || arr) clobbered = true; rest = 0; arr = nullptr; }
	void reserve(size_type) {}
	void swap(vc_umap&) { vc_out_of_reach(); }
};
}
#define unordered_map vc_umap
