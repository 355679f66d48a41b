// Symbolic intrusive lists of unbounded length: separation-logic style list segments that the engine unfolds on demand.
// A segment seg(base,n,L,R) stands for n consecutive list elements number base..base+n-1 between neighbours L and R
// (concrete nodes or null).  n is symbolic and unbounded.  Loading a link into an unfolded segment materialises one node.
#pragma once
#include "vc.h"
namespace vc {
template<class Q> struct vlist {
	using Node = typename Q::node_type;
	using MK = Node* (*)(uint64_t idx, void* user);
	struct Seg {
		vlist* own; uint64_t base, n; int st; Node* L; Node* R; Node* node; Seg* sub;
	};
	struct Ent { Node* p; uint64_t idx; };
	uint64_t hi = 0;
	// references that the list itself holds on element idx (counted lists): its predecessor's link, and the tail link for the last one
	uint64_t refs(uint64_t idx) const { return std::is_pointer_v<typename Q::node_ptr_type> ? 0 : (idx + 1 == hi ? 2 : 1); }
	Q* q = nullptr; MK mk = nullptr; void* user = nullptr;
	Ent tab[24]; int ntab = 0;

	static void* first_cb(void* c) { return first((Seg*)c); }
	static void* last_cb(void* c) { return last((Seg*)((char*)c - 1)); }
	template<class PP> static void lazy_first(PP* cell, Seg* s) { vc_set_lazy(cell, first_cb, s); }
	template<class PP> static void lazy_last(PP* cell, Seg* s) { vc_set_lazy(cell, last_cb, (char*)s + 1); }
	static Seg* mkseg(vlist* o, uint64_t base, uint64_t n, Node* L, Node* R) {
		Seg* s = new Seg; s->own = o; s->base = base; s->n = n; s->st = 0; s->L = L; s->R = R; s->node = nullptr; s->sub = nullptr; return s;
	}
	static Node* fresh(Seg* s, uint64_t idx) {
		vlist* o = s->own;
		Node* p = o->mk(idx, o->user);
		o->tab[o->ntab].p = p; o->tab[o->ntab].idx = idx; ++o->ntab;
		return p;
	}
	// unfold at the left end / right end; returns the node at that end, or the opposite neighbour when empty
	static Node* first(Seg* s) {
		if (s->st == 0) {
			if (s->n == 0) s->st = 1;
			else {
				Node* p = fresh(s, s->base);
				s->node = p; s->st = 2; s->sub = mkseg(s->own, s->base + 1, s->n - 1, p, s->R);
				*(Node**)&p->_prev = s->L; lazy_first(&p->_next, s->sub);
			}
		}
		if (s->st == 1) return s->R;
		if (s->st == 2) return s->node;
		return first(s->sub);
	}
	static Node* last(Seg* s) {
		if (s->st == 0) {
			if (s->n == 0) s->st = 1;
			else {
				Node* p = fresh(s, s->base + s->n - 1);
				s->node = p; s->st = 3; s->sub = mkseg(s->own, s->base, s->n - 1, s->L, p);
				*(Node**)&p->_next = s->R; lazy_last(&p->_prev, s->sub);
			}
		}
		if (s->st == 1) return s->L;
		if (s->st == 3) return s->node;
		return last(s->sub);
	}
	// arbitrary list holding elements base..base+n-1
	void init(Q* q_, uint64_t base, uint64_t n, MK mk_, void* user_ = nullptr) {
		q = q_; mk = mk_; user = user_; ntab = 0; hi = base + n;
		Seg* s = mkseg(this, base, n, nullptr, nullptr);
		lazy_first(&q->_header, s); lazy_last(&q->_tailer, s);
		q->_count.store(n, std::memory_order_relaxed);
	}
	// arbitrary list base..base+n-1 in which element number at (base<=at<base+n) is a given materialised node
	Node* init_with(Q* q_, uint64_t base, uint64_t n, uint64_t at, MK mk_, void* user_ = nullptr) {
		q = q_; mk = mk_; user = user_; ntab = 0; hi = base + n;
		Node* p = mk(at, user); tab[0].p = p; tab[0].idx = at; ntab = 1;
		Seg* a = mkseg(this, base, at - base, nullptr, p);
		Seg* c = mkseg(this, at + 1, base + n - at - 1, p, nullptr);
		lazy_first(&q->_header, a); lazy_last(&p->_prev, a);
		lazy_first(&p->_next, c); lazy_last(&q->_tailer, c);
		// header of an empty left part is p, tail of an empty right part is p
		q->_count.store(n, std::memory_order_relaxed);
		return p;
	}
	struct Look { Seg* seg; Node* node; };
	static Look rfirst(Seg* s) {
		for (;;) {
			if (s->st == 0) return { s, nullptr };
			if (s->st == 1) return { nullptr, s->R };
			if (s->st == 2) return { nullptr, s->node };
			s = s->sub;
		}
	}
	static Look rlast(Seg* s) {
		for (;;) {
			if (s->st == 0) return { s, nullptr };
			if (s->st == 1) return { nullptr, s->L };
			if (s->st == 3) return { nullptr, s->node };
			s = s->sub;
		}
	}
	static Look peek(Node** cell) {
		void* c = vc_lazy(cell);
		if (c == nullptr) return { nullptr, *cell };
		// context +1 marks a right-end pointer
		if (is_last(c)) return rlast((Seg*)((char*)c - 1));
		return rfirst((Seg*)c);
	}
	static bool is_last(void* c) { return ((uintptr_t)c & 1) != 0; }
	int find(Node* p) { for (int i = 0; i < ntab; ++i) if (tab[i].p == p) return i; return -1; }
	uint64_t idx_of(Node* p) { int i = find(p); vc_assert(i >= 0, "list element is one of the known elements"); return tab[i].idx; }

	// the list holds exactly: elements lo..hi-1 except skip (if skip in range), then the nodes tail[0..nt)
	void check(uint64_t lo, uint64_t hi, uint64_t skip, bool useskip, Node** tl, int nt, const char* what) {
		uint64_t pos = lo; int ti = 0;
		if (useskip && skip == pos) ++pos;
		Node** cell = (Node**)&q->_header; Node* prev = nullptr; Seg* pseg = nullptr;
		for (;;) {
			Look k = peek(cell);
			if (k.seg) {
				vc_assert(k.seg->base == pos, what);
				if (useskip) vc_assert(skip < pos || skip >= pos + k.seg->n, what);
				pos += k.seg->n;
				if (useskip && skip == pos) ++pos;
				vc_assert(k.seg->L == prev || pseg != nullptr, what);
				pseg = k.seg;
				if (k.seg->R == nullptr) { break; }
				// right neighbour must link back to this segment
				Look b = peek((Node**)&k.seg->R->_prev);
				vc_assert(b.seg == k.seg, what);
				prev = k.seg->R;
			} else {
				if (k.node == nullptr) break;
				Look b = peek((Node**)&k.node->_prev);
				vc_assert(b.seg == nullptr && b.node == prev, what);
				prev = k.node; pseg = nullptr;
			}
			// prev is now the node to account for
			int e = find(prev);
			if (ti == 0 && e >= 0 && !(nt > 0 && prev == tl[0])) {
				vc_assert(tab[e].idx == pos, what); ++pos;
				if (useskip && skip == pos) ++pos;
			} else {
				vc_assert(pos == hi, what);
				vc_assert(ti < nt && prev == tl[ti], what);
				++ti;
			}
			pseg = nullptr;
			cell = (Node**)&prev->_next;
		}
		vc_assert(pos == hi, what);
		vc_assert(ti == nt, what);
		Look t = peek((Node**)&q->_tailer);
		if (pseg) vc_assert(t.seg == pseg, what);
		else vc_assert(t.seg == nullptr && t.node == prev, what);
	}
	void check(uint64_t lo, uint64_t hi, const char* what) { check(lo, hi, 0, false, nullptr, 0, what); }
	void check_app(uint64_t lo, uint64_t hi, Node* n, const char* what) { check(lo, hi, 0, false, &n, 1, what); }
};
}
