// std::list of unbounded symbolic length: real libstdc++ nodes, unfolded on demand.  The linking primitives that live in libstdc++.so
// (_M_hook, _M_unhook, _M_transfer) are replaced by their definition (trusted).  See vc_list.h for the segment idea.
#pragma once
#include <list>
#include "vc.h"
namespace vc {
using LNB = std::__detail::_List_node_base;
inline void l_hook(LNB* n, LNB* pos) { LNB* p = pos->_M_prev; n->_M_next = pos; n->_M_prev = p; p->_M_next = n; pos->_M_prev = n; }
inline void l_unhook(LNB* x) { LNB* n = x->_M_next; LNB* p = x->_M_prev; p->_M_next = n; n->_M_prev = p; }
inline void l_transfer(LNB* t, LNB* f, LNB* l) {
	if (t == l) return;
	LNB* lp = l->_M_prev; LNB* fp = f->_M_prev; LNB* tp = t->_M_prev;
	lp->_M_next = t; fp->_M_next = l; tp->_M_next = f;
	t->_M_prev = lp; l->_M_prev = fp; f->_M_prev = tp;
}
template<class T> struct vslist {
	using L = std::list<T>; using N = std::_List_node<T>;
	using MK = void (*)(uint64_t i, T* cell);
	struct Seg { vslist* own; uint64_t base, n; int st; LNB* L; LNB* R; LNB* node; Seg* sub; };
	struct Ent { LNB* p; uint64_t idx; };
	L* q = nullptr; MK mk = nullptr; Ent tab[24]; int ntab = 0;
	LNB* head() const { return &q->_M_impl._M_node; }
	static void* first_cb(void* c) { return first((Seg*)c); }
	static void* last_cb(void* c) { return last((Seg*)((char*)c - 1)); }
	static Seg* mkseg(vslist* o, uint64_t base, uint64_t n, LNB* l, LNB* r) { Seg* s = new Seg; s->own = o; s->base = base; s->n = n; s->st = 0; s->L = l; s->R = r; s->node = nullptr; s->sub = nullptr; return s; }
	static T* val(LNB* p) { return static_cast<N*>(p)->_M_valptr(); }
	static LNB* fresh(Seg* s, uint64_t idx) {
		vslist* o = s->own; N* p = (N*)::operator new(sizeof(N)); o->mk(idx, p->_M_valptr());
		o->tab[o->ntab].p = p; o->tab[o->ntab].idx = idx; ++o->ntab; return p;
	}
	static LNB* first(Seg* s) {
		if (s->st == 0) {
			if (s->n == 0) s->st = 1;
			else { LNB* p = fresh(s, s->base); s->node = p; s->st = 2; s->sub = mkseg(s->own, s->base + 1, s->n - 1, p, s->R); p->_M_prev = s->L; vc_set_lazy(&p->_M_next, first_cb, s->sub); }
		}
		if (s->st == 1) return s->R;
		if (s->st == 2) return s->node;
		return first(s->sub);
	}
	static LNB* last(Seg* s) {
		if (s->st == 0) {
			if (s->n == 0) s->st = 1;
			else { LNB* p = fresh(s, s->base + s->n - 1); s->node = p; s->st = 3; s->sub = mkseg(s->own, s->base, s->n - 1, s->L, p); p->_M_next = s->R; vc_set_lazy(&p->_M_prev, last_cb, (char*)s->sub + 1); }
		}
		if (s->st == 1) return s->L;
		if (s->st == 3) return s->node;
		return last(s->sub);
	}
	// any list holding elements base .. base+n-1
	void init(L* q_, uint64_t base, uint64_t n, MK mk_) {
		q = q_; mk = mk_; ntab = 0; Seg* s = mkseg(this, base, n, head(), head());
		vc_set_lazy(&head()->_M_next, first_cb, s); vc_set_lazy(&head()->_M_prev, last_cb, (char*)s + 1);
		q->_M_impl._M_node._M_size = n;
	}
	// the same with element number at materialised
	LNB* init_with(L* q_, uint64_t base, uint64_t n, uint64_t at, MK mk_) {
		q = q_; mk = mk_; ntab = 0;
		N* p = (N*)::operator new(sizeof(N)); mk(at, p->_M_valptr()); tab[0].p = p; tab[0].idx = at; ntab = 1;
		Seg* a = mkseg(this, base, at - base, head(), p); Seg* c = mkseg(this, at + 1, base + n - at - 1, p, head());
		vc_set_lazy(&head()->_M_next, first_cb, a); vc_set_lazy(&p->_M_prev, last_cb, (char*)a + 1);
		vc_set_lazy(&p->_M_next, first_cb, c); vc_set_lazy(&head()->_M_prev, last_cb, (char*)c + 1);
		q->_M_impl._M_node._M_size = n; return p;
	}
	struct Look { Seg* seg; LNB* node; };
	static Look rfirst(Seg* s) { for (;;) { if (s->st == 0) return { s, nullptr }; if (s->st == 1) return { nullptr, s->R }; if (s->st == 2) return { nullptr, s->node }; s = s->sub; } }
	static Look rlast(Seg* s) { for (;;) { if (s->st == 0) return { s, nullptr }; if (s->st == 1) return { nullptr, s->L }; if (s->st == 3) return { nullptr, s->node }; s = s->sub; } }
	static Look peek(LNB** cell) {
		void* c = vc_lazy(cell); if (c == nullptr) return { nullptr, *cell };
		return ((uintptr_t)c & 1) ? rlast((Seg*)((char*)c - 1)) : rfirst((Seg*)c);
	}
	int find(LNB* p) { for (int i = 0; i < ntab; ++i) if (tab[i].p == p) return i; return -1; }
	// the list holds exactly: elements lo..hi-1 except skip (if useskip), then nt elements whose values satisfy is(value, number)
	void check(uint64_t lo, uint64_t hi, uint64_t skip, bool useskip, int nt, bool (*is)(T*, int), const char* what) {
		uint64_t pos = lo, total = 0; int ti = 0; if (useskip && skip == pos) ++pos;
		LNB* prev = head(); LNB** cell = &prev->_M_next;
		for (;;) {
			Look k = peek(cell); LNB* nd;
			if (k.seg) {
				vc_assert(k.seg->base == pos, what); if (useskip) vc_assert(skip < pos || skip >= pos + k.seg->n, what);
				pos += k.seg->n; total += k.seg->n; if (useskip && skip == pos) ++pos;
				nd = k.seg->R; Look b = peek(&nd->_M_prev); vc_assert(b.seg == k.seg, what);
			} else { nd = k.node; vc_assert(nd != nullptr, what); Look b = peek(&nd->_M_prev); vc_assert(b.seg == nullptr && b.node == prev, what); }
			if (nd == head()) break;
			int e = find(nd);
			if (ti == 0 && e >= 0) { vc_assert(tab[e].idx == pos, what); ++pos; if (useskip && skip == pos) ++pos; }
			else { vc_assert(pos == hi, what); vc_assert(ti < nt && is(val(nd), ti), what); ++ti; }
			++total; prev = nd; cell = &nd->_M_next;
		}
		vc_assert(pos == hi, what); vc_assert(ti == nt, what); vc_assert(q->_M_impl._M_node._M_size == total, what);
	}
	void check(uint64_t lo, uint64_t hi, const char* what) { check(lo, hi, 0, false, 0, nullptr, what); }
};
}
VC_CONTRACT("std::__detail::_List_node_base::_M_hook\\(std::__detail::_List_node_base\\*\\)", vc::l_hook, "trusted")
VC_CONTRACT("std::__detail::_List_node_base::_M_unhook\\(\\)", vc::l_unhook, "trusted")
VC_CONTRACT("std::__detail::_List_node_base::_M_transfer\\(std::__detail::_List_node_base\\*, std::__detail::_List_node_base\\*\\)", vc::l_transfer, "trusted")
