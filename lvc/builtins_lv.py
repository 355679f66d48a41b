"""Trusted contracts of functions outside the verified text (C/C++ runtime) and the vc_* ghost interface."""
import z3
from ex import *

TABLE = {}
PREFIX = []


def bi(*names):
    def d(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return d


def pre(*names):
    def d(fn):
        for n in names:
            PREFIX.append((n, fn))
        return fn
    return d


# ---------------------------------------------------------------- intrinsics
@pre('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.donothing', 'llvm.prefetch')
def nop(E, st, fr, a, n):
    return None


@pre('llvm.stacksave')
def stacksave(E, st, fr, a, n):
    return 0


@pre('llvm.memcpy', 'llvm.memmove')
def memcpy_i(E, st, fr, a, n):
    if E.R is not None and a[2] == 0:
        return None
    E.memcpy(st, a[0], a[1], a[2])


@bi('memcpy', 'memmove')
def memcpy_f(E, st, fr, a, n):
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


@pre('llvm.memset')
def memset_i(E, st, fr, a, n):
    E.memset(st, a[0], a[1], a[2])


@bi('memset')
def memset_f(E, st, fr, a, n):
    E.memset(st, a[0], a[1], a[2])
    return a[0]


@pre('llvm.expect', 'llvm.threadlocal.address', 'llvm.launder', 'llvm.strip.invariant', 'llvm.ptr.annotation')
def ident(E, st, fr, a, n):
    return a[0]


@pre('llvm.trap', 'llvm.ubsantrap')
def trap(E, st, fr, a, n):
    E.prove(st, 0, 'no trap', 'safety')


@pre('llvm.umul.with.overflow')
def umulo(E, st, fr, a, n):
    w = int(n.rsplit('.i', 1)[1])
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        return ((x * y) & ((1 << w) - 1), int(x * y >= (1 << w)))
    X, Y = bv(x, w), bv(y, w)
    if isinstance(y, int) and y > 0:
        return (norm(X * Y), norm(z3.UGT(X, z3.BitVecVal(((1 << w) - 1) // y, w))))
    return (norm(X * Y), norm(z3.Not(z3.BVMulNoOverflow(X, Y, False))))


@pre('llvm.uadd.with.overflow')
def uaddo(E, st, fr, a, n):
    w = int(n.rsplit('.i', 1)[1])
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        return ((x + y) & ((1 << w) - 1), int(x + y >= (1 << w)))
    X, Y = bv(x, w), bv(y, w)
    return (norm(X + Y), norm(z3.ULT(X + Y, X)))


@pre('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')
def minmax(E, st, fr, a, n):
    w = int(n.rsplit('.i', 1)[1])
    pred = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[n.split('.')[1]]
    c = E.icmp(st, pred, ('i', w), a[0], a[1])
    if isinstance(c, int):
        return a[0] if c else a[1]
    return norm(z3.If(c, bv(a[0], w), bv(a[1], w)))


@pre('llvm.eh.typeid.for')
def typeidfor(E, st, fr, a, n):
    return E.typeid(a[0])


@pre('llvm.is.constant')
def isconst(E, st, fr, a, n):
    return 0


@pre('llvm.objectsize')
def objsize(E, st, fr, a, n):
    return M64


# coroutine intrinsics left after splitting use the frame ABI directly
@pre('llvm.coro.resume')
def cororesume(E, st, fr, a, n):
    raise Unsupported('llvm.coro.resume')


# ---------------------------------------------------------------- allocation
def alloc(E, st, size, kind='heap', name='new'):
    if not isinstance(size, int):
        size = norm(size) if not isinstance(size, int) else size
    o = E.newobj(st, name, size, kind, 'undef')
    return Ptr(o.id, 0)


@bi('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def new(E, st, fr, a, n):
    if isinstance(a[0], (Ptr, FnPtr)) or a[0] is UNDEF:
        E.prove(st, 0, 'allocation size initialised', 'safety')
    nm = 'heap' if not fr.ghost else 'gheap'
    for g in reversed(st.frames):
        if not g.ghost and E.is_librf(g.f):
            nm = 'heap:' + short(g.f.dname, 30)
            break
        if g.ghost:
            break
    return alloc(E, st, a[0], 'heap', nm)


def free(E, st, p):
    if isinstance(p, int) and p == 0:
        return
    if p is UNDEF or isinstance(p, (FnPtr, int)):
        E.prove(st, 0, 'free of a valid pointer', 'safety')
    if not isinstance(p, Ptr):
        p = E.bv_ptr(st, p)
        if not isinstance(p, Ptr):
            raise Unsupported('free of opaque pointer')
    o = st.mem[p.o]
    if not o.alive:
        E.prove(st, 0, 'no double free', 'safety')
    if o.kind not in ('heap', 'vcheap') or p.off != 0:
        E.prove(st, 0, 'free of a valid heap pointer', 'safety')
    E.R.oblig.setdefault('free valid', [0, 0])[1] += 1
    o = st.wobj(p.o)
    o.alive = False


@bi('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvSt11align_val_t')
def delete(E, st, fr, a, n):
    free(E, st, a[0])


@bi('_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t')
def delete_sz(E, st, fr, a, n):
    p = a[0]
    if isinstance(p, Ptr) and p.o in st.mem:
        o = st.mem[p.o]
        if o.alive and o.size is not None and o.kind == 'heap' and p.off == 0:
            if isinstance(o.size, int) and isinstance(a[1], int):
                if o.size != a[1]:
                    E.prove(st, 0, 'deallocated size equals allocated size', 'safety')
                E.R.oblig.setdefault('deallocated size equals allocated size', [0, 0])[1] += 1
            elif a[1] is UNDEF:
                E.prove(st, 0, 'deallocated size equals allocated size', 'safety')
            else:
                E.prove(st, norm(bv(o.size, 64) == bv(a[1], 64)), 'deallocated size equals allocated size', 'safety')
    free(E, st, p)


# ---------------------------------------------------------------- termination
@bi('__assert_fail')
def assert_fail(E, st, fr, a, n):
    E.prove(st, 0, 'assert(%s)' % E.cstr(st, a[0]), 'assert')


@bi('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def glibcxx_assert(E, st, fr, a, n):
    E.prove(st, 0, 'libstdc++ assert(%s)' % E.cstr(st, a[3]), 'assert')


@bi('_ZSt9terminatev', 'abort', 'exit')
def terminate(E, st, fr, a, n):
    E.prove(st, 0, 'std::terminate not reached', 'safety')


@bi('__cxa_pure_virtual')
def pure(E, st, fr, a, n):
    E.prove(st, 0, 'no pure virtual call', 'safety')


# ---------------------------------------------------------------- exceptions (objects are reference counted as in libsupc++)
def xref(E, st, p, d):
    if not isinstance(p, Ptr):
        return
    k = ('xr', p.o)
    if k not in st.names:
        return
    c = st.names[k] + d
    if c < 0 or (d > 0 and not st.mem[p.o].alive):
        E.prove(st, 0, 'no use of a released exception', 'safety')
    st.names[k] = c
    if c == 0 and d < 0:
        o = st.wobj(p.o)
        o.alive = False


@bi('__cxa_allocate_exception')
def cxa_alloc(E, st, fr, a, n):
    p = alloc(E, st, a[0], 'heap', 'exception')
    st.names[('xr', p.o)] = 0
    return p


@bi('__cxa_free_exception')
def cxa_free(E, st, fr, a, n):
    if isinstance(a[0], Ptr):
        st.wobj(a[0].o).alive = False


@bi('__cxa_init_primary_exception')
def cxa_init(E, st, fr, a, n):
    # remember the type_info of this exception object (ghost cell beyond the object)
    st.names[('ti', a[0].o)] = a[1]
    return a[0]


@bi('__cxa_throw')
def cxa_throw(E, st, fr, a, n):
    d, nm, uw = E._cur
    st.names[('ti', a[0].o)] = a[1]
    xref(E, st, a[0], 1)
    E.throw(st, a[0], a[1], uw)
    return NORET


@bi('__cxa_begin_catch')
def cxa_begin(E, st, fr, a, n):
    st.caught.append(st.exc)
    return a[0]


@bi('__cxa_end_catch')
def cxa_end(E, st, fr, a, n):
    if st.caught:
        x = st.caught.pop()
        if x is not None and x is not RETHROWN:
            xref(E, st, x[0], -1)


@bi('__cxa_get_exception_ptr')
def cxa_get(E, st, fr, a, n):
    return a[0]


RETHROWN = ('rethrown', None)


@bi('__cxa_rethrow')
def cxa_rethrow(E, st, fr, a, n):
    d, nm, uw = E._cur
    x = st.caught[-1]
    st.caught[-1] = RETHROWN      # its end_catch follows on the unwind path
    E.throw(st, x[0], x[1], uw)
    return NORET


@bi('_ZSt17current_exceptionv')
def current_exc(E, st, fr, a, n):
    v = st.caught[-1][0] if st.caught else 0
    xref(E, st, v, 1)
    E.store(st, a[0], 8, v)


@bi('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def rethrow_exc(E, st, fr, a, n):
    d, nm, uw = E._cur
    v = E.load(st, a[0], 8)
    if not isinstance(v, Ptr):
        E.prove(st, 0, 'rethrow of a null exception', 'safety')
    xref(E, st, v, 1)
    E.throw(st, v, st.names.get(('ti', v.o), 0), uw)
    return NORET


@bi('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv')
def exc_add(E, st, fr, a, n):
    xref(E, st, E.load(st, a[0], 8), 1)


@bi('_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv')
def exc_rel(E, st, fr, a, n):
    v = E.load(st, a[0], 8)
    xref(E, st, v, -1)
    if isinstance(v, Ptr) and st.names.get(('xr', v.o), 1) == 0:
        E.store(st, a[0], 8, 0)


@bi('_ZNSt15__exception_ptr13exception_ptrC1EPv', '_ZNSt15__exception_ptr13exception_ptrC2EPv')
def exc_ctor(E, st, fr, a, n):
    xref(E, st, a[1], 1)
    E.store(st, a[0], 8, a[1])


@bi('_ZNSt15__exception_ptr13exception_ptrC1ERKS0_', '_ZNSt15__exception_ptr13exception_ptrC2ERKS0_')
def exc_copy(E, st, fr, a, n):
    v = E.load(st, a[1], 8)
    xref(E, st, v, 1)
    E.store(st, a[0], 8, v)


@bi('_ZNSt15__exception_ptr13exception_ptrD1Ev', '_ZNSt15__exception_ptr13exception_ptrD2Ev')
def exc_dtor(E, st, fr, a, n):
    xref(E, st, E.load(st, a[0], 8), -1)


@bi('_ZNSt15__exception_ptr13exception_ptraSERKS0_')
def exc_assign(E, st, fr, a, n):
    v = E.load(st, a[1], 8)
    xref(E, st, v, 1)
    xref(E, st, E.load(st, a[0], 8), -1)
    E.store(st, a[0], 8, v)
    return a[0]


@bi('_ZNSt15__exception_ptr13exception_ptraSEOS0_')
def exc_massign(E, st, fr, a, n):
    v = E.load(st, a[1], 8)
    E.store(st, a[1], 8, 0)
    xref(E, st, E.load(st, a[0], 8), -1)
    E.store(st, a[0], 8, v)
    return a[0]


@bi('_ZNSt15__exception_ptr13exception_ptr4swapERS0_')
def exc_swap(E, st, fr, a, n):
    x, y = E.load(st, a[0], 8), E.load(st, a[1], 8)
    E.store(st, a[0], 8, y)
    E.store(st, a[1], 8, x)


@bi('_ZNKSt15__exception_ptr13exception_ptrcvbEv')
def exc_bool(E, st, fr, a, n):
    v = E.load(st, a[0], 8)
    return 0 if isinstance(v, int) and v == 0 else 1


@bi('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt11logic_errorD2Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt11logic_errorD1Ev')
def excd(E, st, fr, a, n):
    return None


@bi('_ZNSt11logic_errorC2EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorC2ERKS_', '_ZNSt11logic_errorC1ERKS_', '_ZNSt11logic_errorC2EOS_', '_ZNSt11logic_errorC1EOS_', '_ZNSt13runtime_errorC2ERKS_')
def excc(E, st, fr, a, n):
    return None


def throw_std(E, st, tag):
    d, nm, uw = E._cur
    p = alloc(E, st, 16, 'heap', 'exception')
    ti = E.newobj(st, 'typeinfo:' + tag, 16, 'global', 'zero')
    st.names[('ti', p.o)] = Ptr(ti.id, 0)
    E.throw(st, p, Ptr(ti.id, 0), uw)
    return NORET


@pre('_ZSt20__throw_', '_ZSt17__throw_', '_ZSt19__throw_', '_ZSt16__throw_', '_ZSt21__throw_', '_ZSt24__throw_', '_ZSt25__throw_', '_ZSt28__throw_')
def throwfn(E, st, fr, a, n):
    return throw_std(E, st, n)


# ---------------------------------------------------------------- misc runtime
@bi('sched_yield', 'nanosleep', 'clock_nanosleep', 'usleep')
def zero(E, st, fr, a, n):
    return 0


@bi('__cxa_atexit', '__cxa_guard_acquire', '_ZNSt8ios_base4InitC1Ev')
def atexit(E, st, fr, a, n):
    return 0


@bi('__errno_location')
def errno(E, st, fr, a, n):
    o = E.newobj(st, 'errno', 4, 'global', 'zero')
    return Ptr(o.id, 0)


@bi('strlen')
def strlen(E, st, fr, a, n):
    return len(E.cstr(st, a[0]))


@bi('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv')
def now(E, st, fr, a, n):
    e, nm = E.fresh(st, 'now', 64)
    st.nondets.append((nm, e))
    prev = st.names.get('lastnow')
    st.pc.append(z3.And(e > 0, e < (1 << 61)))
    if prev is not None:
        st.pc.append(e >= prev)
    st.names['lastnow'] = e
    return e


@bi('pthread_self')
def pself(E, st, fr, a, n):
    return 4242


# ---------------------------------------------------------------- ghost interface
def want_int(E, st, v):
    if v is UNDEF:
        E.prove(st, 0, 'ghost argument initialised', 'harness')
    return v


@bi('vc_nondet')
def vc_nondet(E, st, fr, a, n):
    w = a[0]
    e, nm = E.fresh(st, E.cstr(st, a[1]), w)
    st.nondets.append((nm, e))
    if w == 1:
        return z3.If(e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return e if w == 64 else z3.ZeroExt(64 - w, e)


@bi('vc_choose')
def vc_choose(E, st, fr, a, n):
    nm0 = E.cstr(st, a[0])
    key = 'choose:' + nm0
    pend = st.names.get('pend')
    if pend is not None:
        st.names['pend'] = None
        st.trace.append('%s=%d' % (nm0, pend))
        return pend
    s2 = st.fork()
    st.names['pend'] = 1
    s2.names['pend'] = 0
    st.forks += 1
    s2.forks += 1
    raise Fork([s2, st])


@bi('vc_assume')
def vc_assume(E, st, fr, a, n):
    c = a[0]
    if c is UNDEF:
        E.prove(st, 0, 'assumption initialised', 'harness')
    E.assume(st, c)


@bi('vc_assert')
def vc_assert(E, st, fr, a, n):
    c = a[0]
    nm = E.cstr(st, a[1])
    if c is UNDEF:
        E.prove(st, 0, nm + ' [uninitialised]', 'assert')
    E.prove(st, c, nm, 'assert')


@bi('vc_cover')
def vc_cover(E, st, fr, a, n):
    nm = E.cstr(st, a[0])
    if not E.R.covers.get(nm):
        E.R.covers[nm] = 1 if E.check(st) != 'unsat' else 0


@bi('vc_alloc')
def vc_alloc(E, st, fr, a, n):
    o = E.newobj(st, E.cstr(st, a[1]), a[0], 'heap', 'undef')
    return Ptr(o.id, 0)


@bi('vc_alloc_sym')
def vc_alloc_sym(E, st, fr, a, n):
    o = E.newobj(st, E.cstr(st, a[1]), a[0], 'heap', 'sym')
    return Ptr(o.id, 0)


@bi('vc_array')
def vc_array(E, st, fr, a, n):
    cnt, es = a[0], a[1]
    o = E.newobj(st, E.cstr(st, a[2]), None, 'heap', 'sym')
    o.es = es
    o.n = cnt
    o.farr = {}
    o.size = norm(bv(cnt, 64) * es)
    return Ptr(o.id, 0)


@bi('vc_lazy_array')
def vc_lazy_array(E, st, fr, a, n):
    o = E.newobj(st, E.cstr(st, a[4]), None, 'heap', 'sym')
    o.es = a[1]
    o.n = a[0]
    o.mk = (a[2], a[3])
    o.size = norm(bv(a[0], 64) * a[1])
    return Ptr(o.id, 0)


@bi('vc_freed')
def vc_freed(E, st, fr, a, n):
    p = a[0]
    if isinstance(p, Ptr):
        return int(not st.mem[p.o].alive)
    return 0


@bi('vc_kill')
def vc_kill(E, st, fr, a, n):
    o = st.wobj(a[0].o)
    o.alive = False


@bi('vc_set_lazy')
def vc_set_lazy(E, st, fr, a, n):
    p, fn, ctx = a
    o = st.wobj(p.o)
    E.put(o, p.off, 8, Lazy(fn, ctx))


@bi('vc_lazy')
def vc_lazy(E, st, fr, a, n):
    p = a[0]
    o = st.mem[p.o]
    if not o.alive:
        E.prove(st, 0, 'no use after free (structure walk)', 'safety')
    c = o.cells.get(p.off)
    if c is not None and isinstance(c[1], Lazy):
        return c[1].ctx
    return 0


@bi('vc_k')
def vc_k(E, st, fr, a, n):
    return st.k if st.k is not None else 0


@bi('vc_bound')
def vc_bound(E, st, fr, a, n):
    return E.opts.get('bound', 0)


@bi('vc_loop_contract')
def vc_loop_contract(E, st, fr, a, n):
    if isinstance(a[0], FnPtr) and not E.opts.get('bound'):
        st.loopc = (a[0], a[1], E.cstr(st, a[2]), None, None, None)
    else:
        st.loopc = None


@bi('vc_loop_ptr')
def vc_loop_ptr(E, st, fr, a, n):
    if st.loopc is not None:
        st.loopc = st.loopc[:3] + (a[0], a[1]) + st.loopc[5:]


@bi('vc_loop_eq')
def vc_loop_eq(E, st, fr, a, n):
    if st.loopc is not None:
        st.loopc = st.loopc[:5] + ((a[0].o, a[0].off, a[1], None),)


@bi('vc_loop_ne')
def vc_loop_ne(E, st, fr, a, n):
    if st.loopc is not None and st.loopc[5] is not None:
        st.loopc = st.loopc[:5] + (st.loopc[5][:3] + (a[0],),)


@bi('vc_unroll')
def vc_unroll(E, st, fr, a, n):
    st.unroll = a[0]


@bi('vc_guard')
def vc_guard(E, st, fr, a, n):
    p, sz, l = a
    st.guards.append((p.o, p.off, sz, l.o, l.off))


@bi('vc_opaque')
def vc_opaque(E, st, fr, a, n):
    p, sz = a
    st.guards.append((p.o, p.off, sz, None, None))


@bi('vc_unguard')
def vc_unguard(E, st, fr, a, n):
    st.guards = []


@bi('vc_set_held')
def vc_set_held(E, st, fr, a, n):
    p = E.bv_ptr(st, a[0])
    if not isinstance(p, Ptr):
        raise Unsupported('lock at opaque address')
    if not st.mem[p.o].alive:
        E.prove(st, 0, 'no use after free (lock)', 'safety')
    st.held[(p.o, lkey(p.off))] = a[1]


def lkey(off):
    return off if isinstance(off, int) else str(off)


@bi('vc_held')
def vc_held(E, st, fr, a, n):
    p = E.bv_ptr(st, a[0])
    if not isinstance(p, Ptr):
        raise Unsupported('lock at opaque address')
    return st.held.get((p.o, lkey(p.off)), 0)


@bi('vc_nheld')
def vc_nheld(E, st, fr, a, n):
    return sum(1 for v in st.held.values() if v)


@bi('vc_end')
def vc_end(E, st, fr, a, n):
    raise PathEnd('vc_end')


@bi('vc_note')
def vc_note(E, st, fr, a, n):
    st.trace.append(E.cstr(st, a[0]))
    if E.opts.get('debug'):
        print('note', E.cstr(st, a[0]), a[1] if len(a) > 1 else '')


@bi('vc_is_ghost_alloc')
def vc_is_ghost(E, st, fr, a, n):
    return int(st.mem[a[0].o].name.startswith('gheap'))


@bi('vc_mark')
def vc_mark(E, st, fr, a, n):
    E._marks = getattr(E, '_marks', 0)
    return E.oid


@bi('vc_leaks')
def vc_leaks(E, st, fr, a, n):
    """number of live heap objects allocated by non-ghost code since the mark"""
    c = 0
    for oid, o in st.mem.items():
        if oid > a[0] and o.alive and o.kind == 'heap' and (o.name.startswith('heap') or ('xr', oid) in st.names):
            c += 1
            if E.opts.get('debug'):
                print('live', o.name)
    return c


@bi('vc_objsize')
def vc_objsize(E, st, fr, a, n):
    return st.mem[a[0].o].size


@bi('vc_snapshot')
def vc_snapshot(E, st, fr, a, n):
    E.retire(st)
    st.snaps.append(dict(st.mem))
    return len(st.snaps) - 1


@bi('vc_changed')
def vc_changed(E, st, fr, a, n):
    """1 if any byte of [p,p+n) differs (structurally) from snapshot; materialisation of lazy cells is no change"""
    sid, p, ln = a
    o0 = st.snaps[sid].get(p.o)
    o1 = st.mem[p.o]
    if o0 is o1:
        return 0
    if o0 is None or o0.alive != o1.alive:
        return 1
    for off in set(o0.cells) | set(o1.cells):
        if not (p.off <= off < p.off + ln):
            continue
        x, y = o0.cells.get(off), o1.cells.get(off)
        if x is None and o0.init == 'sym':
            continue
        if x is None or y is None:
            return 1
        if isinstance(x[1], Lazy):
            continue
        if not same(x[1], y[1]):
            if isinstance(x[1], (Ptr, FnPtr, Lazy)) or isinstance(y[1], (Ptr, FnPtr, Lazy)) or x[1] is UNDEF or y[1] is UNDEF or x[0] != y[0]:
                return 1
            c = E.icmp(st, 'eq', ('i', 8 * x[0]), x[1], y[1])
            if not E.valid(st, c):
                return 1
    return 0


@bi('vc_atomhook')
def vc_atomhook(E, st, fr, a, n):
    st.atomhook = a[0] if isinstance(a[0], FnPtr) else None


@bi('vc_same')
def vc_same(E, st, fr, a, n):
    return int(same(a[0], a[1]))


@bi('vc_split')
def vc_split(E, st, fr, a, n):
    """fork on a condition so that later code sees it concretely"""
    c = a[0]
    return int(E.branch(st, c))


@bi('vc_addr')
def vc_addr(E, st, fr, a, n):
    return E.ptr_bv(st, a[0]) if not isinstance(a[0], int) else a[0]
