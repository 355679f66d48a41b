"""Path-wise verification-condition generator over LLVM IR (see DESIGN.md, section Engine)."""
import re, time, sys, os, subprocess
import z3
import ir

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class NeedContract(Exception):
    def __init__(self, key):
        self.key = key


class LoopMode(Exception):
    """loop-variable generalisation changed: restart"""


class PathEnd(Exception):
    pass


class Fork(Exception):
    """re-execute current instruction in each listed state"""
    def __init__(self, states):
        self.states = states


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Lazy:
    __slots__ = ('fn', 'ctx')

    def __init__(self, fn, ctx):
        self.fn = fn
        self.ctx = ctx


class Lin:
    """symbolic byte offset: c + sum(coef*term)"""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (coef, z3 term)

    def __repr__(self):
        return 'Lin(%s,%s)' % (self.c, self.t)


def s64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


def lin_add(a, c, terms=()):
    """a: int|Lin, returns int|Lin"""
    if isinstance(a, int):
        base, t = a, []
    else:
        base, t = a.c, list(a.t)
    for (k, e) in terms:
        if k == 0:
            continue
        for i, (k2, e2) in enumerate(t):
            if e2.eq(e):
                t[i] = (k2 + k, e2)
                break
        else:
            t.append((k, e))
    t = [(k, e) for k, e in t if k != 0]
    base = s64(base + c)
    if not t:
        return base
    return Lin(base, tuple(t))


def lin_z3(a):
    if isinstance(a, int):
        return z3.BitVecVal(a, 64)
    r = z3.BitVecVal(a.c, 64)
    for k, e in a.t:
        r = r + (z3.BitVecVal(k, 64) * e if k != 1 else e)
    return z3.simplify(r)


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'cells', 'alive', 'init', 'owner', 'es', 'n', 'farr', 'const', 'lin0', 'mk', 'tab')

    def __init__(self, id, name, size, kind, init, owner):
        self.mk = None     # lazily materialised array: (ghost function, user pointer)
        self.tab = ()      # its elements so far: (index, object, offset)
        self.id = id
        self.name = name
        self.size = size
        self.kind = kind
        self.cells = {}
        self.alive = True
        self.init = init  # undef | zero | sym
        self.owner = owner
        self.es = None
        self.n = None
        self.farr = None
        self.const = False

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.name, o.size, o.kind, o.alive, o.init = self.id, self.name, self.size, self.kind, self.alive, self.init
        o.es, o.n, o.const = self.es, self.n, self.const
        o.mk, o.tab = self.mk, self.tab
        o.cells = dict(self.cells)
        o.farr = dict(self.farr) if self.farr is not None else None
        o.owner = owner
        return o


class Frame:
    __slots__ = ('f', 'env', 'block', 'pc', 'prev', 'dest', 'normal', 'unwind', 'allocas', 'ghost', 'onret', 'lv', 'lc', 'mode')

    def clone(self):
        g = Frame.__new__(Frame)
        g.f, g.block, g.pc, g.prev, g.dest, g.normal, g.unwind = self.f, self.block, self.pc, self.prev, self.dest, self.normal, self.unwind
        g.ghost, g.onret, g.mode = self.ghost, self.onret, self.mode
        g.env = dict(self.env)
        g.allocas = list(self.allocas)
        g.lv = dict(self.lv) if self.lv else None
        g.lc = {k: dict(v) for k, v in self.lc.items()} if self.lc else None
        return g


_sid = [0]


class State:
    __slots__ = ('id', 'frames', 'mem', 'pc', 'globals', 'nondets', 'forks', 'guards', 'held', 'exc', 'caught', 'names',
                 'loopc', 'k', 'trace', 'addr', 'newlog', 'unroll', 'steps', 'inv_name', 'snaps', 'atomhook', 'last', 'livemark')

    def __init__(self):
        _sid[0] += 1
        self.id = _sid[0]
        self.frames = []
        self.mem = {}
        self.pc = []
        self.globals = {}
        self.nondets = []
        self.forks = 0
        self.guards = []
        self.held = {}
        self.exc = None
        self.caught = []
        self.names = {}
        self.loopc = None
        self.k = None
        self.trace = []
        self.addr = {}
        self.newlog = []
        self.unroll = None
        self.steps = 0
        self.snaps = []
        self.atomhook = None
        self.last = None

    def fork(self):
        s = State.__new__(State)
        _sid[0] += 1
        s.id = _sid[0]
        _sid[0] += 1
        self.id = _sid[0]  # both lose ownership
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.globals = dict(self.globals)
        s.nondets = list(self.nondets)
        s.forks = self.forks
        s.guards = list(self.guards)
        s.held = dict(self.held)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.names = dict(self.names)
        s.loopc = self.loopc
        s.k = self.k
        s.trace = list(self.trace)
        s.addr = dict(self.addr)
        s.newlog = list(self.newlog)
        s.unroll = self.unroll
        s.steps = self.steps
        s.snaps = list(self.snaps)
        s.atomhook = self.atomhook
        s.last = self.last
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.id:
            o = o.clone(self.id)
            self.mem[oid] = o
        return o


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def tobool(x):
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    return x


def norm(e):
    """simplify; back to python int if constant"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Result:
    def __init__(self):
        self.oblig = {}      # name -> [proved_by_smt, trivially]
        self.fail = []
        self.undecided = []
        self.covers = {}
        self.paths = 0
        self.steps = 0
        self.smt_queries = 0
        self.smt_time = 0.0
        self.funcs = set()   # librf functions executed
        self.contracts = {}  # contract used -> count
        self.builtins = {}
        self.loops = {}
        self.restarts = 0
        self.maxunroll = 0


class Engine:
    def __init__(self, mod, contracts, opts=None):
        self.m = mod
        self.repl = contracts  # symbol -> stub symbol
        self.opts = opts or {}
        self.solver = z3.SolverFor('QF_AUFBV') if self.opts.get('qf') else z3.Solver()
        self.to = self.opts.get('timeout_ms', 10000)
        self.solver.set('timeout', self.to)
        self.spc = []
        self.loopneed = {}
        self.qcache = {}    # key -> {'phi':{}, 'cell':{}}
        self.R = Result()
        self.oid = 0
        self.fresh_n = {}
        self.deadline = None
        self.maxfail = self.opts.get('maxfail', 12)
        self.second = self.opts.get('second', False)
        self.keyseq = {}
        self.curgen = None

    # ------------------------------------------------------------ solver
    def sync(self, st):
        pc = st.pc
        a = self.spc
        i = 0
        n = min(len(a), len(pc))
        while i < n and a[i] is pc[i]:
            i += 1
        if i < len(a):
            self.solver.pop(len(a) - i)
            del a[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            a.append(c)

    def check(self, st, extra=None):
        """'sat'|'unsat'|'unknown'"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        key = None
        if self.loopneed:
            # loop generalisation re-executes the same prefix: ask the solver once
            key = tuple([c.get_id() for c in st.pc] + ([extra.get_id()] if extra is not None else [-1]))
            r = self.qcache.get(key)
            if r is not None:
                return r[0]
        t = time.time()
        r = self.check_(st, extra)
        self.R.smt_time += time.time() - t
        if key is not None and r != 'unknown':
            self.qcache[key] = (r, list(st.pc), extra)
        return r

    def check_(self, st, extra):
        self.sync(st)
        self.R.smt_queries += 1
        if extra is not None:
            r = self.solver.check(extra)
        else:
            r = self.solver.check()
        if r == z3.unknown:
            r = self.oneshot(st, extra)
        else:
            r = str(r)
        return r

    def oneshot(self, st, extra):
        s = z3.SolverFor('QF_AUFBV')
        s.set('timeout', self.opts.get('timeout2_ms', 60000))
        for c in st.pc:
            s.add(c)
        if extra is not None:
            s.add(extra)
        r = s.check()
        self._lastm = s
        if r != z3.unknown:
            return str(r)
        txt = s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.opts.get('timeout2_ms', 60000), '-'], input=txt, capture_output=True, text=True, timeout=120)
            o = p.stdout.strip().split('\n')[0]
            if o in ('sat', 'unsat'):
                return o
        except Exception:
            pass
        return 'unknown'

    def add(self, st, c):
        """add path condition (no check)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        st.pc.append(c)

    def assume(self, st, c):
        """c: python int or z3 bool; ends path if infeasible"""
        if isinstance(c, int):
            if not c:
                raise PathEnd('assume false')
            return
        st.pc.append(c)
        if self.check(st) == 'unsat':
            raise PathEnd('assume infeasible')

    def model(self, st, extra):
        self.sync(st)
        vals = {}
        try:
            if self.solver.check(extra) == z3.sat:
                m = self.solver.model()
                for name, e in st.nondets:
                    v = m.eval(e, model_completion=True)
                    vals[name] = str(v)
        except z3.Z3Exception:
            pass
        return vals

    def where(self, st):
        r = []
        for f in st.frames[-6:]:
            if not f.ghost or f is st.frames[-1]:
                r.append(short(f.f.dname))
        return ' > '.join(r)

    def prove(self, st, c, name, kind='assert'):
        """c: int or z3 Bool. Adds c to path afterwards."""
        e = self.R.oblig.setdefault(name, [0, 0])
        if isinstance(c, int):
            if c:
                e[1] += 1
                return
            r = self.check(st)
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r == 'unknown':
                self.R.undecided.append(name + ' @ ' + self.where(st))
                raise PathEnd('undecided')
            self.failure(st, name, kind, None)
            raise PathEnd('failed')
        nc = z3.Not(c)
        r = self.check(st, nc)
        if r == 'unsat':
            e[0] += 1
            if self.second:
                self.cross(st, nc, name)
            return
        if r == 'unknown':
            self.R.undecided.append(name + ' @ ' + self.where(st))
        else:
            self.failure(st, name, kind, nc)
        st.pc.append(c)
        if self.check(st) == 'unsat':
            raise PathEnd('failed')

    def cross(self, st, nc, name):
        s = z3.Solver()
        for c in st.pc:
            s.add(c)
        s.add(nc)
        try:
            p = subprocess.run(['cvc5', '--tlimit=20000', '-'], input=s.to_smt2(), capture_output=True, text=True, timeout=40)
            o = p.stdout.strip().split('\n')[0]
        except Exception as ex:
            o = 'err'
        self.R.cross = getattr(self.R, 'cross', {})
        self.R.cross[o] = self.R.cross.get(o, 0) + 1
        if o == 'sat':
            self.R.undecided.append('cvc5 disagrees on ' + name)

    def failure(self, st, name, kind, nc):
        m = self.model(st, nc if nc is not None else z3.BoolVal(True))
        if any(f.onret and f.onret[0].startswith('loop') for f in st.frames):
            kind = 'loop-contract'
        self.R.fail.append({'obligation': name, 'kind': kind, 'where': self.where(st), 'model': m, 'trace': st.trace[-40:]})
        if len(self.R.fail) >= self.maxfail:
            raise StopIteration

    def fresh(self, st, name, w):
        k = st.names.get(name, 0)
        st.names[name] = k + 1
        nm = name if k == 0 else '%s#%d' % (name, k)
        if w == 1:
            e = z3.Bool(nm)
        else:
            e = z3.BitVec(nm, w)
        return e, nm

    def branch(self, st, c):
        """returns True/False, forking when both feasible"""
        if isinstance(c, int):
            return bool(c)
        if c is UNDEF:
            self.prove(st, 0, 'no branch on uninitialised value', 'safety')
        last = st.last
        if last is not None and last[0].eq(c):
            return last[1]
        rt = self.check(st, c)
        if rt == 'unsat':
            return False
        rf = self.check(st, z3.Not(c))
        if rf == 'unsat':
            return True
        s2 = st.fork()
        st.pc.append(c)
        s2.pc.append(z3.Not(c))
        st.forks += 1
        s2.forks += 1
        st.last = (c, True)
        s2.last = (c, False)
        raise Fork([s2, st])

    # ------------------------------------------------------------ memory
    def newobj(self, st, name, size, kind, init):
        self.oid += 1
        o = Obj(self.oid, name, size, kind, init, st.id)
        k = st.names.get('obj:' + name, 0)
        st.names['obj:' + name] = k + 1
        o.name = '%s.%d' % (name, k) if k else name
        st.mem[o.id] = o
        return o

    def global_ptr(self, st, name):
        if name in self.m.aliases:
            return self.const(st, self.m.aliases[name])
        if name in self.m.funcs:
            return FnPtr(name)
        oid = st.globals.get(name)
        if oid is None:
            ty, init, const = self.m.globals[name]
            try:
                sz = self.m.size(ty)
            except Exception:
                sz = None
            o = self.newobj(st, '@' + name, sz, 'global', 'zero' if init is not None else 'sym')
            if init is None and name.startswith('_ZT'):
                o.init = 'undef'
            oid = o.id
            st.globals[name] = oid
            if init is not None:
                self.init_cells(st, oid, 0, ty, init)
            st.mem[oid].const = const
        return Ptr(oid, 0)

    def init_cells(self, st, oid, off, ty, init):
        ty = self.m.resolve(ty)
        k = init[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'agg':
            if ty[0] == 'struct':
                offs, _ = self.m.struct_layout(ty)
                for o2, t2, i2 in zip(offs, ty[2], init[1]):
                    self.init_cells(st, oid, off + o2, t2, i2)
            else:
                es = self.m.size(ty[2])
                for j, i2 in enumerate(init[1]):
                    self.init_cells(st, oid, off + j * es, ty[2], i2)
            return
        v = self.const(st, init)
        st.wobj(oid).cells[off] = (self.m.size(ty), v)

    def addr_of(self, st, oid):
        a = st.addr.get(oid)
        if a is None:
            o = st.mem[oid]
            a = z3.BitVec('addr!%s!%d' % (o.name, oid), 64)
            sz = o.size if isinstance(o.size, int) else (1 << 20)
            sz = max(sz, 1)
            cs = [z3.UGT(a, 4096), z3.ULT(a, (1 << 47)), z3.Extract(2, 0, a) == 0]
            for oid2, a2 in st.addr.items():
                o2 = st.mem.get(oid2)
                s2 = o2.size if o2 is not None and isinstance(o2.size, int) else (1 << 20)
                s2 = max(s2, 1)
                if o2 is not None and not o2.alive:
                    continue
                cs.append(z3.Or(z3.ULE(a + sz, a2), z3.ULE(a2 + s2, a)))
            for c in cs:
                st.pc.append(c)
            st.addr[oid] = a
        return a

    def ptr_bv(self, st, p):
        if isinstance(p, Ptr):
            a = self.addr_of(st, p.o)
            return z3.simplify(a + lin_z3(p.off))
        if isinstance(p, FnPtr):
            h = 0x400000 + (hash(p.name) & 0xffffff) * 16
            return z3.BitVecVal(h, 64)
        return bv(p, 64)

    def bv_ptr(self, st, e):
        """try to turn a 64-bit expression into Ptr"""
        if isinstance(e, (Ptr, FnPtr)):
            return e
        if isinstance(e, int):
            return e
        if e is UNDEF:
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        inv = {a.get_id(): o for o, a in st.addr.items()}
        if e.get_id() in inv:
            return Ptr(inv[e.get_id()], 0)
        if e.decl().kind() == z3.Z3_OP_BADD:
            base = None
            off = 0
            for ch in e.children():
                if ch.get_id() in inv and base is None:
                    base = inv[ch.get_id()]
                elif z3.is_bv_value(ch):
                    off = lin_add(off, s64(ch.as_long()))
                else:
                    off = lin_add(off, 0, [(1, ch)])
            if base is not None:
                return Ptr(base, off)
        return e

    def deref(self, st, p, size, what, write=False):
        """-> (obj, off) checked; off int or ('f', idx, rel)"""
        if not isinstance(p, Ptr):
            if isinstance(p, int) or isinstance(p, FnPtr):
                self.prove(st, 0, 'no null/invalid pointer dereference', 'safety')
            if p is UNDEF:
                self.prove(st, 0, 'no uninitialised pointer dereference', 'safety')
            p = self.bv_ptr(st, p)
            if not isinstance(p, Ptr):
                # candidates by solver
                if isinstance(p, int):
                    self.prove(st, 0, 'no null/invalid pointer dereference', 'safety')
                for oid, a in list(st.addr.items()):
                    if st.mem.get(oid) is not None and self.check(st, p != a) == 'unsat':
                        p = Ptr(oid, 0)
                        break
                else:
                    if self.check(st, p == 0) == 'sat':
                        self.prove(st, p != 0, 'no null/invalid pointer dereference', 'safety')
                    raise Unsupported('dereference of opaque pointer %s' % str(p)[:80])
        o = st.mem.get(p.o)
        if o is None or not o.alive:
            self.prove(st, 0, 'no use after free (%s)' % (kindname(o.name) if o else '?'), 'safety')
        off = p.off
        if o.mk is not None:
            return self.deref_elem(st, o, off, size, what, write)
        if isinstance(off, int):
            if o.farr is not None:
                idx = z3.BitVecVal(off // o.es, 64)
                rel = off % o.es
                self.prove(st, norm(z3.And(z3.BoolVal(off >= 0), z3.ULT(idx, bv(o.n, 64)))), 'array access in bounds', 'safety')
                return o, ('f', idx, rel)
            if o.size is not None:
                if isinstance(o.size, int):
                    if off < 0 or off + size > o.size:
                        self.prove(st, 0, 'access in bounds', 'safety')
                    self.R.oblig.setdefault('memory access valid', [0, 0])[1] += 1
                else:
                    self.prove(st, norm(z3.UGE(o.size, z3.BitVecVal(off + size, 64))), 'array access in bounds', 'safety')
            return o, off
        # symbolic offset
        if o.farr is None and not isinstance(o.size, int):
            # discover element size
            o = st.wobj(o.id)
            g = 0
            for k, _ in off.t:
                g = gcd(g, abs(k))
            o.es = g
            o.farr = {}
            o.n = norm(z3.UDiv(bv(o.size, 64), z3.BitVecVal(g, 64)))
            if o.cells:
                cells = o.cells
                o.cells = {}
                for co, (cs, cv) in cells.items():
                    self.fstore(st, o, z3.BitVecVal(co // g, 64), co % g, cs, cv)
        if o.farr is not None:
            es = o.es
            for k, _ in off.t:
                if k % es:
                    raise Unsupported('unaligned symbolic index into array')
            rel = off.c % es
            idx = z3.BitVecVal(off.c // es, 64)
            for k, e in off.t:
                idx = idx + z3.BitVecVal(k // es, 64) * e
            idx = z3.simplify(idx)
            self.prove(st, norm(z3.ULT(idx, bv(o.n, 64))), 'array access in bounds', 'safety')
            return o, ('f', idx, rel)
        # enumerate
        e = lin_z3(off)
        cand = []
        extra = []
        for _ in range(40):
            self.sync(st)
            self.solver.push()
            for x in extra:
                self.solver.add(x)
            r = self.solver.check()
            if r != z3.sat:
                self.solver.pop()
                if r == z3.unknown:
                    raise Unsupported('symbolic offset: solver gives up')
                break
            v = self.solver.model().eval(e, model_completion=True).as_long()
            self.solver.pop()
            cand.append(v)
            extra.append(e != v)
            if s64(v) < 0 or s64(v) + size > o.size:
                self.prove(st, norm(z3.And(z3.ULE(e, o.size - size))), 'array access in bounds', 'safety')
                extra = [e != v for v in cand]
        else:
            raise Unsupported('symbolic offset with many values')
        if not cand:
            raise PathEnd('infeasible')
        if len(cand) == 1:
            return o, s64(cand[0])
        sts = []
        for v in cand:
            s2 = st.fork()
            s2.pc.append(e == v)
            s2.forks += 1
            sts.append(s2)
        raise Fork(sts)

    def deref_elem(self, st, o, off, size, what, write):
        """array whose elements are materialised by a ghost function the first time an index is used"""
        es = o.es
        if isinstance(off, int):
            idx, rel = off // es, off % es
            self.prove(st, norm(z3.ULT(z3.BitVecVal(idx, 64), bv(o.n, 64))), 'array access in bounds', 'safety')
        else:
            for k, _ in off.t:
                if k % es:
                    raise Unsupported('unaligned symbolic index into array')
            rel = off.c % es
            idx = lin_z3(Lin(off.c // es, tuple((k // es, e) for k, e in off.t)))
            self.prove(st, norm(z3.ULT(idx, bv(o.n, 64))), 'array access in bounds', 'safety')
        if rel + size > es:
            raise Unsupported('access across array elements')
        hit = None
        for ti, to, tf in o.tab:
            if same(ti, idx):
                hit = (to, tf)
                break
        if hit is None:
            for ti, to, tf in o.tab:
                if self.branch(st, norm(bv(ti, 64) == bv(idx, 64))):
                    hit = (to, tf)
                    break
        if hit is None:
            st.frames[-1].pc -= 1
            self.call_ghost(st, o.mk[0], [idx, o.mk[1]], ('elem', o.id, idx))
            raise Fork([st])
        e = st.mem.get(hit[0])
        if e is None or not e.alive:
            self.prove(st, 0, 'no use after free (array element)', 'safety')
        return e, hit[1] + rel

    def fkey(self, o, rel, size):
        if (rel, size) not in o.farr:
            for (r2, s2) in o.farr:
                if not (r2 + s2 <= rel or rel + size <= r2):
                    raise Unsupported('overlapping array fields %s %s' % ((rel, size), (r2, s2)))
            if o.init == 'zero':
                a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8 * size))
            else:
                a = z3.Array('%s.f%d_%d' % (o.name, rel, size), z3.BitVecSort(64), z3.BitVecSort(8 * size))
            o.farr[(rel, size)] = a
        return o.farr[(rel, size)]

    def fstore(self, st, o, idx, rel, size, v):
        if v is UNDEF:
            self._uf = getattr(self, '_uf', 0) + 1
            v = z3.BitVec('undef!%d' % self._uf, 8 * size)
        if isinstance(v, (Ptr, FnPtr)):
            v = self.ptr_bv(st, v)
        a = self.fkey(o, rel, size)
        o.farr[(rel, size)] = z3.Store(a, idx, bv(v, 8 * size))

    def check_guard(self, st, oid, off, size, write):
        for (go, goff, gsz, lo, loff) in st.guards:
            if go == oid and (not isinstance(off, int) or (off < goff + gsz and goff < off + size)):
                if lo is None:
                    raise Unsupported('direct access to state that is abstracted by a contract')
                ok = st.held.get((lo, loff), 0)
                self.prove(st, 1 if ok else 0, 'lock discipline: guarded field accessed only with its lock held', 'lock')

    def load(self, st, p, size, atomic=False):
        o, off = self.deref(st, p, size, 'load')
        if st.guards and not st.frames[-1].ghost and not atomic:
            self.check_guard(st, o.id, off, size, False)
        if not isinstance(off, int):
            _, idx, rel = off
            if (rel, size) not in o.farr:
                o = st.wobj(o.id)
            a = self.fkey(o, rel, size)
            return norm(z3.Select(a, idx))
        return self.load_cell(st, o, off, size)

    def load_cell(self, st, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if type(v) is Lazy:
                self.resolve_lazy(st, o, off, v)
            return v
        # compose
        parts = []
        pos = off
        end = off + size
        anyk = False
        while pos < end:
            c = o.cells.get(pos)
            if c is not None and pos + c[0] <= end:
                parts.append((c[0], c[1]))
                if c[1] is not UNDEF:
                    anyk = True
                pos += c[0]
                continue
            if c is not None:
                # wider cell: extract low part
                v = c[1]
                n = end - pos
                if isinstance(v, (Ptr, FnPtr, Lazy)):
                    raise Unsupported('partial read of pointer')
                parts.append((n, v if v is UNDEF else self.extract(v, c[0], 0, n)))
                anyk = True
                pos = end
                continue
            # covered by an earlier wider cell?
            hit = None
            for back in range(1, 64):
                c = o.cells.get(pos - back)
                if c is not None:
                    if c[0] > back:
                        hit = (pos - back, c)
                    break
            if hit:
                base, c = hit
                n = min(end, base + c[0]) - pos
                v = c[1]
                if isinstance(v, (Ptr, FnPtr, Lazy)):
                    raise Unsupported('partial read of pointer')
                parts.append((n, v if v is UNDEF else self.extract(v, c[0], pos - base, n)))
                anyk = True
                pos += n
                continue
            # hole: find its length
            n = 1
            while pos + n < end and (pos + n) not in o.cells:
                n += 1
            if o.init == 'zero':
                parts.append((n, 0)); anyk = True
            elif o.init == 'sym':
                e, nm = self.fresh(st, '%s+%d' % (o.name, pos), 8 * n)
                st.nondets.append((nm, e))
                st.wobj(o.id).cells[pos] = (n, e)
                o = st.mem[o.id]
                parts.append((n, e)); anyk = True
            else:
                parts.append((n, UNDEF))
            pos += n
        if len(parts) == 1:
            v = parts[0][1]
            if type(v) is Lazy:
                self.resolve_lazy(st, o, off, v)
            return v
        if not anyk:
            return UNDEF
        if all(v == 0 and isinstance(v, int) for _, v in parts):
            return 0
        if any(isinstance(v, (Ptr, FnPtr, Lazy)) for _, v in parts):
            raise Unsupported('composing pointer pieces')
        if any(v is UNDEF for _, v in parts):
            # partially undefined (padding): unknown bits
            parts = [(n, v if v is not UNDEF else self.undefbits(n)) for n, v in parts]
        if all(isinstance(v, int) for _, v in parts):
            r = 0
            sh = 0
            for n, v in parts:
                r |= v << sh
                sh += 8 * n
            return r
        bs = [bv(v, 8 * n) for n, v in parts]
        return norm(z3.Concat(*reversed(bs)))

    def undefbits(self, n):
        self._uf = getattr(self, '_uf', 0) + 1
        return z3.BitVec('undef!%d' % self._uf, 8 * n)

    def extract(self, v, size, lo, n):
        if isinstance(v, int):
            return (v >> (8 * lo)) & ((1 << (8 * n)) - 1)
        return norm(z3.Extract(8 * (lo + n) - 1, 8 * lo, bv(v, 8 * size)))

    def resolve_lazy(self, st, o, off, lz):
        # call the materialiser; it returns the value for this cell, then the load is retried
        fr = st.frames[-1]
        fr.pc -= 1
        self.call_ghost(st, lz.fn, [lz.ctx], ('lazy', o.id, off))
        raise Fork([st])

    def call_ghost(self, st, fn, args, onret):
        if isinstance(fn, FnPtr):
            fn = fn.name
        f = self.m.funcs[fn]
        g = self.push(st, f, args, None, None, None)
        g.ghost = True
        g.onret = onret

    def store(self, st, p, size, v, atomic=False):
        o, off = self.deref(st, p, size, 'store', True)
        if st.guards and not st.frames[-1].ghost and not atomic:
            self.check_guard(st, o.id, off, size, True)
        if o.const:
            self.prove(st, 0, 'no write to constant object', 'safety')
        o = st.wobj(o.id)
        if not isinstance(off, int):
            _, idx, rel = off
            self.fstore(st, o, idx, rel, size, v)
            return
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.carve(o, off, size)
        cells[off] = (size, v)

    def carve(self, o, off, size):
        """remove [off,off+size) from cells, splitting partial overlaps"""
        cells = o.cells
        end = off + size
        for back in range(1, 64):
            b = off - back
            c = cells.get(b)
            if c is not None:
                if c[0] > back:
                    v = c[1]
                    if isinstance(v, (Ptr, FnPtr, Lazy)):
                        raise Unsupported('partial overwrite of pointer')
                    cells[b] = (back, v if v is UNDEF else self.extract(v, c[0], 0, back))
                    if b + c[0] > end:
                        n = b + c[0] - end
                        cells[end] = (n, v if v is UNDEF else self.extract(v, c[0], c[0] - n, n))
                break
        for k in [k for k in (range(off, end) if size <= 64 else list(cells)) if off <= k < end and k in cells]:
            c = cells.pop(k)
            if k + c[0] > end:
                n = k + c[0] - end
                v = c[1]
                if isinstance(v, (Ptr, FnPtr, Lazy)):
                    raise Unsupported('partial overwrite of pointer')
                cells[end] = (n, v if v is UNDEF else self.extract(v, c[0], c[0] - n, n))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if not isinstance(n, int):
            raise Unsupported('memcpy with symbolic length')
        so, soff = self.deref(st, s, n if st.mem.get(getattr(s, 'o', None)) is None or st.mem[s.o].farr is None else 1, 'memcpy')
        do, doff = self.deref(st, d, n if st.mem.get(getattr(d, 'o', None)) is None or st.mem[d.o].farr is None else 1, 'memcpy', True)
        if not isinstance(soff, int) or not isinstance(doff, int):
            # element copy between arrays / structs, field-wise
            if isinstance(doff, int):
                _, idx, rel = soff
                do = st.wobj(do.id)
                self.carve(do, doff, n)
                so = st.wobj(so.id)
                ks = [k for k in so.farr if rel <= k[0] < rel + n]
                if not ks:
                    raise Unsupported('memcpy from untyped array')
                for (r, sz) in ks:
                    do.cells[doff + r - rel] = (sz, norm(z3.Select(so.farr[(r, sz)], idx)))
                return
            if isinstance(soff, int):
                _, idx, rel = doff
                items = [(k - soff, c) for k, c in so.cells.items() if soff <= k < soff + n]
                do = st.wobj(do.id)
                for r, c in items:
                    v = c[1]
                    if isinstance(v, Lazy):
                        raise Unsupported('memcpy lazy to array')
                    self.fstore(st, do, idx, rel + r, c[0], v)
                return
            raise Unsupported('memcpy array to array')
        if st.guards and not st.frames[-1].ghost:
            self.check_guard(st, so.id, soff, n, False)
            self.check_guard(st, do.id, doff, n, True)
        # make boundary-aligned copy
        items = []
        covered = []
        for k, c in list(so.cells.items()):
            if k + c[0] <= soff or k >= soff + n:
                continue
            if k < soff or k + c[0] > soff + n:
                lo = max(k, soff)
                hi = min(k + c[0], soff + n)
                v = c[1]
                if isinstance(v, (Ptr, FnPtr, Lazy)):
                    raise Unsupported('partial memcpy of pointer')
                items.append((lo - soff, (hi - lo, v if v is UNDEF else self.extract(v, c[0], lo - k, hi - lo))))
                covered.append((lo - soff, hi - soff))
            else:
                items.append((k - soff, c))
                covered.append((k - soff, k - soff + c[0]))
        if so.init in ('zero', 'sym') :
            covered.sort()
            pos = 0
            holes = []
            for a, b in covered:
                if a > pos:
                    holes.append((pos, a))
                pos = max(pos, b)
            if pos < n:
                holes.append((pos, n))
            for a, b in holes:
                if so.init == 'zero':
                    items.append((a, (b - a, 0)))
                else:
                    x = a
                    while x < b:
                        w = 8 if (soff + x) % 8 == 0 and x + 8 <= b else 1
                        e, nm = self.fresh(st, '%s+%d' % (so.name, soff + x), 8 * w)
                        st.nondets.append((nm, e))
                        st.wobj(so.id).cells[soff + x] = (w, e)
                        items.append((x, (w, e)))
                        x += w
        do = st.wobj(do.id)
        self.carve(do, doff, n)
        for r, c in items:
            do.cells[doff + r] = c

    def memset(self, st, d, v, n):
        if n == 0:
            return
        if not isinstance(n, int):
            o = st.mem.get(d.o) if isinstance(d, Ptr) else None
            if o is not None and d.off == 0 and isinstance(v, int) and v == 0 and not o.cells and o.farr is None:
                self.prove(st, norm(z3.ULE(bv(n, 64), bv(o.size, 64))), 'array access in bounds', 'safety')
                st.wobj(o.id).init = 'zero'
                return
            raise Unsupported('memset with symbolic length')
        o, off = self.deref(st, d, n, 'memset', True)
        if st.guards and not st.frames[-1].ghost:
            self.check_guard(st, o.id, off, n, True)
        o = st.wobj(o.id)
        if not isinstance(off, int):
            raise Unsupported('memset into array')
        self.carve(o, off, n)
        if isinstance(v, int):
            x = off
            while x < off + n:
                w = 8 if x % 8 == 0 and x + 8 <= off + n else 4 if x % 4 == 0 and x + 4 <= off + n else 1
                o.cells[x] = (w, int.from_bytes(bytes([v & 255]) * w, 'little'))
                x += w
        else:
            for x in range(off, off + n):
                o.cells[x] = (1, v)

    # typed load/store
    def load_ty(self, st, ty, p, atomic=False):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == 'i':
            v = self.load(st, p, self.m.size(ty), atomic)
            if v is UNDEF or isinstance(v, (Ptr, FnPtr)):
                return v
            if ty[1] == 1:
                if isinstance(v, int):
                    return v & 1
                return self.bit(v)
            w = 8 * self.m.size(ty)
            if w != ty[1]:
                return v & ((1 << ty[1]) - 1) if isinstance(v, int) else norm(z3.Extract(ty[1] - 1, 0, v))
            if not isinstance(v, int) and z3.is_bool(v):
                return bv(v, w)
            return v
        if k == 'ptr':
            v = self.load(st, p, 8, atomic)
            return v
        if k == 'fp':
            return self.load(st, p, self.m.size(ty), atomic)
        if k == 'struct':
            offs, _ = self.m.struct_layout(ty)
            return tuple(self.load_ty(st, t, self.padd(p, o)) for o, t in zip(offs, ty[2]))
        if k == 'arr':
            es = self.m.size(ty[2])
            return tuple(self.load_ty(st, ty[2], self.padd(p, i * es)) for i in range(ty[1]))
        raise Unsupported('load type %r' % (ty,))

    def bit(self, v):
        """bv -> bool of bit 0"""
        if z3.is_bool(v):
            return v
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = v.arg(1), v.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long() == 1 and b.as_long() == 0:
                return v.arg(0)
        return norm(z3.Extract(0, 0, v) == 1)

    def store_ty(self, st, ty, v, p, atomic=False):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == 'i':
            sz = self.m.size(ty)
            if not isinstance(v, (int, Ptr, FnPtr)) and v is not UNDEF:
                if z3.is_bool(v):
                    v = bv(v, 8 * sz)
                elif v.size() != 8 * sz:
                    v = z3.ZeroExt(8 * sz - v.size(), v)
            self.store(st, p, sz, v, atomic)
        elif k == 'ptr':
            self.store(st, p, 8, v, atomic)
        elif k == 'fp':
            self.store(st, p, self.m.size(ty), v, atomic)
        elif k == 'struct':
            offs, _ = self.m.struct_layout(ty)
            for i, (o, t) in enumerate(zip(offs, ty[2])):
                x = UNDEF if v is UNDEF else 0 if v == 0 and isinstance(v, int) else v[i]
                self.store_ty(st, t, x, self.padd(p, o))
        elif k == 'arr':
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                x = UNDEF if v is UNDEF else 0 if isinstance(v, int) else v[i]
                self.store_ty(st, ty[2], x, self.padd(p, i * es))
        else:
            raise Unsupported('store type %r' % (ty,))

    def padd(self, p, n):
        if n == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.o, lin_add(p.off, n))
        if isinstance(p, int):
            return (p + n) & M64
        if p is UNDEF:
            return p
        if isinstance(p, FnPtr):
            raise Unsupported('arith on function pointer')
        return norm(p + n)

    def padd_sym(self, p, coef, e):
        """p + coef*e (e z3 BV64)"""
        if isinstance(p, Ptr):
            return Ptr(p.o, lin_add(p.off, 0, [(coef, e)]))
        if p is UNDEF:
            return p
        return norm(bv(p, 64) + e * coef)

    # ------------------------------------------------------------ operands
    def const(self, st, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            return self.undef_of(v[1])
        if k == 'zero':
            return self.zero_of(v[1])
        if k == 'agg':
            return tuple(self.const(st, x) for x in v[1])
        if k == 'gep':
            p = self.const(st, v[2][0][1])
            return self.gep(st, v[1], p, [(t, self.const(st, x)) for t, x in v[2][1:]])
        if k == 'cast':
            return self.cast(st, v[1], v[2], self.const(st, v[3]), v[4])
        if k == 'bin':
            return self.binop(st, v[1], v[2], self.const(st, v[3]), self.const(st, v[4]))
        if k == 'fp':
            return ('fp', v[1])
        raise Unsupported('const %r' % (v,))

    def undef_of(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            return tuple(self.undef_of(t) for t in ty[2])
        if ty[0] == 'arr':
            return tuple(self.undef_of(ty[2]) for _ in range(ty[1]))
        return UNDEF

    def zero_of(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            return tuple(self.zero_of(t) for t in ty[2])
        if ty[0] == 'arr':
            return tuple(self.zero_of(ty[2]) for _ in range(ty[1]))
        return 0

    def val(self, st, v):
        k = v[0]
        if k == 'l':
            return st.frames[-1].env[v[1]]
        if k == 'c':
            return v[1]
        return self.const(st, v)

    def gep(self, st, sty, p, idx):
        t, i0 = idx[0]
        sz = self.m.size(sty)
        p = self.gep_step(st, p, sz, t, i0)
        ty = sty
        for t, i in idx[1:]:
            ty = self.m.resolve(ty)
            if ty[0] == 'struct':
                offs, _ = self.m.struct_layout(ty)
                p = self.padd(p, offs[i])
                ty = ty[2][i]
            elif ty[0] in ('arr', 'vec'):
                ty = ty[2]
                p = self.gep_step(st, p, self.m.size(ty), t, i)
            else:
                raise Unsupported('gep into %r' % (ty,))
        return p

    def gep_step(self, st, p, sz, t, i):
        if isinstance(i, int):
            return self.padd(p, sz * sgn(i, t[1]))
        if i is UNDEF:
            return UNDEF
        if isinstance(i, Ptr):
            raise Unsupported('pointer as index')
        e = i
        if e.size() < 64:
            e = z3.simplify(z3.SignExt(64 - e.size(), e))
        # pull out constants:  x + c
        if z3.is_app_of(e, z3.Z3_OP_BADD) and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and isinstance(p, Ptr):
            p = self.padd(p, sz * s64(e.arg(0).as_long()))
            e = e.arg(1)
        return self.padd_sym(p, sz, e)

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, ty, a, b):
        ty = self.m.resolve(ty)
        if ty[0] == 'fp':
            return UNDEF if op[0] == 'f' else UNDEF
        w = ty[1] if ty[0] == 'i' else 64
        if a is UNDEF or b is UNDEF:
            if op == 'and' and (a == 0 if isinstance(a, int) else b == 0 if isinstance(b, int) else False):
                return 0
            return UNDEF
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.binop_ptr(st, op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.prove(st, 0, 'no division by zero', 'safety')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return q & m if op == 'sdiv' else (x - q * y) & m
            raise Unsupported(op)
        if w == 1:
            A, B = tobool(a), tobool(b)
            if op == 'and':
                return norm(z3.And(A, B))
            if op == 'or':
                return norm(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return norm(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.prove(st, norm(B != 0), 'no division by zero', 'safety')
            if op == 'udiv':
                r = z3.UDiv(A, B)
            elif op == 'urem' and not isinstance(b, int) and self.valid(st, z3.ULT(A, B)):
                r = A
            elif op == 'urem' and not isinstance(b, int) and self.valid(st, z3.Or(z3.ULT(A, B), z3.And(z3.UGE(A, B), z3.ULT(A - B, B)))):
                # x mod b for x < 2b (side condition just proved)
                r = z3.If(z3.ULT(A, B), A, A - B)
            elif op == 'urem':
                r = z3.URem(A, B)
            elif op == 'sdiv':
                r = A / B
            else:
                r = z3.SRem(A, B)
        else:
            raise Unsupported(op)
        return norm(r)

    def binop_ptr(self, st, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            d = lin_add(a.off, 0)
            if isinstance(b.off, int):
                d = lin_add(a.off, -b.off)
            else:
                d = lin_add(a.off, -b.off.c, [(-k, e) for k, e in b.off.t])
            return d & M64 if isinstance(d, int) else norm(lin_z3(d))
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, int):
            return self.padd(a, s64(b) if op == 'add' else -s64(b))
        if op == 'add' and isinstance(b, Ptr) and isinstance(a, int):
            return self.padd(b, s64(a))
        if op in ('xor', 'sub') and isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return 0
        if op == 'and' and isinstance(b, int) and isinstance(a, (FnPtr, Ptr)):
            # alignment tests (member function pointers, tagged pointers)
            if isinstance(a, FnPtr):
                if b < 16:
                    return 0
            elif isinstance(a.off, int) and b < 8:
                return (a.off & 7) & b
            elif isinstance(a.off, int) and b == M64 - 7 and a.off % 8 == 0:
                return a
        return self.binop(st, op, ('i', 64), self.ptr_bv(st, a), self.ptr_bv(st, b))

    def icmp(self, st, pred, ty, a, b):
        ty = self.m.resolve(ty)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        pa, pb = isinstance(a, (Ptr, FnPtr)), isinstance(b, (Ptr, FnPtr))
        if pa or pb:
            if pred in ('eq', 'ne'):
                r = self.ptr_eq(st, a, b)
                if pred == 'ne':
                    r = (1 - r) if isinstance(r, int) else norm(z3.Not(r))
                return r
            if pa and pb and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b = lin_z3(a.off), lin_z3(b.off)
                spred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
                return self.icmp(st, spred, ('i', 64), norm(a), norm(b))
            a, b = self.ptr_bv(st, a), self.ptr_bv(st, b)
        w = ty[1] if ty[0] == 'i' else 64
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            q = pred[1:]
            return int(a < b if q == 'lt' else a <= b if q == 'le' else a > b if q == 'gt' else a >= b)
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq':
                return norm(A == B)
            if pred == 'ne':
                return norm(z3.Xor(A, B))
            A, B = bv(A, 8), bv(B, 8)
        else:
            A, B = bv(a, w), bv(b, w)
        if pred == 'eq':
            r = A == B
        elif pred == 'ne':
            r = A != B
        elif pred == 'ult':
            r = z3.ULT(A, B)
        elif pred == 'ule':
            r = z3.ULE(A, B)
        elif pred == 'ugt':
            r = z3.UGT(A, B)
        elif pred == 'uge':
            r = z3.UGE(A, B)
        elif pred == 'slt':
            r = A < B
        elif pred == 'sle':
            r = A <= B
        elif pred == 'sgt':
            r = A > B
        else:
            r = A >= B
        return norm(r)

    def ptr_eq(self, st, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o != b.o:
                return 0
            d = self.binop_ptr(st, 'sub', 64, a, b)
            return int(d == 0) if isinstance(d, int) else norm(d == 0)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return int(a.name == b.name)
        if isinstance(a, int) and isinstance(b, int):
            return int(a == b)
        if isinstance(a, int) or isinstance(b, int):
            x, p = (a, b) if isinstance(a, int) else (b, a)
            if isinstance(p, (Ptr, FnPtr)):
                if x < 4096:
                    return 0
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return 0
        return norm(self.ptr_bv(st, a) == self.ptr_bv(st, b))

    def cast(self, st, op, ty, v, t2):
        if v is UNDEF:
            return UNDEF
        ty = self.m.resolve(ty)
        t2 = self.m.resolve(t2)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'ptrtoint' and t2[1] < 64 and not isinstance(v, int):
                return norm(z3.Extract(t2[1] - 1, 0, self.ptr_bv(st, v)))
            if op == 'inttoptr' and not isinstance(v, (int, Ptr, FnPtr)):
                return self.bv_ptr(st, v)
            return v
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return UNDEF
        w, w2 = ty[1], t2[1]
        if isinstance(v, (Ptr, FnPtr)):
            if op == 'trunc':
                v = self.ptr_bv(st, v)
            else:
                return v
        if op == 'zext':
            if isinstance(v, int):
                return v
            if w == 1:
                return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            return norm(z3.ZeroExt(w2 - w, v))
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, w) & ((1 << w2) - 1)
            if w == 1:
                return z3.If(v, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
            return norm(z3.SignExt(w2 - w, v))
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << w2) - 1)
            if w2 == 1:
                return self.bit(v)
            return norm(z3.Extract(w2 - 1, 0, v))
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ control
    def push(self, st, f, args, dest, normal, unwind):
        self.m.body(f)
        g = Frame()
        g.f = f
        g.env = {}
        for (t, nm), a in zip(f.params, args):
            g.env[nm] = a
        g.block = f.entry
        g.pc = 0
        g.prev = None
        g.dest = dest
        g.normal = normal
        g.unwind = unwind
        g.allocas = []
        par = st.frames[-1].ghost if st.frames else True
        g.ghost = f.ghost or (par and not self.is_librf(f))
        g.onret = None
        g.lv = None
        g.lc = None
        g.mode = None
        if len(st.frames) > 120:
            raise Unsupported('call depth')
        st.frames.append(g)
        if self.is_librf(f) and not f.ghost:
            self.R.funcs.add(f.dname)
        return g

    def is_librf(self, f):
        r = getattr(f, 'sret', None) if False else None
        d = f.dname
        c = self.keyseq.get(d)
        if c is None:
            # does the *qualified function name* (before the argument list) live in librf?
            head = strip_args(d)
            c = bool(re.search(r'(^|[ *&(])(librf|milk)::', head))
            self.keyseq[d] = c
        return c

    def chainkey(self, st, tgt):
        return ' > '.join(fr.f.name for fr in st.frames if not fr.onret)[-400:] + ' #' + tgt

    def goto(self, st, fr, tgt):
        f = fr.f
        if tgt in f.loops:
            back = (fr.block, tgt) in f.backedges
            if back and (fr.lv is None or tgt not in fr.lv):
                back = False     # first visit through a side entry (resumed coroutine): the loop is entered here
            key = None
            if fr.lc and tgt in fr.lc and back:
                self.loop_back(st, fr, tgt)
                return
            if back:
                lv = fr.lv
                n, fk = lv[tgt]
                n += 1
                lv[tgt] = (n, fk)
                lim = st.unroll if st.unroll is not None else 3
                if st.forks > fk and n >= lim:
                    key = self.chainkey(st, tgt)
                    if st.loopc is not None:
                        raise NeedContract(key)
                    if n > self.opts.get('maxunroll', 40):
                        raise Unsupported('unbounded loop without contract in %s' % short(f.dname))
                elif n > 6000:
                    raise Unsupported('loop iterations in %s' % short(f.dname))
                self.R.maxunroll = max(self.R.maxunroll, n)
            else:
                if fr.lv is None:
                    fr.lv = {}
                if fr.lc and tgt in fr.lc:
                    del fr.lc[tgt]
                fr.lv[tgt] = (0, st.forks)
                if st.loopc is not None and self.loopneed:
                    key = self.chainkey(st, tgt)
                    if key in self.loopneed:
                        self.loop_enter(st, fr, tgt, key)
                        return
        fr.prev = fr.block
        fr.block = tgt
        fr.pc = 0
        self.do_phis(st, fr)

    def do_phis(self, st, fr):
        ins = fr.f.blocks[fr.block]
        n = 0
        new = []
        while n < len(ins) and ins[n][0] == 'phi':
            i = ins[n]
            v = i[3].get(fr.prev)
            if v is None:
                raise Unsupported('phi')
            new.append((i[1], self.val(st, v)))
            n += 1
        for d, v in new:
            fr.env[d] = v
        fr.pc = n

    # ---- loop contracts
    def loop_enter(self, st, fr, tgt, key):
        fr.prev = fr.block
        fr.block = tgt
        fr.pc = 0
        self.do_phis(st, fr)
        if fr.lc is None:
            fr.lc = {}
        fr.lc[tgt] = {'key': key, 'k': None, 'contract': st.loopc, 'oldk': st.k}
        st.k = 0
        self.R.loops[short(fr.f.dname)] = st.loopc[2]
        self.call_ghost(st, st.loopc[0], [], ('loop1', tgt))

    def retire(self, st):
        _sid[0] += 1
        st.id = _sid[0]

    def loop_after_check(self, st, tgt):
        """initial invariant established: generalise"""
        fr = st.frames[-1]
        lc = fr.lc[tgt]
        need = self.loopneed[lc['key']]
        k, nm = self.fresh(st, 'k', 64)
        st.nondets.append((nm, k))
        st.pc.append(z3.ULE(k, (1 << 31)))
        st.k = k
        lc['k'] = k
        ph = {}
        pg = []
        grp = []          # fresh variables with their initial values: those that start equal are assumed, and checked, to stay equal
        eqs = []
        bits = []
        rngs = []
        neq = need.setdefault('neq', set())

        def gen(ident, rk, x0, mode, w, what):
            if mode[0] != 'fresh' or isinstance(x0, (Ptr, FnPtr, Lazy, tuple)) or x0 is UNDEF or x0 is None:
                return self.general(st, x0, mode, k, w, what)
            for id2, rk2, y0, w2, v2 in grp:
                if w2 == w and same(x0, y0) and (rk, rk2) not in neq and not isinstance(x0, int):
                    eqs.append((ident, id2, rk, rk2, w))
                    return v2
            v = self.general(st, x0, mode, k, w, what)
            grp.append((ident, rk, x0, w, v))
            gc = lc['contract'][5]
            if gc is not None and w == 8 * gc[2] and (rk, 'ghost') not in neq:
                g = self.ghost_int(st, gc)
                if g is not None and self.valid(st, self.icmp(st, 'eq', ('i', w), x0, g)):
                    rngs.append((v, ident, rk, w))
            if what == 'phi' and w == 64:
                # facts about single low bits that hold at entry are assumed, and checked, to stay
                for b in (0, 1):
                    for val in (0, 1):
                        if (rk, b, val) in neq:
                            continue
                        f0 = norm(z3.Extract(b, b, bv(x0, w)) == val)
                        if self.valid(st, f0):
                            bits.append((z3.Extract(b, b, v) == val, ident, rk, b, val))
                            break
            return v
        for i in fr.f.blocks[tgt]:
            if i[0] != 'phi':
                break
            x0 = fr.env[i[1]]
            mode = need['phi'].get(i[1], ('const',))
            w = self.m.size(self.m.resolve(i[2])) * 8
            if self.m.resolve(i[2])[0] == 'i':
                w = self.m.resolve(i[2])[1]
            if mode[0] == 'pgen':
                pg.append(('phi', i[1]))
            else:
                fr.env[i[1]] = gen(('phi', i[1]), ('phi', i[1]), x0, mode, w, 'phi')
            ph[i[1]] = (x0, w)
        lc['ph'] = ph
        cm = {}
        lins = {}
        for ck, mode in need['cell'].items():
            name, off = ck
            for o in list(st.mem.values()):
                if o.name == name and o.alive:
                    c = o.cells.get(off)
                    if c is None:
                        if mode[0] in ('undef', 'fresh'):
                            o = st.wobj(o.id)
                            self.put(o, off, mode[1], self.general(st, UNDEF, mode, k, 8 * mode[1], 'cell'))
                            cm[(o.id, off)] = UNDEF
                        continue
                    if mode[0] == 'pgen':
                        pg.append(('cell', o.id, off))
                        continue
                    o = st.wobj(o.id)
                    o.cells[off] = (c[0], gen(('cell', o.id, off), ck, c[1], mode, 8 * c[0], 'cell'))
                    cm[(o.id, off)] = c[1]
                    if mode[0] == 'lin':
                        lins.setdefault(o.id, []).append(off)
        lc['cm'] = cm
        lc['lins'] = lins
        lc['eqs'] = tuple(eqs)
        lc['bits'] = tuple(bits)
        lc['rngs'] = tuple(rngs)
        gc = lc['contract'][5]
        lc['gne0'] = gc is not None and gc[3] is not None and self.ghost_int(st, gc) is not None and self.valid(st, self.icmp(st, 'ne', ('i', 8 * gc[2]), self.ghost_int(st, gc), gc[3]))
        for x in bits:
            st.pc.append(x[0])
        self.retire(st)
        lc['pg'] = tuple(pg)
        st.k = 0
        self.loop_ent(st, tgt, 0)

    def loop_ent(self, st, tgt, i):
        """the value such a variable has at entry: null, or one that passes the contract's check"""
        fr = st.frames[-1]
        lc = fr.lc[tgt]
        while i < len(lc['pg']):
            x = lc['pg'][i]
            v = fr.env[x[1]] if x[0] == 'phi' else st.mem[x[1]].cells.get(x[2], (8, UNDEF))[1]
            if isinstance(v, Ptr):
                self.call_ghost(st, lc['contract'][4], [v], ('loope', tgt, i + 1))
                return
            i += 1
        st.k = lc['k']
        lc['pre'] = dict(st.mem)
        self.loop_gen(st, tgt, 0)

    def loop_gen(self, st, tgt, i):
        """pointer variables that change from one iteration to the next: the contract's generator gives the value at iteration k"""
        lc = st.frames[-1].lc[tgt]
        if i < len(lc['pg']):
            self.call_ghost(st, lc['contract'][3], [], ('loopg', tgt, i))
        else:
            self.call_ghost(st, lc['contract'][1], [], ('loop2', tgt))

    def loop_gen_ret(self, st, tgt, i, v):
        fr = st.frames[-1]
        x = fr.lc[tgt]['pg'][i]
        if x[0] == 'phi':
            fr.env[x[1]] = v
        else:
            o = st.wobj(x[1])
            o.cells[x[2]] = (8, v)
        self.loop_gen(st, tgt, i + 1)

    def loop_chk(self, st, tgt, i):
        fr = st.frames[-1]
        lc = fr.lc[tgt]
        if i < len(lc['pg']):
            x = lc['pg'][i]
            v = fr.env[x[1]] if x[0] == 'phi' else st.mem[x[1]].cells.get(x[2], (8, UNDEF))[1]
            if not isinstance(v, (Ptr, int)):
                need = self.loopneed[lc['key']]
                if x[0] == 'phi':
                    need['phi'][x[1]] = ('undef', 8)
                else:
                    need['cell'][(st.mem[x[1]].name, x[2])] = ('undef', 8)
                raise LoopMode()
            self.call_ghost(st, lc['contract'][4], [v], ('loopc', tgt, i))
        else:
            self.call_ghost(st, lc['contract'][0], [], ('loop3', tgt))

    def general(self, st, x0, mode, k, w, what):
        if mode[0] == 'const':
            return x0
        if mode[0] == 'lin':
            return self.linval(st, x0, mode[1], k, w)
        if mode[0] == 'undef':
            return UNDEF
        if w == 1:
            return self.fresh(st, 'loopvar', 1)[0]
        e, nm = self.fresh(st, 'loopvar', w)
        return e

    def ghost_int(self, st, gc):
        c = st.mem[gc[0]].cells.get(gc[1])
        if c is None or c[0] != gc[2] or isinstance(c[1], (Ptr, FnPtr, Lazy, tuple)) or c[1] is UNDEF:
            return None
        return c[1]

    def linval(self, st, x0, d, k, w):
        if isinstance(x0, Ptr):
            return Ptr(x0.o, lin_add(x0.off, 0, [(d, k)])) if not isinstance(k, int) else Ptr(x0.o, lin_add(x0.off, d * k))
        kk = k
        if not isinstance(k, int) and w < 64:
            kk = z3.Extract(w - 1, 0, k)
        return norm(bv(x0, w) + bv(kk, w) * z3.BitVecVal(d, w))

    def loop_after_havoc(self, st, tgt):
        fr = st.frames[-1]
        lc = fr.lc[tgt]
        pre = lc['pre']
        managed = set()
        mobj = set()
        for oid, o in st.mem.items():
            p = pre.get(oid)
            if p is None:
                mobj.add(oid)
                continue
            if p is o:
                continue
            for off, c in o.cells.items():
                pc_ = p.cells.get(off)
                if pc_ is None or not same(pc_[1], c[1]):
                    managed.add((oid, off))
            if p.farr is not None and o.farr is not None:
                for kx, a in o.farr.items():
                    if kx not in p.farr or not p.farr[kx].eq(a):
                        managed.add((oid, ('f',) + kx))
        lc['managed'] = managed
        lc['mobj'] = mobj
        for v, ident, rk, w in lc['rngs']:
            # an integer loop variable that starts equal to the ghost integer is assumed, and checked, to stay equal to it
            c = self.icmp(st, 'eq', ('i', w), v, self.ghost_int(st, lc['contract'][5]))
            if not isinstance(c, int):
                st.pc.append(c)
            elif not c:
                raise PathEnd('loop havoc infeasible')
        gc = lc['contract'][5]
        lc['gne'] = False
        if gc is not None and gc[3] is not None and lc['gne0'] and ('ghostne',) not in self.loopneed[lc['key']]['neq']:
            # the ghost integer is not this value at entry: assumed, and checked, to stay so
            lc['gne'] = True
            c = self.icmp(st, 'ne', ('i', 8 * gc[2]), self.ghost_int(st, gc), gc[3])
            if not isinstance(c, int):
                st.pc.append(c)
            elif not c:
                raise PathEnd('loop havoc infeasible')
        self.retire(st)
        lc['mh'] = dict(st.mem)
        lc['pre'] = None
        # continue after phis
        n = 0
        ins = fr.f.blocks[tgt]
        while ins[n][0] == 'phi':
            n += 1
        fr.pc = n
        if self.check(st) == 'unsat':
            raise PathEnd('loop havoc infeasible')
        self.R.covers['loop contract body reachable: ' + lc['contract'][2]] = 1

    def loop_back(self, st, fr, tgt):
        lc = fr.lc[tgt]
        key = lc['key']
        need = self.loopneed[key]
        k = lc['k']
        dirty = False
        self.curgen = lc['contract'][3]
        k1 = norm(k + 1)
        fr.prev = fr.block
        fr.block = tgt
        fr.pc = 0
        old = {i: fr.env[i] for i in lc['ph']}
        self.do_phis(st, fr)
        for d, (x0, w) in lc['ph'].items():
            mode = need['phi'].get(d, ('const',))
            if mode[0] == 'pgen':
                continue
            nm = self.recheck(st, mode, x0, old[d], fr.env[d], k, k1, w, w // 8)
            if nm is not None:
                need['phi'][d] = nm
                dirty = True
        mh = lc['mh']
        for oid, o in mh.items():
            cur = st.mem[oid]
            if oid in lc['mobj']:
                continue
            for off in lc['lins'].get(oid, ()):
                # a cell assumed to advance with every iteration is checked on every back edge, changed or not
                ck = (o.name, off)
                if not cur.alive or (oid, off) in lc['managed'] or off not in o.cells or off not in cur.cells or need['cell'].get(ck, ('const',))[0] != 'lin':
                    continue
                c = cur.cells[off]
                nm = self.recheck(st, need['cell'][ck], lc['cm'].get((oid, off), o.cells[off][1]), o.cells[off][1], c[1], k, k1, 8 * c[0], c[0])
                if nm is not None:
                    need['cell'][ck] = nm
                    dirty = True
            if cur is o:
                continue
            if not cur.alive:
                if o.kind == 'stack':
                    continue
                if o.alive:
                    raise Unsupported('loop frees %s outside its contract' % o.name)
                continue
            for off, c in cur.cells.items():
                oc = o.cells.get(off)
                if oc is not None and same(oc[1], c[1]):
                    continue
                if (oid, off) in lc['managed'] or ('cell', oid, off) in lc['pg']:
                    continue
                ck = (o.name, off)
                mode = need['cell'].get(ck, ('const',))
                if oc is None:
                    if mode[0] in ('undef', 'fresh'):
                        continue
                    if o.init == 'sym':
                        continue
                    need['cell'][ck] = ('undef', c[0])
                    dirty = True
                    continue
                if isinstance(oc[1], Lazy):
                    if isinstance(c[1], (Ptr, int)):
                        continue  # materialisation only
                x0 = lc['cm'].get((oid, off), oc[1])
                nm = self.recheck(st, mode, x0, oc[1], c[1], k, k1, 8 * c[0], c[0])
                if nm is not None:
                    need['cell'][ck] = nm
                    dirty = True
            if cur.farr is not None and o.farr is not None:
                for kx, a in cur.farr.items():
                    if kx in o.farr and not o.farr[kx].eq(a) and (oid, ('f',) + kx) not in lc['managed']:
                        raise Unsupported('loop modifies array %s outside its contract' % o.name)
        for _, ident, rk, b, val in lc['bits']:
            v = fr.env[ident[1]]
            if isinstance(v, (Ptr, FnPtr, Lazy, tuple)) or v is UNDEF or not self.valid(st, norm(z3.Extract(b, b, bv(v, 64)) == val)):
                need['neq'].add((rk, b, val))
                dirty = True
        for _, x, rk, w in lc['rngs']:
            v = fr.env[x[1]] if x[0] == 'phi' else st.mem[x[1]].cells.get(x[2], (8, UNDEF))[1]
            if isinstance(v, (Ptr, FnPtr, Lazy, tuple)) or v is UNDEF or v is None or not self.valid(st, self.icmp(st, 'eq', ('i', w), v, self.ghost_int(st, lc['contract'][5]))):
                need['neq'].add((rk, 'ghost'))
                dirty = True
        if lc['gne']:
            gc = lc['contract'][5]
            g = self.ghost_int(st, gc)
            if g is None or not self.valid(st, self.icmp(st, 'ne', ('i', 8 * gc[2]), g, gc[3])):
                need['neq'].add(('ghostne',))
                dirty = True
        for ia, ib, ra, rb, w in lc['eqs']:
            va, vb = [fr.env[x[1]] if x[0] == 'phi' else st.mem[x[1]].cells.get(x[2], (8, UNDEF))[1] for x in (ia, ib)]
            if same(va, vb):
                continue
            bad = any(isinstance(v, (Ptr, FnPtr, Lazy, tuple)) or v is UNDEF or v is None for v in (va, vb))
            if bad or not self.valid(st, self.icmp(st, 'eq', ('i', w), va, vb)):
                need['neq'].add((ra, rb))
                dirty = True
        if dirty:
            raise LoopMode()
        st.k = k1
        self.loop_chk(st, tgt, 0)

    def recheck(self, st, mode, x0, old, new, k, k1, w, size):
        """value 'new' at the back edge must equal the generalisation at k+1; returns a weaker mode if not"""
        if same(old, new) and mode[0] == 'const':
            return None
        if mode[0] in ('undef',):
            return None
        if mode[0] == 'fresh':
            if isinstance(new, (Ptr, FnPtr, Lazy)):
                return ('undef', size)
            return None
        if mode[0] == 'lin':
            want = self.linval(st, x0, mode[1], k1, w)
            if isinstance(new, Ptr) or isinstance(want, Ptr):
                ok = isinstance(new, Ptr) and isinstance(want, Ptr) and new.o == want.o and self.valid(st, self.ptr_eq(st, new, want))
            elif new is UNDEF or isinstance(new, (FnPtr, Lazy)):
                ok = False
            else:
                ok = self.valid(st, self.icmp(st, 'eq', ('i', w), new, want))
            if ok:
                return None
            if self.curgen and isinstance(new, Ptr) and isinstance(want, Ptr):
                return ('pgen', size)
            return ('undef', size) if isinstance(new, (Ptr, FnPtr, Lazy)) or isinstance(want, Ptr) else ('fresh', size)
        # const and differs
        if self.curgen and isinstance(old, (Ptr, int)) and isinstance(new, (Ptr, int)) and (isinstance(old, Ptr) or isinstance(new, Ptr)) and not (isinstance(old, Ptr) and isinstance(new, Ptr) and old.o == new.o) and (not isinstance(old, int) or old == 0) and (not isinstance(new, int) or new == 0):
            return ('pgen', size)
        if isinstance(old, Ptr) and isinstance(new, Ptr) and old.o == new.o:
            d = self.binop_ptr(st, 'sub', 64, new, old)
            if isinstance(d, int):
                return ('lin', s64(d))
            return ('undef', size)
        if isinstance(old, (Ptr, FnPtr, Lazy)) or isinstance(new, (Ptr, FnPtr, Lazy)) or old is UNDEF or new is UNDEF or isinstance(old, tuple):
            return ('undef', size)
        if self.valid(st, self.icmp(st, 'eq', ('i', w), new, old)):
            return None
        if w == 1:
            return ('fresh', size)
        d = norm(bv(new, w) - bv(old, w))
        if isinstance(d, int):
            return ('lin', sgn(d, w))
        return ('fresh', size)

    def valid(self, st, c):
        if isinstance(c, int):
            return bool(c)
        return self.check(st, z3.Not(c)) == 'unsat'

    # ------------------------------------------------------------ main
    def run_harness(self, name, budget=None):
        t0 = time.time()
        self.deadline = t0 + budget if budget else None
        while True:
            R = Result()
            R.restarts = self.R.restarts
            R.smt_queries, R.smt_time = self.R.smt_queries, self.R.smt_time
            self.R = R
            self.oid = 0
            self.solver.reset()
            self.solver.set('timeout', self.to)
            self.spc = []
            try:
                self.run_all(name)
            except NeedContract as e:
                self.loopneed[e.key] = {'phi': {}, 'cell': {}}
                self.R.restarts += 1
                continue
            except LoopMode:
                if self.opts.get('debug'):
                    print('NEED', self.loopneed)
                self.R.restarts += 1
                if self.R.restarts > 400:
                    self.R.undecided.append('loop generalisation does not converge')
                    break
                continue
            except StopIteration:
                pass
            except Unsupported as e:
                self.R.undecided.append('unsupported: %s' % e)
            except ir.ParseError as e:
                self.R.undecided.append('parse: %s' % str(e)[:300])
            except z3.Z3Exception as e:
                if self.opts.get('debug'):
                    raise
                self.R.undecided.append('z3: %s' % str(e)[:300])
            break
        self.R.wall = time.time() - t0
        return self.R

    def run_all(self, name):
        st = State()
        f = self.m.funcs[name]
        self.push(st, f, [], None, None, None)
        work = [st]
        while work:
            st = work.pop()
            try:
                self.run_path(st, work)
            except Unsupported as e:
                self.R.undecided.append('unsupported: %s' % e)
                if len(self.R.undecided) > 12 or 'time budget' in str(e):
                    return

    def run_path(self, st, work):
        R = self.R
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.f.blocks[fr.block][fr.pc]
                fr.pc += 1
                st.steps += 1
                R.steps += 1
                try:
                    self.exec(st, fr, ins)
                except Fork as fk:
                    if len(fk.states) == 1:
                        s2 = fk.states[0]
                        continue
                    # re-execute the current instruction in all states
                    for s2 in fk.states:
                        f2 = s2.frames[-1]
                        f2.pc -= 1
                    for s2 in fk.states[:-1]:
                        work.append(s2)
                    st = fk.states[-1]
                    continue
        except PathEnd as e:
            R.paths += 1
            if self.opts.get('debug'):
                print('path end:', e, 'pc', len(st.pc), self.where(st))
        except Unsupported as e:
            if self.opts.get('debug'):
                print('UNSUPPORTED', e, 'in', [f.f.dname[:120] for f in st.frames])
            raise Unsupported(str(e) + ' @ ' + self.where(st))
        except KeyError as e:
            if self.opts.get('debug'):
                print('KEYERR', e, 'in', [f.f.dname[:100] for f in st.frames])
                raise
            raise Unsupported('internal: missing %s @ %s' % (e, self.where(st)))

    def exec(self, st, fr, I):
        op = I[0]
        env = fr.env
        if op == 'load':
            env[I[1]] = self.load_ty(st, I[2], self.val(st, I[3]), I[4] is not None)
            if I[4] is not None and st.atomhook and not fr.ghost:
                self.atomic_event(st, 'load', self.val(st, I[3]), I[4])
        elif op == 'store':
            self.store_ty(st, I[1], self.val(st, I[2]), self.val(st, I[3]), I[4] is not None)
            if I[4] is not None and st.atomhook and not fr.ghost:
                self.atomic_event(st, 'store', self.val(st, I[3]), I[4])
        elif op == 'gep':
            env[I[1]] = self.gep(st, I[2], self.val(st, I[3]), [(t, self.val(st, v)) for t, v in I[4]])
        elif op == 'call' or op == 'invoke':
            self.do_call(st, fr, I)
        elif op == 'br':
            self.goto(st, fr, I[1])
        elif op == 'cbr':
            c = self.val(st, I[1])
            self.goto(st, fr, I[2] if self.branch(st, c) else I[3])
        elif op == 'icmp':
            env[I[1]] = self.icmp(st, I[2], I[3], self.val(st, I[4]), self.val(st, I[5]))
        elif op == 'bin':
            env[I[1]] = self.binop(st, I[2], I[3], self.val(st, I[4]), self.val(st, I[5]))
        elif op == 'cast':
            env[I[1]] = self.cast(st, I[2], I[3], self.val(st, I[4]), I[5])
        elif op == 'alloca':
            n = 1
            if I[3] is not None:
                n = self.val(st, I[3][1])
            o = self.newobj(st, short(fr.f.dname, 24) + '%' + I[1], self.m.size(I[2]) * n, 'stack', 'undef')
            fr.allocas.append(o.id)
            env[I[1]] = Ptr(o.id, 0)
        elif op == 'ret':
            v = None if I[1] is None else self.val(st, I[2])
            self.do_ret(st, v)
        elif op == 'extractvalue':
            v = self.val(st, I[3])
            for i in I[4]:
                v = v[i]
            env[I[1]] = v
        elif op == 'insertvalue':
            v = self.val(st, I[3])
            x = self.val(st, I[5])
            if v is UNDEF:
                v = self.undef_of(I[2])
            env[I[1]] = insertv(v, x, I[6])
        elif op == 'select':
            c = self.val(st, I[2])
            a, b = self.val(st, I[4]), self.val(st, I[5])
            if isinstance(c, int):
                env[I[1]] = a if c else b
            elif same(a, b):
                env[I[1]] = a
            else:
                ty = self.m.resolve(I[3])
                if ty[0] == 'i' and not isinstance(a, (Ptr, FnPtr)) and not isinstance(b, (Ptr, FnPtr)) and a is not UNDEF and b is not UNDEF and c is not UNDEF:
                    if ty[1] == 1:
                        env[I[1]] = norm(z3.If(c, tobool(a), tobool(b)))
                    else:
                        env[I[1]] = norm(z3.If(c, bv(a, ty[1]), bv(b, ty[1])))
                else:
                    env[I[1]] = a if self.branch(st, c) else b
        elif op == 'switch':
            v = self.val(st, I[2])
            if v is UNDEF:
                self.prove(st, 0, 'no branch on uninitialised value', 'safety')
            if isinstance(v, int):
                for cv, lab in I[4]:
                    if cv == v:
                        self.goto(st, fr, lab)
                        return
                self.goto(st, fr, I[3])
                return
            w = self.m.resolve(I[1])[1]
            for cv, lab in I[4]:
                if self.branch(st, norm(bv(v, w) == cv)):
                    self.goto(st, fr, lab)
                    return
            self.goto(st, fr, I[3])
        elif op == 'cmpxchg':
            self.do_cmpxchg(st, fr, I)
        elif op == 'atomicrmw':
            self.do_rmw(st, fr, I)
        elif op == 'landingpad':
            raise Unsupported('landingpad')
        elif op == 'resume':
            v = self.val(st, I[1])
            self.throw_again(st)
        elif op == 'unreachable':
            self.prove(st, 0, 'unreachable code not reached', 'safety')
        elif op == 'copy':
            env[I[1]] = self.val(st, I[3])
        elif op == 'nop':
            if st.atomhook and not fr.ghost:
                self.atomic_event(st, 'fence', 0, I[1])
        elif op == 'fcmp':
            env[I[1]] = UNDEF
        else:
            raise Unsupported('instr ' + op)

    def atomic_event(self, st, kind, p, order):
        code = {'load': 0, 'store': 1, 'rmw': 2, 'cas': 3, 'casfail': 4, 'fence': 5}[kind]
        oc = {'unordered': 0, 'monotonic': 0, 'acquire': 1, 'release': 2, 'acq_rel': 3, 'seq_cst': 4, None: 0}[order]
        self.call_ghost(st, st.atomhook, [p, code, oc], ('ignore',))

    def do_cmpxchg(self, st, fr, I):
        _, dest, ty, pv, cmp, new, o1, o2, weak = I
        p = self.val(st, pv)
        old = self.load_ty(st, ty, p, True)
        c = self.val(st, cmp)
        rty = self.m.resolve(ty)
        eq = self.icmp(st, 'eq', rty, old, c)
        if weak and not fr.ghost and self.opts.get('weakcas', True) and not self.opts.get('bound') and st.atomhook and not any(g.f.dname.startswith('std::_Sp_') for g in st.frames[-2:]):
            # spurious failure
            e, nm = self.fresh(st, 'cas_spurious', 1)
            if isinstance(eq, int) and eq == 0:
                pass
            else:
                eq = norm(z3.And(tobool(eq), z3.Not(e)))
                # deterministic naming: undo counter on re-execution
                if not isinstance(eq, int):
                    try:
                        ok = self.branch(st, eq)
                    except Fork as fk:
                        for s2 in fk.states:
                            s2.names['cas_spurious'] -= 1
                        raise
                    eq = int(ok)
        ok = self.branch(st, eq)
        if ok:
            self.store_ty(st, ty, self.val(st, new), p, True)
        fr.env[dest] = (old, 1 if ok else 0)
        if st.atomhook and not fr.ghost:
            self.atomic_event(st, 'cas' if ok else 'casfail', p, o1 if ok else o2)

    def do_rmw(self, st, fr, I):
        _, dest, o, ty, pv, vv, order = I
        p = self.val(st, pv)
        old = self.load_ty(st, ty, p, True)
        v = self.val(st, vv)
        rty = self.m.resolve(ty)
        if o == 'xchg':
            new = v
        elif o in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, o, ty, old, v)
        elif o in ('max', 'min', 'umax', 'umin'):
            pred = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[o]
            c = self.icmp(st, pred, rty, old, v)
            new = old if self.branch(st, c) else v
        else:
            raise Unsupported('rmw ' + o)
        self.store_ty(st, ty, new, p, True)
        fr.env[dest] = old
        if st.atomhook and not fr.ghost:
            self.atomic_event(st, 'rmw', p, order)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = st.wobj(oid)
            o.alive = False
            o.cells = {}
        if fr.onret is not None:
            k = fr.onret[0]
            if k == 'lazy':
                o = st.wobj(fr.onret[1])
                o.cells[fr.onret[2]] = (8, v)
            elif k == 'elem':
                o = st.wobj(fr.onret[1])
                if not isinstance(v, Ptr) or not isinstance(v.off, int):
                    raise Unsupported('array element generator')
                o.tab = o.tab + ((fr.onret[2], v.o, v.off),)
            elif k == 'loop1':
                self.loop_after_check(st, fr.onret[1])
            elif k == 'loop2':
                self.loop_after_havoc(st, fr.onret[1])
            elif k == 'loope':
                self.loop_ent(st, fr.onret[1], fr.onret[2])
            elif k == 'loopg':
                self.loop_gen_ret(st, fr.onret[1], fr.onret[2], v)
            elif k == 'loopc':
                self.loop_chk(st, fr.onret[1], fr.onret[2] + 1)
            elif k == 'loop3':
                raise PathEnd('loop step')
            elif k == 'ignore':
                pass
            return
        if not st.frames:
            self.R.covers['harness exit reachable'] = 1
            raise PathEnd('done')
        g = st.frames[-1]
        if fr.dest is not None:
            g.env[fr.dest] = v
        if fr.normal is not None:
            self.goto(st, g, fr.normal)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, obj, ti, unwind):
        st.exc = (obj, ti)
        if unwind is not None:
            self.enter_pad(st, st.frames[-1], unwind)
        else:
            self.unwind(st)

    def throw_again(self, st):
        self.unwind(st, True)

    def unwind(self, st, from_self=False):
        obj, ti = st.exc
        # first: find the handler. The current frame called throw (or resumes): pop it
        while True:
            fr = st.frames.pop()
            for oid in fr.allocas:
                o = st.wobj(oid)
                o.alive = False
                o.cells = {}
            if fr.onret is not None:
                raise Unsupported('exception escapes ghost callback')
            if not st.frames:
                self.prove(st, 0, 'no exception escapes', 'safety')
            if fr.unwind is not None:
                g = st.frames[-1]
                self.enter_pad(st, g, fr.unwind)
                return

    def enter_pad(self, st, g, lab):
        obj, ti = st.exc
        lp = None
        for i in g.f.blocks[lab]:
            if i[0] == 'landingpad':
                lp = i
                break
        sel = 0
        match = False
        for kind, v in lp[3]:
            if kind == 'catch':
                x = self.const(st, v)
                if isinstance(x, int) and x == 0:
                    match = True
                    sel = self.typeid(None)
                    break
                if self.ti_match(st, ti, x):
                    match = True
                    sel = self.typeid(x)
                    break
        if not match and not lp[2]:
            # continue unwinding through this frame
            self.unwind(st)
            return
        self.goto(st, g, lab)
        g.env[lp[1]] = (obj, sel)
        # skip the landingpad instruction
        ins = g.f.blocks[lab]
        g.pc = ins.index(lp) + 1

    def typeid(self, x):
        if x is None:
            return 1
        nm = str((x.o if isinstance(x, Ptr) else x))
        self._tid = getattr(self, '_tid', {})
        return self._tid.setdefault(nm, len(self._tid) + 2)

    def ti_match(self, st, ti, x):
        if isinstance(ti, Ptr) and isinstance(x, Ptr):
            if ti.o == x.o:
                return True
            # single-inheritance walk
            o = st.mem[ti.o]
            c = o.cells.get(16)
            if c is not None and isinstance(c[1], Ptr):
                return self.ti_match(st, c[1], x)
        return False

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, I):
        op, dest, rt, callee, args, normal, unwind = I
        cv = self.val(st, callee)
        if not isinstance(cv, FnPtr):
            if isinstance(cv, int):
                self.prove(st, 0, 'no call through null function pointer', 'safety')
            if cv is UNDEF:
                self.prove(st, 0, 'no call through uninitialised pointer', 'safety')
            cv = self.bv_ptr(st, cv)
            if not isinstance(cv, FnPtr):
                raise Unsupported('call through opaque pointer')
        name = cv.name
        if name in self.m.aliases:
            cv = self.const(st, self.m.aliases[name]); name = cv.name
        av = [self.val(st, v) for t, v in args]
        if normal is None:
            # a throw inside a plain call unwinds past this frame
            unwind = None
        r = self.repl.get(name)
        if r is not None:
            if not (fr.ghost and fr.f.name == r):
                self.R.contracts[self.m.funcs[name].dname] = self.R.contracts.get(self.m.funcs[name].dname, 0) + 1
                name = r
        f = self.m.funcs.get(name)
        if f is not None and f.lines is not None:
            # byval arguments: copy
            self.push(st, f, av, dest, normal, unwind)
            return
        res = self.builtin(st, fr, name, av, args, rt, dest, normal, unwind)
        if res is NORET:
            return
        if dest is not None:
            fr.env[dest] = res
        if normal is not None:
            self.goto(st, fr, normal)

    def cstr(self, st, p):
        if not isinstance(p, Ptr):
            return '?'
        o = st.mem[p.o]
        s = ''
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None or c[1] == 0 or not isinstance(c[1], int):
                return s
            s += chr(c[1])
            i += 1

    def builtin(self, st, fr, name, a, args, rt, dest, normal, unwind):
        import builtins_lv
        h = builtins_lv.TABLE.get(name)
        if h is None:
            for pre, fn in builtins_lv.PREFIX:
                if name.startswith(pre):
                    h = fn
                    break
        if h is None:
            raise Unsupported('external function %s' % (self.m.funcs[name].dname if name in self.m.funcs else name))
        self.R.builtins[name] = self.R.builtins.get(name, 0) + 1
        self._cur = (dest, normal, unwind)
        return h(self, st, fr, a, name)


NORET = object()


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def insertv(v, x, idx):
    l = list(v)
    if len(idx) == 1:
        l[idx[0]] = x
    else:
        l[idx[0]] = insertv(l[idx[0]], x, idx[1:])
    return tuple(l)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr):
        return isinstance(b, Ptr) and a.o == b.o and sameoff(a.off, b.off)
    if isinstance(a, FnPtr):
        return isinstance(b, FnPtr) and a.name == b.name
    if isinstance(a, Lazy):
        return isinstance(b, Lazy) and same(a.fn, b.fn) and same(a.ctx, b.ctx)
    if isinstance(a, int):
        return isinstance(b, int) and a == b
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is UNDEF or b is UNDEF or isinstance(b, (int, Ptr, FnPtr, Lazy, tuple)):
        return False
    return a.eq(b)


def sameoff(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.c == b.c and len(a.t) == len(b.t) and all(x[0] == y[0] and x[1].eq(y[1]) for x, y in zip(a.t, b.t))


def strip_args(d):
    """qualified name of a demangled function, without parameter list (best effort, template-aware)"""
    depth = 0
    for i, ch in enumerate(d):
        if ch in '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0:
            if d[i:i + 2] == '()' and d[:i].endswith('operator'):
                continue
            if d.startswith('(anonymous', i):
                continue
            return d[:i]
    return d


def short(d, n=90):
    d = strip_args(d)
    d = re.sub(r'std::__n4861::', '', d)
    # collapse template arguments
    out = ''
    depth = 0
    for ch in d:
        if ch == '<':
            depth += 1
            if depth == 1:
                out += '<>'
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out += ch
    return out[-n:]


def kindname(n):
    return re.sub(r'\.\d+$', '', n)
