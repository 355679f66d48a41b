"""Parser for the subset of textual LLVM-16 IR that clang emits for librf."""
import re, subprocess

TOK = re.compile(r'''
  (?P<ws>[ \t\n]+) | (?P<cmt>;[^\n]*) |
  (?P<cstr>c"(?:[^"\\]|\\.)*") | (?P<str>"(?:[^"\\]|\\.)*") |
  (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<meta>![-a-zA-Z$._0-9]*) | (?P<attr>\#[0-9]+) | (?P<com>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?|0x[0-9A-Fa-fKLMH]+) |
  (?P<word>[a-zA-Z_.][-a-zA-Z$._0-9]*) | (?P<punc>\.\.\.|[()\[\]{}<>,=*|:])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if not r:
            raise ParseError('bad token at %r' % s[pos:pos + 60])
        k = r.lastgroup
        pos = r.end()
        if k == 'ws' or k == 'cmt':
            continue
        out.append((k, r.group()))
    return out


def unq(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


I1 = ('i', 1)
PTR = ('ptr',)
VOID = ('void',)
PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg',
               'returned', 'inreg', 'nofree', 'swiftself', 'allocptr', 'allocalign', 'readnone', 'nest', 'dso_local',
               'noreturn', 'nounwind', 'builtin', 'nobuiltin', 'cold', 'local_unnamed_addr', 'unnamed_addr', 'noinline',
               'fastcc', 'ccc', 'coldcc', 'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
               'contract', 'afn', 'reassoc', 'swifterror', 'swiftasync'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'memory',
                   'addrspace', 'preallocated', 'inalloca', 'elementtype', 'allocsize', 'alignstack', 'allockind'}


class P:
    """token-stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def pk(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def nxt(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise ParseError('expected %r got %r in %r' % (v, self.pk(), [x[1] for x in self.t[max(0, self.i - 10):self.i + 8]]))

    def done(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        k, v = self.nxt()
        if v == 'ptr':
            if self.pk() == 'addrspace':
                self.nxt(); self.need('('); self.nxt(); self.need(')')
            ty = PTR
        elif v == 'void':
            ty = VOID
        elif k == 'word' and re.fullmatch(r'i\d+', v):
            ty = ('i', int(v[1:]))
        elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            ty = ('fp', v)
        elif v in ('label', 'token', 'metadata', 'opaque'):
            ty = (v,)
        elif k == 'loc':
            ty = ('named', unq(v))
        elif v == '[':
            n = int(self.nxt()[1]); self.need('x')
            e = self.type(); self.need(']')
            ty = ('arr', n, e)
        elif v == '{':
            ty = ('struct', False, tuple(self._fields('}')))
        elif v == '<':
            if self.eat('{'):
                f = self._fields('}'); self.need('>')
                ty = ('struct', True, tuple(f))
            else:
                n = int(self.nxt()[1]); self.need('x')
                e = self.type(); self.need('>')
                ty = ('vec', n, e)
        else:
            raise ParseError('type? %r' % ([x[1] for x in self.t[max(0, self.i - 8):self.i + 6]],))
        while self.pk() == '*':
            self.nxt(); ty = PTR
        # function type
        if self.pk() == '(' and self._fnty_ahead:
            save = self.i
            try:
                self.nxt()
                ps = []
                va = False
                while not self.eat(')'):
                    if self.eat('...'):
                        va = True
                    else:
                        ps.append(self.type())
                    self.eat(',')
                ty = ('fn', ty, tuple(ps), va)
            except ParseError:
                self.i = save
        return ty

    _fnty_ahead = False

    def _fields(self, end):
        f = []
        while not self.eat(end):
            f.append(self.type())
            self.eat(',')
        return f

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.i += 1
                if self.pk() == '(':
                    self.skip_paren()
                elif v == 'align':
                    self.i += 1
            elif k == 'str':
                self.i += 1
                if self.eat('='):
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            else:
                return

    def skip_paren(self):
        self.need('(')
        d = 1
        while d:
            v = self.nxt()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    # ---- values. Returned: ('l',name) ('c',value) ('g',name) ('agg',[...]) ('undef',) ('zero',ty) ('ce',...)
    def value(self, ty):
        k, v = self.nxt()
        if k == 'loc':
            return ('l', unq(v))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            if ty[0] == 'i':
                return ('c', int(v) & ((1 << ty[1]) - 1))
            return ('fp', v)
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null' or v == 'none':
            return ('c', 0)
        if v in ('undef', 'poison'):
            return ('undef', ty)
        if v == 'zeroinitializer':
            return ('zero', ty)
        if k == 'cstr':
            b = v[2:-1]
            out = []
            i = 0
            while i < len(b):
                if b[i:i + 2] == '\\\\':
                    out.append(92); i += 2
                elif b[i] == '\\':
                    out.append(int(b[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(b[i]) & 255); i += 1
            return ('agg', [('c', x) for x in out])
        if v in ('{', '['):
            end = '}' if v == '{' else ']'
            els = []
            while not self.eat(end):
                t = self.type()
                els.append(self.value(t))
                self.eat(',')
            return ('agg', els)
        if v == '<':
            if self.eat('{'):
                els = []
                while not self.eat('}'):
                    t = self.type(); els.append(self.value(t)); self.eat(',')
                self.need('>')
                return ('agg', els)
            els = []
            while not self.eat('>'):
                t = self.type(); els.append(self.value(t)); self.eat(',')
            return ('agg', els)
        if v == 'getelementptr':
            self.eat('inbounds'); self.need('(')
            if self.eat('inrange'):
                pass
            sty = self.type(); self.need(',')
            ops = []
            while True:
                self.eat('inrange')
                t = self.type(); ops.append((t, self.value(t)))
                if not self.eat(','):
                    break
            self.need(')')
            return ('gep', sty, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.need('(')
            t = self.type(); a = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('cast', v, t, a, t2)
        if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            self.attrs(); self.need('(')
            t = self.type(); a = self.value(t); self.need(',')
            t2 = self.type(); b = self.value(t2); self.need(')')
            return ('bin', v, t, a, b)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return self.value(ty)
        raise ParseError('value? %r %r' % (v, [x[1] for x in self.t[max(0, self.i - 10):self.i + 6]]))

    def tyval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Func:
    __slots__ = ('name', 'dname', 'ret', 'params', 'va', 'body', 'blocks', 'entry', 'lines', 'loops', 'ghost', 'backedges', 'sret')

    def __init__(self):
        self.blocks = None
        self.lines = None
        self.loops = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self._szc = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        P._fnty_ahead = False
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ';':
                i += 1
                continue
            if ln[0] == '%':
                p = P(tokenize(ln), self)
                nm = unq(p.nxt()[1]); p.need('='); p.need('type')
                self.types[nm] = p.type()
            elif ln[0] == '@':
                self.parse_global(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_define(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                self.parse_define(ln, None)
            i += 1
        for nm, a in self.aliases.items():
            if a[0] == 'g' and a[1] in self.funcs:
                self.funcs[nm] = self.funcs[a[1]]
        names = sorted(set(list(self.funcs)))
        r = subprocess.run(['/usr/lib/llvm-16/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
        dn = r.stdout.split('\n')
        for a, b in zip(names, dn):
            f = self.funcs[a]
            f.dname = b
            f.ghost = a.startswith('vc') or b.startswith('vc::') or ' vc::' in b.split('(')[0] or '_GHOST' in a

    LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
            'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
            'dllimport', 'dllexport', 'thread_local', 'unnamed_addr', 'local_unnamed_addr', 'externally_initialized'}

    def parse_global(self, ln):
        p = P(tokenize(ln), self)
        nm = unq(p.nxt()[1]); p.need('=')
        ext = False
        while True:
            k, v = p.peek()
            if v in self.LINK:
                if v in ('external', 'extern_weak'):
                    ext = True
                p.nxt()
                if v == 'thread_local' and p.pk() == '(':
                    p.skip_paren()
            elif v == 'addrspace':
                p.nxt(); p.skip_paren()
            else:
                break
        k, v = p.nxt()
        if v in ('alias', 'ifunc'):
            t = p.type()
            if p.pk() == '(':
                p.skip_paren()
            p.need(',')
            t2 = p.type(); a = p.value(t2)
            self.aliases[nm] = a
            return
        const = v == 'constant'
        ty = p.type()
        init = None
        if not ext and p.pk() not in (None, ','):
            init = p.value(ty)
        self.globals[nm] = (ty, init, const)

    def parse_define(self, ln, body):
        p = P(tokenize(ln.rstrip('{ ')), self)
        p.nxt()
        while True:
            k, v = p.peek()
            if v in self.LINK or (k == 'word' and v in PARAM_ATTRS):
                p.nxt()
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                p.nxt()
                if p.pk() == '(':
                    p.skip_paren()
                elif v == 'align':
                    p.nxt()
            else:
                break
        f = Func()
        f.ret = p.type()
        f.name = unq(p.nxt()[1])
        p.need('(')
        f.params = []
        f.va = False
        cnt = 0
        while not p.eat(')'):
            if p.eat('...'):
                f.va = True
            else:
                t = p.type(); p.attrs()
                if p.peek()[0] == 'loc':
                    nm = unq(p.nxt()[1])
                    if nm.isdigit():
                        cnt = int(nm) + 1
                else:
                    nm = str(cnt); cnt += 1
                f.params.append((t, nm))
            p.eat(',')
        f.entry = str(cnt)
        f.lines = body
        self.funcs[f.name] = f

    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[ty[1]]
        if k == 'arr':
            return self.align(ty[2])
        if k == 'struct':
            if ty[1] or not ty[2]:
                return 1
            return max(self.align(x) for x in ty[2])
        if k == 'vec':
            return self.size(ty)
        raise ParseError('align %r' % (ty,))

    def size(self, ty):
        s = self._szc.get(ty)
        if s is None:
            s = self._size(ty)
            self._szc[ty] = s
        return s

    def _size(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return a
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[ty[1]]
        if k == 'arr':
            return ty[1] * self.size(ty[2])
        if k == 'vec':
            return ty[1] * self.size(ty[2])
        if k == 'struct':
            return self.struct_layout(ty)[1]
        if k == 'fn' or k == 'void' or k == 'opaque':
            return 0
        raise ParseError('size %r' % (ty,))

    def struct_layout(self, ty):
        c = self._szc.get(('lay', ty))
        if c:
            return c
        off = 0
        offs = []
        for f in ty[2]:
            if not ty[1]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        if not ty[1] and ty[2]:
            a = self.align(ty)
            off = (off + a - 1) // a * a
        self._szc[('lay', ty)] = (offs, off)
        return offs, off

    # ---- function bodies
    def body(self, f):
        if f.blocks is not None:
            return f.blocks
        f.blocks = {}
        cur = f.entry
        if f.lines and re.match(r'^[-a-zA-Z$._0-9"]+:', f.lines[0]):
            cur = None
        ins = []
        if cur is not None:
            f.blocks[cur] = ins
        # join multi-line instructions
        L = f.lines
        i = 0
        first = cur
        while i < len(L):
            ln = L[i]
            i += 1
            if not ln or ln.lstrip().startswith(';'):
                continue
            if ln[0] not in ' \t}':
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                lab = m.group(1)
                if lab.startswith('"'):
                    lab = lab[1:-1]
                ins = []
                f.blocks[lab] = ins
                if first is None:
                    first = lab
                continue
            s = ln
            if re.match(r'^\s+(%\S+ = )?switch ', ln) or re.match(r'^\s+switch', ln):
                while ']' not in s.split('[', 1)[-1]:
                    s += ' ' + L[i]; i += 1
            elif 'invoke ' in ln[:60] or ' invoke ' in ln:
                while 'unwind label' not in s:
                    s += ' ' + L[i]; i += 1
            elif 'landingpad' in ln:
                while i < len(L) and re.match(r'^\s+(cleanup|catch |filter )', L[i]):
                    s += ' ' + L[i]; i += 1
            ins.append(self.instr(s))
        f.entry = first
        self.find_loops(f)
        return f.blocks

    def find_loops(self, f):
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            op = t[0]
            if op == 'br':
                succ[b] = [t[1]]
            elif op == 'cbr':
                succ[b] = [t[2], t[3]]
            elif op == 'switch':
                succ[b] = [t[3]] + [x[1] for x in t[4]]
            elif op == 'invoke':
                succ[b] = [t[5], t[6]]
            else:
                succ[b] = []
        back = set()
        color = {}
        st = [(f.entry, iter(succ[f.entry]))]
        color[f.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                elif c == 1:
                    back.add((b, s))
            else:
                color[b] = 2
                st.pop()
        f.backedges = back
        # natural loop bodies per header
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred.get(x, []))
        f.loops = loops

    def instr(self, s):
        p = P(tokenize(s), self)
        dest = None
        if p.peek()[0] == 'loc' and p.t[1][1] == '=':
            dest = unq(p.nxt()[1]); p.nxt()
        k, op = p.nxt()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.nxt()
        if op == 'load':
            atomic = p.eat('atomic')
            p.eat('volatile')
            ty = p.type(); p.need(',')
            pt, pv = p.tyval()
            order = None
            if atomic:
                while not p.done():
                    v = p.nxt()[1]
                    if v in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered'):
                        order = v
                        break
            return ('load', dest, ty, pv, order)
        if op == 'store':
            atomic = p.eat('atomic')
            p.eat('volatile')
            ty, v = p.tyval(); p.need(',')
            pt, pv = p.tyval()
            order = None
            if atomic:
                while not p.done():
                    x = p.nxt()[1]
                    if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered'):
                        order = x
                        break
            return ('store', ty, v, pv, order)
        if op == 'alloca':
            p.eat('inalloca')
            ty = p.type()
            cnt = None
            if p.eat(',') and p.pk() != 'align':
                cnt = p.tyval()
            return ('alloca', dest, ty, cnt)
        if op == 'getelementptr':
            p.eat('inbounds')
            sty = p.type(); p.need(',')
            pt, pv = p.tyval()
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(p.tyval())
            return ('gep', dest, sty, pv, idx)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.attrs()
            ty = p.type(); a = p.value(ty); p.need(','); b = p.value(ty)
            return ('bin', dest, op, ty, a, b)
        if op in ('icmp', 'fcmp'):
            p.attrs()
            pred = p.nxt()[1]
            p.attrs()
            ty = p.type(); a = p.value(ty); p.need(','); b = p.value(ty)
            return (op, dest, pred, ty, a, b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'sitofp', 'uitofp',
                  'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            ty = p.type(); v = p.value(ty); p.need('to'); t2 = p.type()
            return ('cast', dest, op, ty, v, t2)
        if op == 'phi':
            p.attrs()
            ty = p.type()
            inc = []
            while True:
                p.need('[')
                v = p.value(ty); p.need(',')
                b = unq(p.nxt()[1]); p.need(']')
                inc.append((v, b))
                if not (p.pk() == ',' and p.i + 1 < len(p.t) and p.t[p.i + 1][1] == '['):
                    break
                p.nxt()
            return ('phi', dest, ty, dict((b, v) for v, b in inc))
        if op == 'select':
            p.attrs()
            ct, c = p.tyval(); p.need(',')
            ty, a = p.tyval(); p.need(',')
            _, b = p.tyval()
            return ('select', dest, c, ty, a, b)
        if op == 'freeze':
            ty, a = p.tyval()
            return ('copy', dest, ty, a)
        if op == 'br':
            if p.eat('label'):
                return ('br', unq(p.nxt()[1]))
            t = p.type(); c = p.value(t); p.need(',')
            p.need('label'); a = unq(p.nxt()[1]); p.need(','); p.need('label'); b = unq(p.nxt()[1])
            return ('cbr', c, a, b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.need(',')
            p.need('label'); d = unq(p.nxt()[1]); p.need('[')
            cs = []
            while not p.eat(']'):
                t2 = p.type(); cv = p.value(t2); p.need(','); p.need('label'); cs.append((cv[1], unq(p.nxt()[1])))
            return ('switch', t, v, d, cs)
        if op == 'ret':
            if p.eat('void'):
                return ('ret', None, None)
            t = p.type(); v = p.value(t)
            return ('ret', t, v)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'resume':
            t = p.type(); v = p.value(t)
            return ('resume', v)
        if op in ('call', 'invoke'):
            p.attrs()
            rt = p.type(); 
            if p.pk() == '(':
                # function type
                P._fnty_ahead = False
                p.need('(')
                while not p.eat(')'):
                    if not p.eat('...'):
                        p.type()
                    p.eat(',')
            p.attrs()
            if p.pk() == 'asm':
                return ('asm', dest, s)
            callee = p.value(PTR)
            p.need('(')
            args = []
            while not p.eat(')'):
                t = p.type()
                if t == ('metadata',):
                    # skip
                    d = 0
                    while not (d == 0 and p.pk() in (',', ')')):
                        v = p.nxt()[1]
                        if v in '([{':
                            d += 1
                        elif v in ')]}':
                            d -= 1
                    args.append((t, ('undef', t)))
                else:
                    p.attrs()
                    args.append((t, p.value(t)))
                p.eat(',')
            if op == 'call':
                return ('call', dest, rt, callee, args, None, None)
            while p.pk() != 'to':
                p.nxt()
            p.need('to'); p.need('label'); a = unq(p.nxt()[1])
            p.need('unwind'); p.need('label'); b = unq(p.nxt()[1])
            return ('invoke', dest, rt, callee, args, a, b)
        if op == 'landingpad':
            t = p.type()
            cl = []
            cleanup = False
            while not p.done():
                v = p.nxt()[1]
                if v == 'cleanup':
                    cleanup = True
                elif v == 'catch':
                    tt = p.type(); cl.append(('catch', p.value(tt)))
                elif v == 'filter':
                    tt = p.type(); cl.append(('filter', p.value(tt)))
            return ('landingpad', dest, cleanup, cl)
        if op == 'extractvalue':
            t = p.type(); v = p.value(t)
            idx = []
            while p.eat(','):
                idx.append(int(p.nxt()[1]))
            return ('extractvalue', dest, t, v, idx)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.need(',')
            t2 = p.type(); v2 = p.value(t2)
            idx = []
            while p.eat(','):
                idx.append(int(p.nxt()[1]))
            return ('insertvalue', dest, t, v, t2, v2, idx)
        if op == 'cmpxchg':
            p.eat('weak') ; p.eat('volatile')
            weak = ' weak ' in s
            pt, pv = p.tyval(); p.need(',')
            t, cmp = p.tyval(); p.need(',')
            _, new = p.tyval()
            o1 = p.nxt()[1]
            if o1 == 'syncscope':
                p.skip_paren(); o1 = p.nxt()[1]
            o2 = p.nxt()[1]
            return ('cmpxchg', dest, t, pv, cmp, new, o1, o2, weak)
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.nxt()[1]
            pt, pv = p.tyval(); p.need(',')
            t, v = p.tyval()
            return ('atomicrmw', dest, o, t, pv, v, p.nxt()[1])
        if op == 'fence':
            return ('nop', p.nxt()[1])
        if op in ('fneg',):
            return ('fneg', dest)
        if op == 'va_arg':
            raise ParseError('va_arg')
        raise ParseError('instr %r' % s)
