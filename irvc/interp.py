"""Deductive VC generator over LLVM IR: path-wise strongest-postcondition execution, obligations to SMT.

Every statement of the verified text is translated; a construct outside the supported subset raises
Unsupported (the check then ends in error, never in 'proved').
"""
import sys, struct, time
import z3
from irparse import *

UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """path ends normally (assume false, trap accepted, spec end)"""


class CxxExc(Exception):
    def __init__(self, ptr):
        self.ptr = ptr


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj and self.obj.name, self.off)


NULL = Ptr(None, 0)


class Mixed:
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = cells


class Obj:
    __slots__ = ('id', 'size', 'align', 'cells', 'alive', 'kind', 'name', 'base', 'const')

    def __init__(self, id, size, align, kind, name):
        self.id = id
        self.size = size
        self.align = align
        self.kind = kind
        self.name = name
        self.alive = True
        self.base = None
        self.const = False
        self.cells = [None] * size


_simp = z3.simplify
BVV = z3.BitVecVal


def bv(x, n):
    return BVV(x, n) if isinstance(x, int) else x


def is_int(x):
    return isinstance(x, int)


def tobool(x):
    """i1 value → python bool or z3 Bool"""
    if isinstance(x, int):
        return bool(x & 1)
    return x


def znot(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def norm(e):
    """constant-fold a z3 bv expr to int if possible"""
    e = _simp(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def normb(e):
    if isinstance(e, bool):
        return e
    e = _simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


FPS = {'float': (32, z3.Float32), 'double': (64, z3.Float64)}


class Stats:
    def __init__(self):
        self.oblig = 0          # obligations generated
        self.by_simpl = 0
        self.by_solver = 0
        self.failed = 0
        self.unknown = 0
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.kinds = {}
        self.covers = {}
        self.funcs = set()
        self.externs = set()
        self.stubs = {}
        self.cvc5 = 0
        self.second = 0
        self.second_disagree = 0


class Failure:
    def __init__(self, label, kind, stack, nondets, ufs, smt):
        self.label = label
        self.kind = kind
        self.stack = stack
        self.nondets = nondets
        self.ufs = ufs
        self.smt = smt


class Verifier:
    """verify one spec function of a module over all paths"""

    def __init__(self, mod, fname, opts=None):
        self.mod = mod
        self.fname = fname
        self.opts = opts or {}
        self.stats = Stats()
        self.failures = {}
        self.max_paths = self.opts.get('max_paths', 40000)
        self.deadline = time.time() + self.opts.get('time_limit', 600)
        self.timeout_ms = self.opts.get('timeout_ms', 30000)
        self.second = self.opts.get('second', False)
        self.gcache = {}
        self.canon = {}
        self.expected = self.opts.get('expected')

    def run(self):
        work = [[]]
        while work:
            if time.time() > self.deadline:
                raise Unsupported('time limit in %s after %d paths' % (self.fname, self.stats.paths))
            prefix = work.pop()
            self.stats.paths += 1
            if self.stats.paths > self.max_paths:
                raise Unsupported('path limit in %s' % self.fname)
            p = Path(self, prefix)
            p.run()
            work.extend(p.alts)
        return self.failures


class Path:
    def __init__(self, V, prefix):
        self.V = V
        self.mod = V.mod
        self.prefix = prefix
        self.pos = 0
        self.dec = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', V.timeout_ms)
        self.pc = []
        self.objs = []
        self.mat = []      # materialised objects
        self.globals = {}
        self.fnobjs = {}
        self.nondets = []
        self.ufs = []
        self.ghost = {}
        self.ghost_n = {}
        self.spec = 0
        self.stack = []
        self.excs = {}     # exception obj id → (tinfo name, dtor, refcount)
        self.caught = []
        self.trap_ok = 0
        self.steps = 0
        self.wlog = None
        self.wstart = 0
        self.wallow = []
        self.snaps = {}
        self.thread_typeids = {}
        self.depth = 0
        self.model = None

    # ------------------------------------------------------------------ driver
    def run(self):
        try:
            f = self.mod.funcs[self.V.fname]
            self.call_func(f, [])
            self.final_checks()
        except PathEnd:
            pass
        except CxxExc as e:
            self.fail_now('exception escapes the specification function: ' + self.exc_name(e), 'exception')

    def final_checks(self):
        pass

    # ------------------------------------------------------------------ logic
    def fresh(self, tag, bits):
        v = z3.BitVec('n%d_%s' % (len(self.nondets), tag), bits)
        self.nondets.append((tag, bits, v))
        return v

    def add(self, c):
        if c is True:
            return
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def check(self, c):
        """satisfiability of pc ∧ c: 'sat'|'unsat'|'unknown'"""
        # cheap model reuse
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(c, model_completion=True)):
                    return 'sat'
            except z3.Z3Exception:
                pass
        t = time.time()
        self.V.stats.queries += 1
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        if r == z3.sat:
            self.model = self.solver.model()
        self.solver.pop()
        self.V.stats.solver_time += time.time() - t
        return str(r)

    def decide(self, c):
        c = normb(c)
        if isinstance(c, bool):
            return c
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.dec.append(d)
            self.add(c if d else z3.Not(c))
            return d
        nc = z3.Not(c)
        t = self.check(c)
        if t == 'unsat':
            d = False
        else:
            d = True
            if self.check(nc) == 'unsat':
                pass
            else:
                self.alts.append(self.dec + [False])
        self.dec.append(d)
        self.prefix = self.dec[:]
        self.pos = len(self.prefix)
        self.add(c if d else nc)
        return d

    def replaying(self):
        return self.pos < len(self.prefix)

    def assume(self, c):
        c = normb(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.add(c)
        if not self.replaying():
            if self.check(z3.BoolVal(True)) == 'unsat':
                raise PathEnd()

    def oblig(self, c, label, kind):
        st = self.V.stats
        if self.replaying():
            c = normb(c)
            if c is False:
                raise PathEnd()
            if c is not True and (label, self.where()) in self.V.failures:
                self.add(c)
            return
        st.oblig += 1
        st.kinds[kind] = st.kinds.get(kind, 0) + 1
        c = normb(c)
        if c is True:
            st.by_simpl += 1
            return
        if c is False:
            # current path condition must be reachable
            r = self.check(z3.BoolVal(True))
            if r == 'unsat':
                raise PathEnd()
            self.record(label, kind, z3.BoolVal(True))
            raise PathEnd()
        nc = z3.Not(c)
        r = self.check(nc)
        if r == 'unknown':
            r = self.second_backend(nc)
            if r == 'unsat':
                st.cvc5 += 1
        elif r == 'unsat' and self.V.second:
            r2 = self.second_backend(nc)
            st.second += (r2 == 'unsat')
            if r2 == 'sat':
                st.second_disagree += 1
                raise Unsupported('back ends disagree on ' + label)
        if r == 'unsat':
            st.by_solver += 1
            return
        if r == 'unknown':
            st.unknown += 1
            raise Unsupported('solver gave no answer for obligation %s (%s)' % (label, kind))
        self.record(label, kind, nc)
        self.add(c)
        if self.check(z3.BoolVal(True)) == 'unsat':
            raise PathEnd()

    def second_backend(self, nc):
        t = time.time()
        try:
            import cvc5check
            s = z3.Solver()
            for c in self.pc:
                s.add(c)
            s.add(nc)
            return cvc5check.check(s.to_smt2(), self.V.timeout_ms)
        finally:
            self.V.stats.solver_time += time.time() - t

    def ub(self, c, label):
        if self.spec:
            self.assume(c)
        else:
            self.oblig(c, label, 'safety')

    def ub_fail(self, label):
        self.ub(False, label)
        raise PathEnd()

    def fail_now(self, label, kind):
        try:
            self.oblig(False, label, kind)
        except PathEnd:
            pass

    def where(self):
        return tuple(self.stack[-6:])

    def record(self, label, kind, extra):
        st = self.V.stats
        st.failed += 1
        key = (label, self.where())
        if key in self.V.failures:
            return
        self.solver.push()
        self.solver.add(extra)
        self.solver.check()
        m = self.solver.model()
        nd = [(t, b, m.eval(v, model_completion=True).as_long()) for t, b, v in self.nondets]
        uf = []
        for i, args, r in self.ufs:
            uf.append((i, [m.eval(bv(a, 64), model_completion=True).as_long() for a in args],
                       m.eval(bv(r, 64), model_completion=True).as_long()))
        smt = None
        try:
            smt = self.solver.to_smt2()
            if len(smt) > 200000:
                smt = smt[:200000]
        except z3.Z3Exception:
            pass
        self.solver.pop()
        self.V.failures[key] = Failure(label, kind, list(self.stack), nd, uf, smt)

    # ------------------------------------------------------------------ memory
    def new_obj(self, size, align, kind, name):
        o = Obj(len(self.objs), size, align, kind, name)
        self.objs.append(o)
        return o

    def base(self, o):
        if o.base is None:
            b = z3.BitVec('base_%d_%s' % (o.id, o.name[:24]), 64)
            o.base = b
            hi = 0x7ffffffff000 - max(o.size, 1)
            self.add(z3.And(z3.UGE(b, 0x10000), z3.ULE(b, hi)))
            if o.align > 1:
                self.add(b & (o.align - 1) == 0)
            s = max(o.size, 1)
            for p in self.mat:
                self.add(z3.Or(z3.ULE(b + s, p.base), z3.ULE(p.base + max(p.size, 1), b)))
            self.mat.append(o)
        return o.base

    def addr(self, p):
        if p.obj is None:
            return p.off
        b = self.base(p.obj)
        if is_int(p.off):
            return b if p.off == 0 else b + BVV(p.off, 64)
        return b + p.off

    def global_obj(self, name):
        o = self.globals.get(name)
        if o is not None:
            return o
        if name in self.mod.funcs or name in self.mod.decls:
            o = self.new_obj(1, 16, 'fn', name)
            self.globals[name] = o
            return o
        d = self.mod.globals.get(name)
        if d is None:
            raise Unsupported('global ' + name)
        info = self.V.gcache.get(name)
        if info is None:
            p = P(tokenize(d), self.mod)
            const = False
            ext = False
            while True:
                k, v = p.peek()
                if v in ('constant', 'global'):
                    const = v == 'constant'
                    p.next()
                    break
                if v in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if v == 'alias':
                    ty = p.type()
                    p.expect(',')
                    p.type()
                    info = ('alias', p.value(PTR))
                    break
                if v in ('addrspace', 'thread_local') and p.pv() == '(':
                    p.skip_paren()
            if info is None:
                ty = p.type()
                init = None
                if not ext:
                    init = p.value(ty)
                info = (const, ty, init)
            self.V.gcache[name] = info
        if info[0] == 'alias':
            q = self.const(info[1])
            self.globals[name] = q.obj
            return q.obj
        const, ty, init = info
        try:
            size, align = self.mod.size_align(ty)
        except ParseError:
            size, align = 1, 1
        o = self.new_obj(size, align, 'global', name)
        self.globals[name] = o
        if init is not None:
            o.cells = self.cells_of(ty, self.const(init, ty))
            if len(o.cells) < size:
                o.cells += [None] * (size - len(o.cells))
        o.const = const
        return o

    def const(self, c, ty=None):
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'null':
            return NULL
        if k == 'g':
            n = c[1]
            o = self.globals.get(n)
            if o is None:
                o = self.global_obj(n)
            return Ptr(o, 0)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg':
            return [self.const(v, t) for t, v in c[1]]
        if k == 'ce':
            if c[1] == 'gep':
                return self.gep(c[2], self.const(c[3]), [(t, self.const(v, t)) for t, v in c[4]], False)
            if c[1] == 'cast':
                return self.cast(c[2], c[3], self.const(c[4], c[3]), c[5])
            if c[1] == 'bin':
                return self.binop(c[2], c[3], self.const(c[4], c[3]), self.const(c[5], c[3]), ())
            if c[1] == 'icmp':
                return self.icmp(c[2], c[3], self.const(c[4], c[3]), self.const(c[5], c[3]))
        raise Unsupported('const %r' % (c,))

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'struct':
            return [self.zero(f) for f in t[2]]
        if t[0] in ('array', 'vec'):
            return [self.zero(t[2])] * t[1]
        return 0

    # value → list of byte cells
    def cells_of(self, ty, v):
        k = ty[0]
        if k == 'named':
            ty = self.mod.resolve(ty)
            k = ty[0]
        if k == 'int':
            n = (ty[1] + 7) // 8
            if is_int(v):
                return list(v.to_bytes(n, 'little'))
            if v is UNDEF:
                return [None] * n
            if isinstance(v, Mixed):
                return list(v.cells)
            if ty[1] == 1:
                v = z3.If(v, BVV(1, 8), BVV(0, 8))
            elif ty[1] % 8:
                v = z3.ZeroExt(n * 8 - ty[1], v)
            return [(v, i, n) for i in range(n)]
        if k == 'ptr':
            if v is UNDEF:
                return [None] * 8
            if isinstance(v, Mixed):
                return list(v.cells)
            if v.obj is None:
                if is_int(v.off):
                    return list((v.off & (2**64 - 1)).to_bytes(8, 'little'))
                v = v.off
                return [(v, i, 8) for i in range(8)]
            return [(v, i, 8) for i in range(8)]
        if k in ('float', 'double', 'x86_fp80', 'half'):
            n = {'float': 4, 'double': 8, 'x86_fp80': 10, 'half': 2}[k]
            return self.cells_of(('int', 8 * n), v)
        if k in ('array', 'vec'):
            es, _ = self.mod.size_align(ty[2])
            if v is UNDEF:
                return [None] * (es * ty[1])
            if isinstance(v, Mixed):
                return list(v.cells)
            out = []
            for x in v:
                c = self.cells_of(ty[2], x)
                out += c + [None] * (es - len(c))
            return out
        if k == 'struct':
            size, _ = self.mod.size_align(ty)
            out = [None] * size
            if v is UNDEF:
                return out
            for i, f in enumerate(ty[2]):
                off, _ = self.mod.field_offset(ty, i)
                c = self.cells_of(f, v[i])
                out[off:off + len(c)] = c
            return out
        raise Unsupported('store of type %r' % (ty,))

    def cell_bv(self, c):
        if is_int(c):
            return BVV(c, 8)
        v, i, n = c
        if isinstance(v, Ptr):
            v = self.addr(v)
            if is_int(v):
                return BVV((v >> (8 * i)) & 255, 8)
        if n == 1:
            return v
        return z3.Extract(8 * i + 7, 8 * i, v)

    def from_cells(self, cells):
        """list of cells → int | BV | UNDEF | Mixed"""
        n = len(cells)
        allint = True
        for c in cells:
            if c.__class__ is not int:
                allint = False
                break
        if allint:
            return int.from_bytes(bytes(cells), 'little')
        nu = sum(1 for c in cells if c is None)
        if nu == n:
            return UNDEF
        if nu:
            return Mixed(list(cells))
        c0 = cells[0]
        if c0.__class__ is tuple and c0[1] == 0 and c0[2] == n:
            v = c0[0]
            for i in range(1, n):
                c = cells[i]
                if c.__class__ is not tuple or c[0] is not v or c[1] != i:
                    break
            else:
                if isinstance(v, Ptr):
                    return self.addr(v)
                return v
        # general concat, merging runs
        parts = []
        i = 0
        while i < n:
            c = cells[i]
            if is_int(c):
                j = i
                x = []
                while j < n and is_int(cells[j]):
                    x.append(cells[j])
                    j += 1
                parts.append(BVV(int.from_bytes(bytes(x), 'little'), 8 * len(x)))
            else:
                v, s, m = c
                j = i + 1
                while j < n and cells[j].__class__ is tuple and cells[j][0] is v and cells[j][1] == s + (j - i):
                    j += 1
                val = self.addr(v) if isinstance(v, Ptr) else v
                if s == 0 and j - i == m:
                    parts.append(bv(val, 8 * m))
                else:
                    parts.append(z3.Extract(8 * (s + j - i) - 1, 8 * s, bv(val, 8 * m)))
            i = j
        parts.reverse()
        e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
        return norm(e)

    def val_from_cells(self, ty, cells):
        k = ty[0]
        if k == 'named':
            ty = self.mod.resolve(ty)
            k = ty[0]
        if k == 'int':
            v = self.from_cells(cells)
            w = ty[1]
            if w % 8 and not (v is UNDEF or isinstance(v, Mixed)):
                if is_int(v):
                    return v & ((1 << w) - 1)
                if w == 1:
                    return normb(z3.Extract(0, 0, v) == 1)
                return z3.Extract(w - 1, 0, v)
            return v
        if k == 'ptr':
            c0 = cells[0]
            if c0.__class__ is tuple and isinstance(c0[0], Ptr) and c0[1] == 0:
                for i in range(1, 8):
                    c = cells[i]
                    if c.__class__ is not tuple or c[0] is not c0[0] or c[1] != i:
                        break
                else:
                    return c0[0]
            v = self.from_cells(cells)
            if v is UNDEF:
                return v
            if isinstance(v, Mixed):
                return UNDEF
            return self.int2ptr(v)
        if k in ('float', 'double', 'x86_fp80', 'half'):
            return self.from_cells(cells)
        if k in ('array', 'vec'):
            es, _ = self.mod.size_align(ty[2])
            return [self.val_from_cells(ty[2], cells[i * es:(i + 1) * es]) for i in range(ty[1])]
        if k == 'struct':
            out = []
            for i, f in enumerate(ty[2]):
                off, _ = self.mod.field_offset(ty, i)
                out.append(self.val_from_cells(f, cells[off:off + self.store_size(f)]))
            return out
        raise Unsupported('load of type %r' % (ty,))

    def store_size(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'int':
            return (ty[1] + 7) // 8
        if ty[0] == 'x86_fp80':
            return 10
        return self.mod.size_align(ty)[0]

    def int2ptr(self, v):
        if is_int(v):
            return Ptr(None, v)
        # syntactic: base_k or base_k + c
        s = _simp(v)
        if z3.is_bv_value(s):
            return Ptr(None, s.as_long())
        cand = s
        off = 0
        if z3.is_app_of(s, z3.Z3_OP_BADD) and s.num_args() == 2 and z3.is_bv_value(s.arg(0)):
            off = s.arg(0).as_signed_long()
            cand = s.arg(1)
        if z3.is_const(cand):
            for o in self.mat:
                if o.base.eq(cand):
                    return Ptr(o, off)
        return Ptr(None, v)

    def resolve(self, p, n, what):
        """pointer → (obj, concrete offset) with all access checks"""
        if p is UNDEF:
            self.ub_fail(what + ' through an indeterminate pointer')
        if p.obj is None:
            p = self.find_obj(p, what)
        o = p.obj
        off = p.off
        if not o.alive:
            self.ub_fail('%s of object after its lifetime (%s)' % (what, o.name))
        if not is_int(off):
            off = norm(off)
        if not is_int(off):
            self.ub(z3.And(z3.ULE(off, o.size - n)) if o.size >= n else False,
                    '%s out of bounds (%s, size %d)' % (what, o.name, o.size))
            off = self.enum(off, o)
        else:
            if off >= 1 << 63:
                off -= 1 << 64
            if off < 0 or off + n > o.size:
                self.ub_fail('%s out of bounds (%s, size %d, offset %d+%d)' % (what, o.name, o.size, off, n))
        return o, off

    def enum(self, e, o=None):
        """fork over the feasible concrete values of e"""
        for _ in range(600):
            # canonical choice must not depend on models, so that re-execution repeats it: try ascending offsets
            for k in range(0, (o.size if o else 256) + 1):
                c = normb(e == k)
                if c is True:
                    return k
                if c is False:
                    continue
                if self.decide(c):
                    return k
            raise Unsupported('cannot enumerate')

    def find_obj(self, p, what):
        off = p.off
        if is_int(off):
            self.ub_fail('%s through %s pointer' % (what, 'null' if off == 0 else 'invalid (0x%x)' % off))
        q = self.int2ptr(off)
        if q.obj is not None:
            return q
        for o in list(self.objs):
            if not o.alive or o.kind == 'fn' or o.base is None:
                continue
            b = self.base(o)
            inside = z3.And(z3.UGE(off, b), z3.ULT(off, b + max(o.size, 1)))
            if self.decide(inside):
                d = norm(off - b)
                return Ptr(o, d)
        self.ub_fail('%s through a pointer to no live object' % what)

    def load(self, ty, p, what='read'):
        n = self.store_size(ty)
        o, off = self.resolve(p, n, what)
        return self.val_from_cells(ty, o.cells[off:off + n])

    def store(self, ty, v, p):
        cells = self.cells_of(ty, v)
        self.store_cells(cells, p)

    def store_cells(self, cells, p, what='write'):
        n = len(cells)
        o, off = self.resolve(p, n, what)
        if o.const and not self.spec:
            self.ub_fail('write to constant object ' + o.name)
        o.cells[off:off + n] = cells
        if self.wlog is not None and o.id < self.wstart:
            self.wlog.append((o, off, n, self.where()))

    # ------------------------------------------------------------------ arithmetic
    def binop(self, op, ty, a, b, fl):
        if ty[0] == 'vec':
            return [self.binop(op, ty[2], x, y, fl) for x, y in zip(a, b)]
        if ty[0] in FPS:
            return self.fbin(op, ty, a, b)
        w = ty[1]
        M = (1 << w) - 1
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Mixed) or isinstance(b, Mixed):
            return self.mixed(op, w, a, b)
        ia = is_int(a)
        ib = is_int(b)
        if w == 1:
            x = tobool(a)
            y = tobool(b)
            if op == 'and':
                r = (x and y) if ia and ib else (y if x is True else False if x is False else x if y is True else False if y is False else z3.And(x, y))
            elif op == 'or':
                r = (x or y) if ia and ib else (True if x is True else y if x is False else True if y is True else x if y is False else z3.Or(x, y))
            elif op in ('xor', 'add', 'sub'):
                if ia and ib:
                    r = x != y
                elif x is True or y is True:
                    r = z3.Not(y if x is True else x)
                elif x is False or y is False:
                    r = y if x is False else x
                else:
                    r = z3.Xor(x, y)
            else:
                raise Unsupported('i1 ' + op)
            return int(r) if isinstance(r, bool) else r
        if ia and ib:
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if op == 'add' or op == 'sub' or op == 'mul':
                r = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
                u = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                if 'nsw' in fl:
                    self.ub(lo <= r <= hi, 'signed integer overflow in ' + op)
                if 'nuw' in fl:
                    self.ub(0 <= u <= M, 'unsigned overflow in ' + op)
                return u & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.ub_fail('division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                if op == 'sdiv':
                    return q & M
                return (sa - q * sb) & M
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.ub_fail('shift amount out of range')
                if op == 'shl':
                    return (a << b) & M
                if op == 'lshr':
                    return a >> b
                return (sa >> b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            raise Unsupported(op)
        x = bv(a, w)
        y = bv(b, w)
        if op == 'add':
            if 'nsw' in fl:
                self.ub(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'signed integer overflow in add')
            if 'nuw' in fl:
                self.ub(z3.BVAddNoOverflow(x, y, False), 'unsigned overflow in add')
            return x + y
        if op == 'sub':
            if 'nsw' in fl:
                self.ub(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), 'signed integer overflow in sub')
            if 'nuw' in fl:
                self.ub(z3.UGE(x, y), 'unsigned overflow in sub')
            return norm(x - y)
        if op == 'mul':
            if 'nsw' in fl:
                self.ub(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), 'signed integer overflow in mul')
            if 'nuw' in fl:
                self.ub(z3.BVMulNoOverflow(x, y, False), 'unsigned overflow in mul')
            return x * y
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.ub(y != 0, 'division by zero')
            if op == 'udiv':
                return z3.UDiv(x, y)
            if op == 'urem':
                return z3.URem(x, y)
            self.ub(z3.Not(z3.And(x == BVV(1 << (w - 1), w), y == BVV(M, w))), 'signed division overflow')
            return x / y if op == 'sdiv' else z3.SRem(x, y)
        if op in ('shl', 'lshr', 'ashr'):
            self.ub(z3.ULT(y, w), 'shift amount out of range')
            return norm(x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y)
        if op == 'and':
            return norm(x & y)
        if op == 'or':
            return norm(x | y)
        if op == 'xor':
            return norm(x ^ y)
        raise Unsupported(op)

    def mixed(self, op, w, a, b):
        def cells(v):
            if isinstance(v, Mixed):
                return v.cells
            return self.cells_of(('int', w), v)
        n = w // 8
        ca = cells(a)
        if op in ('shl', 'lshr') and is_int(b) and b % 8 == 0:
            k = b // 8
            r = ca[k:] + [0] * k if op == 'lshr' else [0] * k + ca[:n - k]
            return self.recell(r)
        cb = cells(b)
        out = []
        for x, y in zip(ca, cb):
            if op == 'and' and (x == 0 or y == 0) and (is_int(x) or is_int(y)):
                out.append(0)
            elif op == 'and' and is_int(y) and y == 255:
                out.append(x)
            elif op == 'and' and is_int(x) and x == 255:
                out.append(y)
            elif op == 'or' and is_int(y) and y == 0:
                out.append(x)
            elif op == 'or' and is_int(x) and x == 0:
                out.append(y)
            elif x is None or y is None:
                out.append(None)
            else:
                u, v = self.cell_bv(x), self.cell_bv(y)
                if op == 'and':
                    r = u & v
                elif op == 'or':
                    r = u | v
                elif op == 'xor':
                    r = u ^ v
                else:
                    return UNDEF
                out.append((r, 0, 1))
        return self.recell(out)

    def recell(self, cells):
        return self.from_cells(cells)

    def fp(self, ty, v):
        w, s = FPS[ty[0]]
        return z3.fpBVToFP(bv(v, w), s())

    def fbin(self, op, ty, a, b):
        if a is UNDEF or b is UNDEF or isinstance(a, Mixed) or isinstance(b, Mixed):
            return UNDEF
        x = self.fp(ty, a)
        y = self.fp(ty, b)
        rm = z3.RNE()
        if op == 'fadd':
            r = z3.fpAdd(rm, x, y)
        elif op == 'fsub':
            r = z3.fpSub(rm, x, y)
        elif op == 'fmul':
            r = z3.fpMul(rm, x, y)
        elif op == 'fdiv':
            r = z3.fpDiv(rm, x, y)
        else:
            raise Unsupported(op)
        return norm(z3.fpToIEEEBV(r))

    def cast(self, op, st, v, dt):
        if st[0] == 'vec' or dt[0] == 'vec':
            if op == 'bitcast':
                return self.val_from_cells(dt, self.cells_of(st, v))
            return [self.cast(op, st[2], x, dt[2]) for x in v]
        if v is UNDEF:
            return UNDEF
        if op == 'ptrtoint':
            a = self.addr(v)
            w = dt[1]
            if w == 64:
                return a
            return self.cast('trunc', I64, a, dt) if w < 64 else self.cast('zext', I64, a, dt)
        if op == 'inttoptr':
            if isinstance(v, Mixed):
                return UNDEF
            if st[1] < 64:
                v = self.cast('zext', st, v, I64)
            return self.int2ptr(v)
        if op == 'bitcast':
            if st == dt:
                return v
            if st[0] == 'ptr' or dt[0] == 'ptr':
                return v
            return v
        if op in ('trunc', 'zext', 'sext'):
            sw, dw = st[1], dt[1]
            if isinstance(v, Mixed):
                if op == 'trunc' and dw % 8 == 0:
                    return self.recell(v.cells[:dw // 8])
                if op == 'trunc':
                    x = self.recell(v.cells[:(dw + 7) // 8])
                    if x is UNDEF or isinstance(x, Mixed):
                        return UNDEF
                    return self.cast('trunc', ('int', (dw + 7) // 8 * 8), x, dt)
                if op == 'zext':
                    return self.recell(v.cells + [0] * (dw // 8 - sw // 8))
                return UNDEF
            if is_int(v):
                if op == 'trunc':
                    return v & ((1 << dw) - 1)
                if op == 'zext':
                    return v
                if v >> (sw - 1):
                    v -= 1 << sw
                return v & ((1 << dw) - 1)
            if sw == 1:
                if op == 'zext':
                    return z3.If(v, BVV(1, dw), BVV(0, dw))
                return z3.If(v, BVV((1 << dw) - 1, dw), BVV(0, dw))
            if op == 'trunc':
                if dw == 1:
                    r = normb(z3.Extract(0, 0, v) == 1)
                    return int(r) if isinstance(r, bool) else r
                return norm(z3.Extract(dw - 1, 0, v))
            if op == 'zext':
                return z3.ZeroExt(dw - sw, v)
            return z3.SignExt(dw - sw, v)
        if op in ('fpext', 'fptrunc'):
            if st[0] in FPS and dt[0] in FPS:
                return norm(z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), self.fp(st, v), FPS[dt[0]][1]())))
        if op in ('sitofp', 'uitofp') and dt[0] in FPS:
            s = FPS[dt[0]][1]()
            if st[1] == 1:
                v = self.cast('zext', st, v, I8)
                st = I8
            x = bv(v, st[1])
            return norm(z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), x, s) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), x, s)))
        if op in ('fptosi', 'fptoui') and st[0] in FPS:
            x = self.fp(st, v)
            w = dt[1]
            return norm(z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(w)))
        raise Unsupported('cast %s %r %r' % (op, st, dt))

    def inb(self, p):
        return p.obj is not None and is_int(p.off) and 0 <= p.off < max(p.obj.size, 1)

    def icmp(self, pred, ty, a, b):
        if ty[0] == 'vec':
            return [self.icmp(pred, ty[2], x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF or isinstance(a, Mixed) or isinstance(b, Mixed):
            return UNDEF
        w = 64
        if ty[0] == 'ptr':
            if a.obj is b.obj:
                x, y = a.off, b.off
                if a.obj is not None:
                    if is_int(x) and is_int(y) and pred in ('ult', 'ugt', 'ule', 'uge'):
                        pred = 's' + pred[1:]
                    x = x & (2**64 - 1) if is_int(x) else x
                    y = y & (2**64 - 1) if is_int(y) else y
            else:
                # distinct objects
                def null(p):
                    return p.obj is None and is_int(p.off) and p.off == 0

                def inobj(p):
                    return p.obj is not None and is_int(p.off) and 0 <= p.off <= p.obj.size
                if (null(a) and inobj(b)) or (null(b) and inobj(a)):
                    r = {'eq': 0, 'ne': 1, 'ult': null(a), 'ule': null(a), 'ugt': null(b), 'uge': null(b)}.get(pred)
                    if r is not None:
                        return int(r)
                if pred in ('eq', 'ne') and self.inb(a) and self.inb(b) and a.obj.alive and b.obj.alive:
                    return int(pred == 'ne')
                x, y = self.addr(a), self.addr(b)
        else:
            w = ty[1]
            x, y = a, b
        if is_int(x) and is_int(y):
            if pred[0] == 's':
                x = x - (1 << w) if x >> (w - 1) else x
                y = y - (1 << w) if y >> (w - 1) else y
            q = pred[-2:]
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q])
        if w == 1:
            x = tobool(x)
            y = tobool(y)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
            y = z3.BoolVal(y) if isinstance(y, bool) else y
            if pred == 'eq':
                return self.b2(x == y)
            if pred == 'ne':
                return self.b2(z3.Xor(x, y))
            x = z3.If(x, BVV(1, 1), BVV(0, 1))
            y = z3.If(y, BVV(1, 1), BVV(0, 1))
        else:
            x = bv(x, w)
            y = bv(y, w)
        if pred == 'eq':
            r = x == y
        elif pred == 'ne':
            r = x != y
        elif pred == 'ult':
            r = z3.ULT(x, y)
        elif pred == 'ule':
            r = z3.ULE(x, y)
        elif pred == 'ugt':
            r = z3.UGT(x, y)
        elif pred == 'uge':
            r = z3.UGE(x, y)
        elif pred == 'slt':
            r = x < y
        elif pred == 'sle':
            r = x <= y
        elif pred == 'sgt':
            r = x > y
        else:
            r = x >= y
        return self.b2(r)

    def b2(self, r):
        r = normb(r)
        return int(r) if isinstance(r, bool) else r

    def fcmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF or isinstance(a, Mixed) or isinstance(b, Mixed):
            return UNDEF
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        x = self.fp(ty, a)
        y = self.fp(ty, b)
        uno = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord':
            return self.b2(z3.Not(uno))
        if pred == 'uno':
            return self.b2(uno)
        q = pred[1:]
        c = {'eq': z3.fpEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y),
             'ne': z3.Not(z3.fpEQ(x, y))}[q]
        return self.b2(z3.And(z3.Not(uno), c) if pred[0] == 'o' else z3.Or(uno, c))

    def gep(self, ety, base, idx, inb):
        if base is UNDEF:
            return UNDEF
        off = 0
        sym = None
        t = ety
        first = True
        for it, iv in idx:
            if iv is UNDEF:
                return UNDEF
            if first:
                sz = self.mod.size_align(t)[0]
                first = False
            else:
                t = self.mod.resolve(t)
                if t[0] == 'struct':
                    o, t = self.mod.field_offset(t, iv)
                    off += o
                    continue
                t = t[2]
                sz = self.mod.size_align(t)[0]
            if is_int(iv):
                w = it[1]
                if iv >> (w - 1):
                    iv -= 1 << w
                off += iv * sz
            else:
                e = iv
                if it[1] < 64:
                    e = z3.SignExt(64 - it[1], iv)
                e = e * BVV(sz, 64) if sz != 1 else e
                sym = e if sym is None else sym + e
        o = base.off
        if sym is None and is_int(o):
            r = o + off
            if base.obj is None:
                r &= 2**64 - 1
            elif inb and not (0 <= r <= base.obj.size) and not self.spec:
                self.ub(False, 'pointer arithmetic out of bounds (%s)' % base.obj.name)
            return Ptr(base.obj, r)
        e = bv(o & (2**64 - 1), 64) if is_int(o) else o
        if off:
            e = e + BVV(off & (2**64 - 1), 64)
        if sym is not None:
            e = e + sym
        e = norm(e)
        if base.obj is None:
            return self.int2ptr(e)
        if is_int(e) and e >= 1 << 63:
            e -= 1 << 64
        if inb and not is_int(e):
            self.ub(z3.ULE(e, base.obj.size), 'pointer arithmetic out of bounds (%s)' % base.obj.name)
        return Ptr(base.obj, e)

    # ------------------------------------------------------------------ functions
    def call_ptr(self, p, args, argtys=None):
        if p is UNDEF:
            self.ub_fail('call through an indeterminate pointer')
        if p.obj is None:
            if is_int(p.off):
                self.ub_fail('call through null/invalid function pointer')
            q = self.int2ptr(p.off)
            if q.obj is None:
                for o in list(self.objs):
                    if o.kind == 'fn' and self.decide(p.off == self.base(o)):
                        q = Ptr(o, 0)
                        break
                else:
                    self.ub_fail('call through a pointer to no function')
            p = q
        if p.obj.kind != 'fn':
            self.ub_fail('call through a non-function pointer')
        return self.call_name(p.obj.name, args)

    def call_name(self, name, args):
        import models
        m = models.MODELS.get(name)
        if m is not None:
            return m(self, args)
        if name.startswith('@llvm.'):
            r = models.intrinsic(self, name, args)
            if r is not NotImplemented:
                return r
            raise Unsupported('intrinsic ' + name)
        f = self.mod.funcs.get(name)
        if f is None:
            a = self.mod.globals.get(name)
            if a and ' alias ' in a:
                o = self.global_obj(name)
                return self.call_name(o.name, args)
            m = models.external(self, name, args)
            if m is not NotImplemented:
                self.V.stats.externs.add(name)
                return m
            raise Unsupported('external function ' + name)
        return self.call_func(f, args)

    def call_func(self, f, args):
        f.parse()
        self.V.stats.funcs.add(f.name)
        if len(self.stack) > 400:
            raise Unsupported('call depth')
        self.stack.append(f.name)
        loc = {}
        for (t, at, nm), v in zip(f.params, args):
            if at:
                self.param_checks(f, t, at, v)
            loc[nm] = v
        allocas = []
        try:
            try:
                r = self.exec_blocks(f, loc, allocas)
            except CxxExc as e:
                if 'nounwind' in f.fattrs:
                    self.ub_fail('exception leaves a non-throwing function')
                raise
            if r is UNDEF and f.rattrs.get('noundef'):
                self.ub(False, 'indeterminate value returned')
            if isinstance(r, Mixed) and f.rattrs.get('noundef'):
                self.ub(False, 'indeterminate value returned')
            if f.rattrs.get('nonnull') and isinstance(r, Ptr):
                self.ub(tobool(self.icmp('ne', PTR, r, NULL)), 'null reference returned')
            return r
        finally:
            for o in allocas:
                o.alive = False
            self.stack.pop()

    def param_checks(self, f, t, at, v):
        if 'noundef' in at and (v is UNDEF or isinstance(v, Mixed)):
            self.ub(False, 'indeterminate value passed')
        if isinstance(v, Ptr):
            if 'nonnull' in at:
                self.ub(tobool(self.icmp('ne', PTR, v, NULL)), 'null reference / object pointer passed')
            if 'dereferenceable' in at:
                n = int(at['dereferenceable'][0][1])
                if v.obj is not None and is_int(v.off):
                    o = v.obj
                    if not o.alive:
                        self.ub(False, 'reference to an object after its storage ended (%s)' % o.name)
                    elif o.kind != 'fn' and (v.off < 0 or v.off + n > o.size):
                        self.ub(False, 'reference to storage smaller than the object (%s)' % o.name)

    def exec_blocks(self, f, loc, allocas):
        blocks = f.blocks
        lab = f.entry
        prev = None
        V = self.V
        while True:
            instrs = blocks[lab]
            i = 0
            n = len(instrs)
            # phis in parallel
            if n and instrs[0].op == 'phi':
                vals = []
                while i < n and instrs[i].op == 'phi':
                    I = instrs[i]
                    vals.append((I.res, self.ev(I.a[prev], loc)))
                    i += 1
                for r, v in vals:
                    loc[r] = v
            nxt = None
            while i < n:
                I = instrs[i]
                i += 1
                self.steps += 1
                op = I.op
                if op == 'load':
                    ptr, al, rng = I.a
                    v = self.load(I.ty, self.ev(ptr, loc))
                    if rng:
                        self.range_check(v, rng)
                    loc[I.res] = v
                elif op == 'store':
                    v, ptr, al = I.a
                    self.store(I.ty, self.ev(v, loc), self.ev(ptr, loc))
                elif op == 'getelementptr':
                    ety, b, idx, inb = I.a
                    loc[I.res] = self.gep(ety, self.ev(b, loc), [(t, self.ev(x, loc)) for t, x in idx], inb)
                elif op == 'call' or op == 'invoke':
                    callee, args, fa, ra, normal, unwind = I.a
                    av = []
                    for t, at, x in args:
                        if x is None:
                            av.append(None)
                            continue
                        v = self.ev(x, loc)
                        if 'byval' in at:
                            v = self.byval(at, v, allocas)
                        av.append(v)
                    try:
                        if callee[0] == 'g':
                            r = self.call_name(callee[1], av)
                        else:
                            r = self.call_ptr(self.ev(callee, loc), av)
                        if I.res:
                            loc[I.res] = r
                        if op == 'invoke':
                            nxt = normal
                    except CxxExc as e:
                        if op == 'call':
                            raise
                        loc['$exc'] = e
                        nxt = unwind
                elif op == 'br':
                    c, x, y = I.a
                    if c is None:
                        nxt = x
                    else:
                        v = self.ev(c, loc)
                        if v is UNDEF:
                            self.ub_fail('branch depends on an indeterminate value')
                        nxt = x if (v & 1 if is_int(v) else self.decide(v)) else y
                elif op == 'alloca':
                    nel, al = I.a
                    size, a2 = self.mod.size_align(I.ty)
                    if nel:
                        k = self.ev(nel[1], loc)
                        if not is_int(k):
                            raise Unsupported('symbolic alloca')
                        size *= k
                    o = self.new_obj(size, max(al, a2), 'stack', (I.res or '%tmp') + '@' + f.name[1:40])
                    allocas.append(o)
                    loc[I.res] = Ptr(o, 0)
                elif op == 'bin':
                    o, x, y, fl = I.a
                    loc[I.res] = self.binop(o, I.ty, self.ev(x, loc), self.ev(y, loc), fl)
                elif op == 'cast':
                    o, st, x = I.a
                    loc[I.res] = self.cast(o, st, self.ev(x, loc), I.ty)
                elif op == 'icmp':
                    pred, x, y = I.a
                    loc[I.res] = self.icmp(pred, I.ty, self.ev(x, loc), self.ev(y, loc))
                elif op == 'fcmp':
                    pred, x, y = I.a
                    loc[I.res] = self.fcmp(pred, I.ty, self.ev(x, loc), self.ev(y, loc))
                elif op == 'ret':
                    return None if I.a is None else self.ev(I.a, loc)
                elif op == 'select':
                    c, x, y = I.a
                    loc[I.res] = self.select(I.ty, self.ev(c, loc), self.ev(x, loc), self.ev(y, loc))
                elif op == 'extractvalue':
                    t, v, ix = I.a
                    v = self.ev(v, loc)
                    for k in ix:
                        v = UNDEF if v is UNDEF else v[k]
                    loc[I.res] = v
                elif op == 'insertvalue':
                    v, et, e, ix = I.a
                    loc[I.res] = self.insertv(I.ty, self.ev(v, loc), self.ev(e, loc), ix)
                elif op == 'switch':
                    c, d, cases = I.a
                    v = self.ev(c, loc)
                    if v is UNDEF:
                        self.ub_fail('switch on an indeterminate value')
                    nxt = d
                    for cv, lb in cases:
                        r = self.icmp('eq', I.ty, v, cv)
                        if (r & 1 if is_int(r) else self.decide(r)):
                            nxt = lb
                            break
                elif op == 'landingpad':
                    cleanup, cl = I.a
                    e = loc.pop('$exc')
                    sel = self.match_exc(e, cleanup, cl)
                    if sel is None:
                        raise e
                    loc[I.res] = [e.ptr, sel]
                elif op == 'resume':
                    v = self.ev(I.a, loc)
                    raise CxxExc(v[0])
                elif op == 'unreachable':
                    self.ub_fail('unreachable point reached')
                elif op == 'freeze':
                    v = self.ev(I.a, loc)
                    loc[I.res] = self.freeze(I.ty, v)
                elif op == 'fneg':
                    v = self.ev(I.a, loc)
                    w = FPS[I.ty[0]][0]
                    loc[I.res] = self.binop('xor', ('int', w), v, 1 << (w - 1), ())
                elif op == 'extractelement':
                    v, t, ix = I.a
                    v = self.ev(v, loc)
                    k = self.ev(ix, loc)
                    loc[I.res] = UNDEF if v is UNDEF else v[k]
                elif op == 'insertelement':
                    v, et, e, t, ix = I.a
                    v = self.ev(v, loc)
                    v = [UNDEF] * I.ty[1] if v is UNDEF else list(v)
                    v[self.ev(ix, loc)] = self.ev(e, loc)
                    loc[I.res] = v
                elif op == 'atomicrmw':
                    o, ptr, v = I.a
                    q = self.ev(ptr, loc)
                    old = self.load(I.ty, q)
                    x = self.ev(v, loc)
                    if o == 'xchg':
                        new = x
                    elif o in ('add', 'sub', 'and', 'or', 'xor'):
                        new = self.binop(o, I.ty, old, x, ())
                    else:
                        raise Unsupported('atomicrmw ' + o)
                    self.store(I.ty, new, q)
                    loc[I.res] = old
                elif op == 'fence':
                    pass
                else:
                    raise Unsupported('instruction %s: %s in %s' % (I.a, I.text[:100], f.name))
                if nxt is not None:
                    break
            if nxt is None:
                raise Unsupported('fell off block %s of %s' % (lab, f.name))
            if self.steps & 1023 == 0 and time.time() > V.deadline:
                raise Unsupported('time limit in ' + V.fname)
            if self.steps > 3000000:
                raise Unsupported('step limit in ' + V.fname)
            prev = lab
            lab = nxt

    def byval(self, at, v, allocas):
        p = P(at['byval'], self.mod)
        t = p.type()
        size, al = self.mod.size_align(t)
        o, off = self.resolve(v, size, 'read')
        n = self.new_obj(size, max(al, 8), 'stack', '%byval')
        n.cells = o.cells[off:off + size]
        allocas.append(n)
        return Ptr(n, 0)

    def range_check(self, v, rng):
        if v is UNDEF or isinstance(v, Mixed):
            self.ub(False, 'indeterminate value read as bool')
            return
        cs = []
        for k in range(0, len(rng), 2):
            w, lo = rng[k]
            _, hi = rng[k + 1]
            if is_int(v):
                cs.append(lo <= v < hi)
            else:
                cs.append(z3.And(z3.UGE(v, lo), z3.ULT(v, hi)))
        if all(isinstance(c, bool) for c in cs):
            c = any(cs)
        else:
            c = z3.Or(*cs)
        self.ub(c, 'object representation read is not a valid value of its type')

    def select(self, ty, c, x, y):
        if c is UNDEF:
            self.ub_fail('selection depends on an indeterminate value')
        if isinstance(c, list):
            return [self.select(ty[2], a, b, d) for a, b, d in zip(c, x, y)]
        if is_int(c):
            return x if c & 1 else y
        if ty[0] == 'int' and not (x is UNDEF or y is UNDEF or isinstance(x, Mixed) or isinstance(y, Mixed)):
            w = ty[1]
            if w == 1:
                x = tobool(x)
                y = tobool(y)
                return self.b2(z3.If(c, z3.BoolVal(x) if isinstance(x, bool) else x, z3.BoolVal(y) if isinstance(y, bool) else y))
            return z3.If(c, bv(x, w), bv(y, w))
        return x if self.decide(c) else y

    def insertv(self, ty, v, e, ix):
        t = self.mod.resolve(ty)
        n = len(t[2]) if t[0] == 'struct' else t[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(ix) == 1:
            v[ix[0]] = e
        else:
            et = t[2][ix[0]] if t[0] == 'struct' else t[2]
            v[ix[0]] = self.insertv(et, v[ix[0]], e, ix[1:])
        return v

    def freeze(self, ty, v):
        if v is UNDEF:
            n = self.store_size(ty)
            return self.val_from_cells(ty, [(self.fresh('frz', 8), 0, 1) for _ in range(n)])
        if isinstance(v, Mixed):
            return self.recell([(self.fresh('frz', 8), 0, 1) if c is None else c for c in v.cells])
        return v

    def ev(self, o, loc):
        k = o[0]
        if k == 'r':
            return loc[o[1]]
        if k == 'c':
            return o[1]
        return self.const(o)

    # ------------------------------------------------------------------ exceptions
    def throw(self, ptr, tinfo, dtor):
        self.excs[ptr.obj.id] = [tinfo, dtor, 0]
        raise CxxExc(ptr)

    def exc_name(self, e):
        x = self.excs.get(e.ptr.obj.id)
        return x[0] if x else '?'

    def ti_bases(self, ti):
        """all type_info names a handler may name to catch ti"""
        out = [ti]
        d = self.mod.globals.get(ti, '')
        if 'external' in d.split('constant')[0] or 'constant {' not in d:
            import models
            for b in models.EXT_BASES.get(ti, ()):
                out.append(b)
            return out
        import re
        for g in re.findall(r'ptr (@_ZTI[-\w$.]+|@"_ZTI[^"]*")', d):
            g = g.replace('"', '')
            if g != ti and not g.startswith('@_ZTIN10__cxxabiv'):
                out += self.ti_bases(g)
        return out

    def typeid(self, name):
        t = self.thread_typeids
        if name not in t:
            t[name] = len(t) + 1
        return t[name]

    def match_exc(self, e, cleanup, cl):
        x = self.excs[e.ptr.obj.id]
        bases = self.ti_bases(x[0])
        for kind, t, v in cl:
            if kind == 'catch':
                if v[0] == 'null':
                    return self.typeid('null')
                g = v[1]
                if g in bases:
                    return self.typeid(g)
            else:
                raise Unsupported('exception filter')
        if cleanup:
            return 0
        return None
