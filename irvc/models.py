"""Specification intrinsics (vc_*), LLVM intrinsics and contracts of the C/C++ runtime."""
import z3
from irparse import *
from interp import *
from interp import BVV, normb

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS['@' + n] = f
        return f
    return d


def cint(p, v, what):
    if not is_int(v):
        if v is UNDEF or isinstance(v, Mixed):
            raise Unsupported('indeterminate ' + what)
        v = norm(v)
        if not is_int(v):
            raise Unsupported('symbolic ' + what)
    return v


def csize(p, v, what, limit=64):
    """a size argument: concrete, or at most `limit`, in which case every feasible value is explored on a path of its own"""
    if v is UNDEF or isinstance(v, Mixed):
        p.ub_fail('indeterminate ' + what)
    if not is_int(v):
        v = norm(v)
    if is_int(v):
        return v
    for k in range(limit + 1):
        c = normb(v == k)
        if c is True:
            return k
        if c is not False and p.decide(c):
            return k
    if p.check(z3.BoolVal(True)) != 'unsat':
        raise Unsupported('symbolic ' + what + ' without a bound')
    raise PathEnd()


def cstr(p, ptr):
    o, off = ptr.obj, ptr.off
    out = []
    while o.cells[off] != 0:
        out.append(o.cells[off])
        off += 1
    return bytes(out).decode()


def as_bool(v):
    if isinstance(v, (Mixed,)) or v is UNDEF:
        return None
    return tobool(v)


# ---------------------------------------------------------------- specification intrinsics
for _w in (8, 16, 32, 64):
    def _nd(p, a, w=_w):
        return p.fresh('nd', w)
    MODELS['@vc_nondet_u%d' % _w] = _nd


@model('vc_nondet_bool')
def _(p, a):
    # fork eagerly: path-wise exploration of the caller's choice
    return int(p.decide(p.fresh('ndb', 8) == 1))


@model('vc_nondet_ptr')
def _(p, a):
    return Ptr(None, p.fresh('ptr', 64))


@model('vc_havoc')
def _(p, a):
    n = cint(p, a[1], 'havoc size')
    if n == 0:
        return
    v = p.fresh('hv', 8 * n)
    p.store_cells([(v, i, n) for i in range(n)], a[0])


@model('vc_make_indeterminate')
def _(p, a):
    n = cint(p, a[1], 'size')
    p.store_cells([None] * n, a[0])


@model('vc_assume')
def _(p, a):
    c = as_bool(a[0])
    if c is None:
        raise Unsupported('assume of an indeterminate value')
    p.assume(c)


@model('vc_assert')
def _(p, a):
    lab = cstr(p, a[1])
    c = as_bool(a[0])
    if c is None:
        c = False
    p.oblig(c, lab, 'postcondition')


@model('vc_cover')
def _(p, a):
    lab = cstr(p, a[0])
    c = p.V.stats.covers
    if not c.get(lab):
        c[lab] = p.check(z3.BoolVal(True)) == 'sat'


@model('vc_spec')
def _(p, a):
    p.spec += 1 if cint(p, a[0], 'flag') else -1


@model('vc_end')
def _(p, a):
    raise PathEnd()


@model('vc_uf')
def _(p, a):
    i = cint(p, a[0], 'uf id')
    x, y = a[1], a[2]
    if x is UNDEF or isinstance(x, Mixed) or y is UNDEF or isinstance(y, Mixed):
        p.ub_fail('user-supplied operation applied to an indeterminate value')
    f = z3.Function('uf_%d' % i, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    r = f(bv(x, 64), bv(y, 64))
    p.ufs.append((i, (x, y), r))
    return r


def gkey(p, ptr, key):
    if ptr.obj is None:
        if is_int(ptr.off):
            return (None, ptr.off, key)
        q = p.int2ptr(ptr.off)
        if q.obj is None:
            q = p.find_obj(ptr, 'access')
        ptr = q
    off = ptr.off
    if not is_int(off):
        off = norm(off)
        if not is_int(off):
            off = p.enum(off, ptr.obj)
    return (ptr.obj.id, off, key)


@model('vc_ghost_set')
def _(p, a):
    p.ghost[gkey(p, a[0], cint(p, a[1], 'ghost key'))] = a[2]


@model('vc_ghost_get')
def _(p, a):
    return p.ghost.get(gkey(p, a[0], cint(p, a[1], 'ghost key')), 0)


@model('vc_ghost_in')
def _(p, a):
    """number of addresses within [ptr,ptr+n) whose ghost `key` equals val (concrete ghosts only)"""
    o = a[0].obj
    n = cint(p, a[1], 'n')
    key = cint(p, a[2], 'key')
    val = cint(p, a[3], 'val')
    c = 0
    for (oid, off, k), v in p.ghost.items():
        if k == key and oid == o.id and a[0].off <= off < a[0].off + n:
            if not is_int(v):
                raise Unsupported('symbolic ghost count')
            c += v == val
    return c


@model('vc_ghost_count')
def _(p, a):
    key = cint(p, a[0], 'key')
    val = cint(p, a[1], 'val')
    c = 0
    for (oid, off, k), v in p.ghost.items():
        if k == key:
            if not is_int(v):
                raise Unsupported('symbolic ghost count')
            c += v == val
    return c


@model('vc_trap_ok')
def _(p, a):
    p.trap_ok = cint(p, a[0], 'flag')


@model('vc_assigns_begin')
def _(p, a):
    p.wlog = []
    p.wstart = len(p.objs)
    p.wallow = []


@model('vc_assigns_allow')
def _(p, a):
    p.wallow.append((a[0].obj, a[0].off, cint(p, a[1], 'n')))


@model('vc_assigns_end')
def _(p, a):
    lab = cstr(p, a[0])
    bad = None
    for o, off, n, w in p.wlog:
        if o.kind in ('exc',):
            continue
        for b in range(off, off + n):
            if not any(o is q and s <= b < s + m for q, s, m in p.wallow):
                bad = '%s+%d by %s' % (o.name, b, w[-1] if w else '?')
                break
        if bad:
            break
    p.wlog = None
    p.oblig(bad is None, lab, 'frame')


@model('vc_snap')
def _(p, a):
    """remember the n bytes at ptr under slot k"""
    n = cint(p, a[1], 'n')
    k = cint(p, a[2], 'slot')
    o = a[0].obj
    p.snaps[k] = list(o.cells[a[0].off:a[0].off + n])


@model('vc_same')
def _(p, a):
    """bool: the n bytes at ptr equal the snapshot k (indeterminate bytes equal only if untouched)"""
    n = cint(p, a[1], 'n')
    k = cint(p, a[2], 'slot')
    old = p.snaps[k]
    o = a[0].obj
    new = o.cells[a[0].off:a[0].off + n]
    conj = []
    for x, y in zip(old, new):
        if x is None or y is None:
            if x is not y:
                return 0
            continue
        if x.__class__ is tuple and y.__class__ is tuple and x[0] is y[0] and x[1] == y[1]:
            continue
        if is_int(x) and is_int(y):
            if x != y:
                return 0
            continue
        if x.__class__ is tuple and y.__class__ is tuple and isinstance(x[0], Ptr) and isinstance(y[0], Ptr) \
                and x[0].obj is y[0].obj and x[1] == y[1] and is_int(x[0].off) and is_int(y[0].off):
            if x[0].off != y[0].off:
                return 0
            continue
        conj.append(p.cell_bv(x) == p.cell_bv(y))
    if not conj:
        return 1
    return p.b2(z3.And(*conj))


@model('vc_undef_bytes')
def _(p, a):
    n = cint(p, a[1], 'n')
    o = a[0].obj
    return sum(1 for c in o.cells[a[0].off:a[0].off + n] if c is None)


@model('vc_ptr_provenance')
def _(p, a):
    return int(a[0].obj is not None)


# ---------------------------------------------------------------- C/C++ runtime
def new_heap(p, n):
    return Ptr(p.new_obj(cint(p, n, 'allocation size'), 16, 'heap', 'heap%d' % len(p.objs)), 0)


@model('_Znwm', '_Znam', 'malloc')
def _(p, a):
    return new_heap(p, a[0])


@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(p, a):
    return new_heap(p, a[0])


@model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def _(p, a):
    q = a[0]
    if q.obj is None:
        if is_int(q.off) and q.off == 0:
            return
        c = p.icmp('eq', PTR, q, NULL)
        if p.decide(tobool(c)):
            return
        p.ub_fail('delete of an invalid pointer')
    if q.obj.kind != 'heap' or q.off != 0:
        p.ub_fail('delete of a pointer not obtained from new')
    if not q.obj.alive:
        p.ub_fail('double delete')
    q.obj.alive = False


# diagnostics: their output is not part of any property
@model('fprintf')
def _(p, a):
    return 0


@model('fflush')
def _(p, a):
    return 0


@model('abort')
def _(p, a):
    p.ub_fail('abort() called')


@model('_ZSt9terminatev')
def _(p, a):
    p.ub_fail('std::terminate called')


@model('__clang_call_terminate')
def _(p, a):
    p.ub_fail('std::terminate called (exception leaves a non-throwing region)')


@model('__cxa_pure_virtual')
def _(p, a):
    p.ub_fail('pure virtual call')


@model('__cxa_allocate_exception')
def _(p, a):
    return Ptr(p.new_obj(cint(p, a[0], 'exception size'), 16, 'exc', 'exception'), 0)


@model('__cxa_free_exception')
def _(p, a):
    a[0].obj.alive = False


@model('__cxa_throw')
def _(p, a):
    ti = a[1].obj.name
    dt = a[2]
    p.throw(a[0], ti, dt if dt.obj is not None else None)


@model('__cxa_begin_catch')
def _(p, a):
    x = p.excs[a[0].obj.id]
    x[2] += 1
    p.caught.append(a[0])
    return a[0]


@model('__cxa_get_exception_ptr')
def _(p, a):
    return a[0]


@model('__cxa_end_catch')
def _(p, a):
    e = p.caught.pop()
    x = p.excs[e.obj.id]
    x[2] -= 1
    if x[2] == 0 and not (len(x) > 3 and x[3]):
        if x[1] is not None:
            p.call_ptr(x[1], [e])
        e.obj.alive = False


@model('__cxa_rethrow')
def _(p, a):
    e = p.caught[-1]
    x = p.excs[e.obj.id]
    if len(x) < 4:
        x.append(True)
    raise CxxExc(e)


EXT_BASES = {
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
    '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt18bad_variant_access': ['@_ZTISt9exception'],
}


@model('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev')
def _(p, a):
    return None


def _std_throw(ti):
    def f(p, a):
        e = Ptr(p.new_obj(16, 16, 'exc', 'exception'), 0)
        p.throw(e, ti, None)
    return f


MODELS['@_ZSt20__throw_length_errorPKc'] = _std_throw('@_ZTISt12length_error')
MODELS['@_ZSt20__throw_out_of_rangePKc'] = _std_throw('@_ZTISt12out_of_range')
MODELS['@_ZSt24__throw_out_of_range_fmtPKcz'] = _std_throw('@_ZTISt12out_of_range')
MODELS['@_ZSt17__throw_bad_allocv'] = _std_throw('@_ZTISt9bad_alloc')
MODELS['@_ZSt28__throw_bad_array_new_lengthv'] = _std_throw('@_ZTISt20bad_array_new_length')
MODELS['@_ZSt19__throw_logic_errorPKc'] = _std_throw('@_ZTISt11logic_error')
MODELS['@_ZSt25__throw_bad_function_callv'] = _std_throw('@_ZTISt17bad_function_call')


def rd(p, q, n, what='read'):
    o, off = p.resolve(q, n, what)
    return o.cells[off:off + n]


@model('memcpy', 'memmove')
def _(p, a):
    n = csize(p, a[2], 'memcpy size')
    if n:
        p.store_cells(list(rd(p, a[1], n)), a[0])
    return a[0]


@model('memset')
def _(p, a):
    n = csize(p, a[2], 'memset size')
    if n:
        b = a[1]
        c = b & 255 if is_int(b) else (z3.Extract(7, 0, b), 0, 1)
        p.store_cells([c] * n, a[0])
    return a[0]


@model('wmemcpy', 'wmemmove')
def _(p, a):
    n = 4 * csize(p, a[2], 'wmemcpy size')
    if n:
        p.store_cells(list(rd(p, a[1], n)), a[0])
    return a[0]


@model('wmemset')
def _(p, a):
    n = csize(p, a[2], 'wmemset size')
    b = bv(a[1], 32)
    c = [(b, i, 4) for i in range(4)] if not is_int(a[1]) else [(a[1] >> 8 * i) & 255 for i in range(4)]
    if n:
        p.store_cells(c * n, a[0])
    return a[0]


@model('memcmp', 'bcmp')
def _(p, a):
    n = csize(p, a[2], 'memcmp size')
    if n == 0:
        return 0
    x = rd(p, a[0], n)
    y = rd(p, a[1], n)
    for c, d in zip(x, y):
        if c is None or d is None:
            p.ub_fail('comparison of indeterminate bytes')
    r = BVV(0, 32)
    for c, d in reversed(list(zip(x, y))):
        c = p.cell_bv(c)
        d = p.cell_bv(d)
        r = z3.If(c == d, r, z3.If(z3.ULT(c, d), BVV(0xffffffff, 32), BVV(1, 32)))
    return norm(r)


@model('strlen')
def _(p, a):
    o, off = p.resolve(a[0], 1, 'read')
    n = 0
    while True:
        if off + n >= o.size:
            p.ub_fail('strlen out of bounds')
        c = o.cells[off + n]
        if c is None:
            p.ub_fail('strlen of indeterminate bytes')
        if is_int(c):
            if c == 0:
                return n
        elif p.decide(p.cell_bv(c) == 0):
            return n
        n += 1


@model('_ZSt11_Hash_bytesPKvmm')
def _(p, a):
    # contract: a deterministic function of the bytes and the seed
    n = cint(p, a[1], 'hash length')
    cells = rd(p, a[0], n) if n else []
    if any(c is None for c in cells):
        p.ub_fail('hash of indeterminate bytes')
    e = bv(a[2], 64)
    if n:
        parts = [p.cell_bv(c) for c in cells]
        parts.reverse()
        x = z3.Concat(*parts) if n > 1 else parts[0]
        f = z3.Function('hash_bytes_%d' % n, z3.BitVecSort(8 * n), z3.BitVecSort(64), z3.BitVecSort(64))
        return f(x, e)
    return a[2]


def external(p, name, args):
    return NotImplemented


# ---------------------------------------------------------------- LLVM intrinsics
def intrinsic(p, name, a):
    n = name[6:]
    if n.startswith('lifetime.start'):
        o = a[1].obj
        o.alive = True
        if o.kind == 'stack':
            o.cells = [None] * o.size
        return
    if n.startswith('lifetime.end'):
        a[1].obj.alive = False
        return
    if n.startswith('memcpy') or n.startswith('memmove'):
        return MODELS['@memcpy'](p, a)
    if n.startswith('memset'):
        return MODELS['@memset'](p, a)
    if n.startswith('assume'):
        c = as_bool(a[0])
        if c is None:
            p.ub_fail('optimizer assumption on an indeterminate value')
        if not p.spec and c is not True and p.trap_ok:
            # the caller's contract permits the precondition to fail here: path ends
            p.assume(c)
            return
        p.ub(c, 'precondition assumed by the code (OPTION_VERIFY / __builtin_assume) does not hold')
        return
    if n in ('trap', 'debugtrap') or n.startswith('ubsantrap'):
        if p.trap_ok:
            raise PathEnd()
        p.ub_fail('debug check fails (trap reached)')
    if n.startswith('expect'):
        return a[0]
    if n.startswith('launder.invariant') or n.startswith('strip.invariant'):
        return a[0]
    if n.startswith('ptrmask'):
        raise Unsupported('ptrmask')
    if n.startswith('objectsize'):
        return (1 << 64) - 1
    if n.startswith('is.constant'):
        return 0
    if n.startswith('eh.typeid.for'):
        return p.typeid(a[0].obj.name)
    if n.startswith('stacksave'):
        return NULL
    if n.startswith('stackrestore') or n.startswith('experimental.noalias') or n.startswith('dbg.') or n.startswith('invariant.') or n.startswith('prefetch'):
        return None
    w = None
    if '.i' in n:
        try:
            w = int(n.rsplit('.i', 1)[1])
        except ValueError:
            w = None
    if 'with.overflow' in n and w:
        x, y = a
        kind = n.split('.')[0]
        sg = kind[0] == 's'
        op = kind[1:]
        X, Y = bv(x, w), bv(y, w)
        ex = (lambda v: z3.SignExt(w, v)) if sg else (lambda v: z3.ZeroExt(w, v))
        full = {'add': ex(X) + ex(Y), 'sub': ex(X) - ex(Y), 'mul': ex(X) * ex(Y)}[op]
        lo = z3.Extract(w - 1, 0, full)
        ov = p.b2(full != ex(lo))
        return [norm(lo), ov]
    b = n.split('.')[0]
    if b in ('umin', 'umax', 'smin', 'smax') and w:
        c = p.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[b], ('int', w), a[0], a[1])
        return p.select(('int', w), c, a[0], a[1])
    if b == 'abs' and w:
        c = p.icmp('slt', ('int', w), a[0], 0)
        return p.select(('int', w), c, p.binop('sub', ('int', w), 0, a[0], ()), a[0])
    if b == 'fabs':
        w = 32 if n.endswith('f32') else 64
        return p.binop('and', ('int', w), a[0], (1 << (w - 1)) - 1, ())
    if b == 'bswap':
        x = bv(a[0], w)
        return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
    if n.startswith('is.fpclass'):
        ty = ('float',) if n.endswith('f32') else ('double',)
        m = a[1]
        x = p.fp(ty, a[0])
        W = 32 if ty[0] == 'float' else 64
        mb = 22 if W == 32 else 51
        q = z3.Extract(mb, mb, bv(a[0], W)) == 1
        isn = z3.fpIsNaN(x)
        neg = z3.Extract(W - 1, W - 1, bv(a[0], W)) == 1
        parts = []
        if m & 1:
            parts.append(z3.And(isn, z3.Not(q)))
        if m & 2:
            parts.append(z3.And(isn, q))
        tests = [(4, neg, z3.fpIsInf), (8, neg, z3.fpIsNormal), (16, neg, z3.fpIsSubnormal), (32, neg, z3.fpIsZero),
                 (64, None, z3.fpIsZero), (128, None, z3.fpIsSubnormal), (256, None, z3.fpIsNormal), (512, None, z3.fpIsInf)]
        for bit, s, f in tests:
            if m & bit:
                parts.append(z3.And(s if s is not None else z3.Not(neg), f(x)))
        return p.b2(z3.Or(*parts) if parts else z3.BoolVal(False))
    return NotImplemented
