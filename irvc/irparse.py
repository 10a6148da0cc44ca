"""LLVM 18 textual IR parser (the subset clang emits for our extraction flags)."""
import re, struct

TOK = re.compile(r'''\s*(?:
 (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
|(?P<lid>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)
|(?P<gid>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<meta>!"(?:[^"])*"|![-a-zA-Z$._0-9]*)
|(?P<attr>\#\d+)
|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
|(?P<dots>\.\.\.)
|(?P<comdat>\$"(?:[^"])*"|\$[-a-zA-Z$._0-9]+)
|(?P<id>[a-zA-Z_][a-zA-Z_0-9.]*)
|(?P<p>[(){}\[\]<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mo = m(s, pos)
        if not mo:
            rest = s[pos:].strip()
            if not rest or rest.startswith(';'):
                break
            raise ParseError('tok: ' + s[pos:pos + 60])
        k = mo.lastgroup
        v = mo.group(k)
        if k in ('lid', 'gid') and v[1] == '"':
            v = v[0] + unesc(v[2:-1])
        out.append((k, v))
        pos = mo.end()
        # comment
        if pos < n and s[pos:pos + 2] == ' ;':
            break
    return out


def unesc(s):
    if '\\' not in s:
        return s
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)


PTR = ('ptr',)
VOID = ('void',)
I1 = ('int', 1)
I8 = ('int', 8)
I32 = ('int', 32)
I64 = ('int', 64)
FLOAT = ('float',)
DOUBLE = ('double',)
FP80 = ('x86_fp80',)
LABEL = ('label',)
META = ('metadata',)

CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'byref',
                     'elementtype', 'inalloca', 'preallocated', 'range', 'nofpclass', 'alignstack', 'memory', 'allocsize', 'vscale_range'}
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
               'zeroext', 'returned', 'inreg', 'immarg', 'nest', 'noreturn', 'nofree', 'swiftself', 'allocptr', 'allocalign', 'writable', 'dead_on_unwind'}


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def pv(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, v):
        if self.pv() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.pv() != v:
            raise ParseError('expected %r got %r at %r' % (v, self.pv(), self.t[max(0, self.i - 6):self.i + 6]))
        self.i += 1

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = PTR
                if self.pv() == 'addrspace':
                    self.i += 4
            elif v == 'void':
                t = VOID
            elif re.fullmatch(r'i\d+', v):
                t = ('int', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'bfloat', 'fp128'):
                t = (v,)
            elif v in ('label', 'metadata', 'token'):
                t = (v,)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise ParseError('type ' + v)
        elif k == 'lid':
            t = ('named', v)
        elif v == '{':
            fs = self.typelist('}')
            t = ('struct', False, tuple(fs))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '<':
            if self.eat('{'):
                fs = self.typelist('}')
                self.expect('>')
                t = ('struct', True, tuple(fs))
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise ParseError('type? %r %r' % (k, v))
        # function type?
        if self.pv() == '(':
            # only for call types: ret (args...)
            self.next()
            args = []
            va = False
            while self.pv() != ')':
                if self.eat('...'):
                    va = True
                else:
                    args.append(self.type())
                self.eat(',')
            self.next()
            t = ('fn', t, tuple(args), va)
        return t

    def typelist(self, end):
        fs = []
        while self.pv() != end:
            fs.append(self.type())
            self.eat(',')
        self.next()
        return fs

    # ---- constants / operands.  returns ('c',val) | ('r',name) | ('g',name) | ('ce',op,...) | ('agg',[...])
    def value(self, ty):
        k, v = self.next()
        if k == 'lid':
            return ('r', v)
        if k == 'gid':
            return ('g', v)
        if k == 'num':
            if ty[0] == 'int':
                return ('c', int(v) & ((1 << ty[1]) - 1))
            return ('c', fbits(float(v), ty))
        if k == 'hex':
            if v[2] in 'KLMHR':
                return ('c', int(v[3:], 16))
            b = int(v, 16)
            if ty[0] == 'float':
                # hex doubles used for floats (exactly representable); keep NaN payloads
                return ('c', dbl2flt_bits(b))
            return ('c', b)
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'none':
                return ('undef', ty)
            if v == 'getelementptr':
                while self.pv() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.pv() == '(' and self.pv(-1) == 'inrange':
                        self.skip_paren()
                self.expect('(')
                ety = self.type()
                self.expect(',')
                pty = self.type()
                base = self.value(pty)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('ce', 'gep', ety, base, idx)
            if v in CASTS:
                self.expect('(')
                st = self.type()
                sv = self.value(st)
                self.expect('to')
                dt = self.type()
                self.expect(')')
                return ('ce', 'cast', v, st, sv, dt)
            if v in BINOPS:
                while self.pv() in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('ce', 'bin', v, t1, a, b)
            if v in ('icmp',):
                pred = self.next()[1]
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('ce', 'icmp', pred, t1, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            raise ParseError('const id ' + v)
        if k == 'cstr':
            s = v[2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(0x5c)
                        i += 2
                    else:
                        out.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.extend(s[i].encode('utf-8'))
                    i += 1
            return ('agg', [(I8, ('c', b)) for b in out])
        if v == '{' or v == '[':
            end = '}' if v == '{' else ']'
            return ('agg', self.agglist(end))
        if v == '<':
            if self.eat('{'):
                r = self.agglist('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self.agglist('>'))
        raise ParseError('value %r %r' % (k, v))

    def agglist(self, end):
        out = []
        while self.pv() != end:
            t = self.type()
            out.append((t, self.value(t)))
            self.eat(',')
        self.next()
        return out

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def pattrs(self):
        """parameter / return attributes → dict"""
        a = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTRS_PAREN:
                self.next()
                if self.pv() == '(':
                    st = self.i + 1
                    self.skip_paren()
                    a[v] = self.t[st:self.i - 1]
                elif v == 'align':
                    a[v] = [self.next()]
                else:
                    a[v] = True
            elif k == 'id' and v in PARAM_ATTRS:
                self.next()
                a[v] = True
            elif k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return a


def fbits(f, ty):
    if ty[0] == 'float':
        return struct.unpack('<I', struct.pack('<f', f))[0]
    if ty[0] == 'double':
        return struct.unpack('<Q', struct.pack('<d', f))[0]
    raise ParseError('float const of ' + str(ty))


def dbl2flt_bits(b):
    exp = (b >> 52) & 0x7ff
    sign = b >> 63
    man = b & ((1 << 52) - 1)
    if exp == 0x7ff:
        return (sign << 31) | (0xff << 23) | (man >> 29)
    d = struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<I', struct.pack('<f', d))[0]


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text


class Func:
    def __init__(self, name, header, body, mod):
        self.name = name
        self.header = header
        self.body = body
        self.mod = mod
        self.blocks = None
        self.parse_header()

    def parse_header(self):
        h = self.header
        p = P(tokenize(h), self.mod)
        p.next()  # define/declare
        LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
                'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable',
                'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc'}
        while p.pv() in LINK:
            p.next()
        self.rattrs = p.pattrs()
        # type() would eat "(args)" as function type only after a type directly followed by '(' - here '@' follows
        self.rty = p.type()
        k, v = p.next()
        assert k == 'gid', v
        p.expect('(')
        self.params = []
        self.vararg = False
        while p.pv() != ')':
            if p.eat('...'):
                self.vararg = True
            else:
                t = p.type()
                at = p.pattrs()
                nm = None
                if p.peek()[0] == 'lid':
                    nm = p.next()[1]
                self.params.append((t, at, nm))
            p.eat(',')
        p.next()
        self.fattrs = set()
        while p.i < len(p.t):
            k, v = p.next()
            if k == 'attr':
                self.fattrs |= self.mod.attrs.get(v, set())
            elif k == 'id':
                self.fattrs.add(v)

    def parse(self):
        if self.blocks is not None:
            return
        blocks = {}
        cur = []
        # entry label: implicit number = count of unnamed params
        nparam = 0
        for i, (t, a, nm) in enumerate(self.params):
            if nm is None:
                self.params[i] = (t, a, '%' + str(nparam))
                nparam += 1
            elif nm[1:].isdigit():
                nparam += 1
        label = None
        self.entry = None
        lines = self.body
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                label = m.group(1)
                if label[0] == '"':
                    label = unesc(label[1:-1])
                if self.entry is None:
                    self.entry = label
                cur = []
                blocks[label] = cur
                continue
            if label is None:
                label = str(nparam)
                self.entry = label
                cur = []
                blocks[label] = cur
            # continuations
            if s.startswith('switch ') and not s.rstrip().endswith(']'):
                while True:
                    t = lines[i].strip()
                    i += 1
                    s += ' ' + t
                    if t.startswith(']'):
                        break
            elif 'landingpad ' in s:
                while i < n and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.match(r'(%\S+ = )?invoke ', s) and i < n and lines[i].strip().startswith('to label'):
                s += ' ' + lines[i].strip()
                i += 1
            cur.append(self.instr(s))
        self.blocks = blocks

    def instr(self, s):
        try:
            return self._instr(s)
        except (ParseError, IndexError, AssertionError) as e:
            return Instr('unsupported', None, None, (str(e),), s)

    def _instr(self, s):
        p = P(tokenize(s), self.mod)
        res = None
        if p.peek()[0] == 'lid' and p.pv(1) == '=':
            res = p.next()[1]
            p.next()
        k, op = p.next()
        a = None
        ty = None
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        if op in ('call', 'invoke'):
            FM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'}
            while p.pv() in FM:
                p.next()
            ra = p.pattrs()
            ty = p.type()
            if ty[0] == 'fn':
                fty = ty
                ty = ty[1]
            if p.pv() == 'asm':
                return Instr('unsupported', res, ty, ('inline asm',), s)
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while p.pv() != ')':
                t = p.type()
                at = p.pattrs()
                if t[0] == 'metadata':
                    while p.pv() not in (',', ')'):
                        p.next()
                    args.append((t, at, None))
                else:
                    args.append((t, at, p.value(t)))
                p.eat(',')
            p.next()
            fa = set()
            normal = unwind = None
            while p.i < len(p.t):
                k, v = p.next()
                if k == 'attr':
                    fa |= self.mod.attrs.get(v, set())
                elif v == 'to' and op == 'invoke':
                    p.expect('label')
                    normal = p.next()[1][1:]
                    p.expect('unwind')
                    p.expect('label')
                    unwind = p.next()[1][1:]
                elif v == '[':
                    d = 1
                    while d:
                        v = p.next()[1]
                        d += (v == '[') - (v == ']')
                elif k == 'meta':
                    break
                elif v == ',':
                    break
            a = (callee, args, fa, ra, normal, unwind)
        elif op == 'ret':
            ty = p.type()
            a = None if ty == VOID else p.value(ty)
        elif op == 'br':
            if p.eat('label'):
                a = (None, p.next()[1][1:], None)
            else:
                t = p.type()
                c = p.value(t)
                p.expect(',')
                p.expect('label')
                x = p.next()[1][1:]
                p.expect(',')
                p.expect('label')
                y = p.next()[1][1:]
                a = (c, x, y)
        elif op == 'switch':
            ty = p.type()
            c = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()[1][1:]
            p.expect('[')
            cases = []
            while p.pv() != ']':
                t = p.type()
                v = p.value(t)
                p.expect(',')
                p.expect('label')
                cases.append((v[1], p.next()[1][1:]))
            a = (c, d, cases)
        elif op == 'alloca':
            p.eat('inalloca')
            ty = p.type()
            n = None
            al = 1
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next()[1])
                elif p.peek()[0] == 'meta':
                    break
                else:
                    t = p.type()
                    n = (t, p.value(t))
            a = (n, al)
        elif op == 'load':
            p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            p.expect(',')
            p.type()
            ptr = p.value(PTR)
            rng = None
            al = 1
            while p.i < len(p.t):
                k, v = p.next()
                if v == 'align':
                    al = int(p.next()[1])
                if k == 'meta' and v == '!range':
                    rng = self.mod.meta_range(p.next()[1])
                elif k == 'meta' and v == '!noundef':
                    pass
            a = (ptr, al, rng)
        elif op == 'store':
            p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.type()
            ptr = p.value(PTR)
            al = 1
            while p.i < len(p.t):
                k, x = p.next()
                if x == 'align':
                    al = int(p.next()[1])
            a = (v, ptr, al)
        elif op == 'getelementptr':
            inb = False
            while p.pv() in ('inbounds', 'nuw', 'nusw'):
                inb |= p.next()[1] == 'inbounds'
            ety = p.type()
            p.expect(',')
            t = p.type()
            base = p.value(t)
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                t = p.type()
                idx.append((t, p.value(t)))
            a = (ety, base, idx, inb)
            ty = PTR
        elif op in CASTS:
            fl = set()
            while p.pv() in ('nneg', 'nuw', 'nsw'):
                fl.add(p.next()[1])
            st = p.type()
            v = p.value(st)
            p.expect('to')
            ty = p.type()
            a = (op, st, v)
            op = 'cast'
        elif op in BINOPS:
            fl = set()
            while p.pv() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.add(p.next()[1])
            ty = p.type()
            x = p.value(ty)
            p.expect(',')
            y = p.value(ty)
            a = (op, x, y, fl)
            op = 'bin'
        elif op == 'fneg':
            ty = p.type()
            a = p.value(ty)
        elif op in ('icmp', 'fcmp'):
            while p.pv() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            pred = p.next()[1]
            ty = p.type()
            x = p.value(ty)
            p.expect(',')
            y = p.value(ty)
            a = (pred, x, y)
        elif op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            ty = p.type()
            x = p.value(ty)
            p.expect(',')
            p.type()
            y = p.value(ty)
            a = (c, x, y)
        elif op == 'phi':
            ty = p.type()
            inc = {}
            while p.eat('['):
                v = p.value(ty)
                p.expect(',')
                b = p.next()[1][1:]
                p.expect(']')
                inc[b] = v
                p.eat(',')
            a = inc
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                ix.append(int(p.next()[1]))
            a = (t, v, ix)
        elif op == 'insertvalue':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            et = p.type()
            ev = p.value(et)
            ix = []
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                ix.append(int(p.next()[1]))
            a = (v, et, ev, ix)
        elif op == 'extractelement':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            t = p.type()
            a = (v, t, p.value(t))
        elif op == 'insertelement':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            p.expect(',')
            t = p.type()
            a = (v, et, e, t, p.value(t))
        elif op == 'landingpad':
            ty = p.type()
            cl = []
            cleanup = False
            while p.i < len(p.t):
                v = p.next()[1]
                if v == 'cleanup':
                    cleanup = True
                elif v in ('catch', 'filter'):
                    t = p.type()
                    cl.append((v, t, p.value(t)))
            a = (cleanup, cl)
        elif op == 'resume':
            ty = p.type()
            a = p.value(ty)
        elif op == 'unreachable':
            a = ()
        elif op == 'freeze':
            ty = p.type()
            a = p.value(ty)
        elif op == 'fence':
            a = ()
        elif op in ('atomicrmw',):
            p.eat('volatile')
            o = p.next()[1]
            p.type()
            ptr = p.value(PTR)
            p.expect(',')
            ty = p.type()
            v = p.value(ty)
            a = (o, ptr, v)
        else:
            return Instr('unsupported', res, None, (op,), s)
        return Instr(op, res, ty, a, s)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (line)
        self.funcs = {}
        self.decls = {}
        self.attrs = {}
        self.meta = {}
        self.aliases = {}
        self.lay = {}
        self._load(text)

    def _load(self, text):
        lines = text.split('\n')
        # attributes and types first
        fl = []
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                fl.append((ln, lines[i + 1:j]))
                i = j + 1
                continue
            if ln.startswith('declare '):
                fl.append((ln, None))
            elif ln.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attrs[m.group(1)] = set(re.sub(r'"[^"]*"(="[^"]*")?', '', m.group(2)).split())
            elif ln.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                nm = m.group(1)
                if nm[1] == '"':
                    nm = '%' + unesc(nm[2:-1])
                self.types[nm] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
                nm = m.group(1)
                if nm[1] == '"':
                    nm = '@' + unesc(nm[2:-1])
                self.globals[nm] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'(![-a-zA-Z$._0-9]+) = (.*)$', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1
        for h, b in fl:
            m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', h)
            nm = m.group(1)
            if nm[1] == '"':
                nm = '@' + unesc(nm[2:-1])
            if b is None:
                self.decls[nm] = Func(nm, h, None, self)
            else:
                self.funcs[nm] = Func(nm, h, b, self)

    def meta_range(self, name):
        s = self.meta.get(name, '')
        return [(int(w), int(a)) for w, a in re.findall(r'i(\d+) (-?\d+)', s)]

    # ---- layout
    def resolve(self, t):
        if t[0] == 'named':
            d = self.types.get(t[1])
            if isinstance(d, str):
                if d == 'opaque':
                    d = ('opaque',)
                else:
                    d = P(tokenize(d), self).type()
                self.types[t[1]] = d
            if d is None:
                raise ParseError('type ' + t[1])
            return self.resolve(d)
        return t

    def size_align(self, t):
        r = self.lay.get(t)
        if r:
            return r
        r = self._sa(t)
        self.lay[t] = r
        return r

    def _sa(self, t):
        k = t[0]
        if k == 'int':
            n = t[1]
            b = (n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            if b > 16:
                a = 16
            if n == 128:
                return (16, 16)
            b = (b + a - 1) // a * a
            return (b, a)
        if k == 'ptr' or k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'half':
            return (2, 2)
        if k == 'array':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.size_align(t[2])
            s *= t[1]
            a = 1
            while a < s:
                a *= 2
            return (s, a)
        if k == 'named':
            return self.size_align(self.resolve(t))
        if k == 'struct':
            off = 0
            al = 1
            for f in t[2]:
                s, a = self.size_align(f)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        raise ParseError('size of %r' % (t,))

    def field_offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[2]):
            s, a = self.size_align(f)
            if t[1]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise ParseError('field')
