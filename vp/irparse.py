"""Parser for the subset of LLVM 18 textual IR that clang emits for this code base.

A module is split into functions on load; a function body is decoded the first time it is
called.  Types are represented as tuples:
  ('i', n) ('f64',) ('f32',) ('f80',) ('ptr',) ('void',) ('arr', n, T) ('st', (T...), packed)
  ('named', name) ('vec', n, T) ('label',) ('meta',)
"""
import re
import struct

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<com>\$(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][-\w.]*)
 | (?P<p>[(){}\[\]<>,=*|:])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError('cannot tokenize: ' + s[pos:pos + 60])
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
        pos = m.end()
    return out


def unq(name):
    """strip sigil and quotes"""
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly',
    'readnone', 'writeonly', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror',
    'noreturn', 'nounwind', 'writable', 'dead_on_unwind', 'inalloca', 'allocptr', 'allocalign',
    'dso_local', 'dso_preemptable', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
    'reassoc', 'unnamed_addr', 'local_unnamed_addr', 'tail', 'musttail', 'notail', 'hidden',
    'protected', 'default', 'ccc', 'fastcc', 'coldcc', 'nobuiltin', 'builtin', 'cold',
    'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'internal', 'private', 'external',
    'available_externally', 'common', 'appending', 'extern_weak',
}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval',
               'elementtype', 'memory', 'preallocated', 'byref', 'range', 'captures', 'nofpclass',
               'initializes', 'allocsize', 'allockind', 'vscale_range'}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r at %r' % (v, self.t[max(0, self.i - 3):self.i + 6]))

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and v in PAREN_ATTRS:
                self.i += 1
                if self.peek()[1] == '(':
                    self.skip_paren()
                elif self.peek()[0] == 'num':
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            elif k == 'str':
                self.i += 1
                if self.acc('='):
                    self.i += 1
            else:
                return

    def skip_paren(self):
        self.exp('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'double':
                t = ('f64',)
            elif v == 'float':
                t = ('f32',)
            elif v == 'x86_fp80':
                t = ('f80',)
            elif v == 'ptr':
                t = ('ptr',)
                if self.peek()[1] == 'addrspace':
                    self.i += 1
                    self.skip_paren()
            elif v == 'void':
                t = ('void',)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'opaque':
                t = ('st', (), False)
            elif v == 'token':
                t = ('void',)
            else:
                raise IRError('type? ' + v)
        elif k == 'loc':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('arr', n, e)
        elif v == '{':
            es = []
            if not self.acc('}'):
                while True:
                    es.append(self.type())
                    if self.acc('}'):
                        break
                    self.exp(',')
            t = ('st', tuple(es), False)
        elif v == '<':
            if self.acc('{'):
                es = []
                if not self.acc('}'):
                    while True:
                        es.append(self.type())
                        if self.acc('}'):
                            break
                        self.exp(',')
                self.exp('>')
                t = ('st', tuple(es), True)
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('vec', n, e)
        else:
            raise IRError('type? %r' % (self.t[self.i - 2:self.i + 5],))
        # function type "T (args)"
        while self.peek()[1] == '(' and k != 'x':
            # function type used in calls of varargs functions
            save = self.i
            try:
                self.i += 1
                args = []
                va = False
                if not self.acc(')'):
                    while True:
                        if self.peek()[0] == 'dots':
                            self.i += 1
                            va = True
                        else:
                            args.append(self.type())
                            self.skip_attrs()
                        if self.acc(')'):
                            break
                        self.exp(',')
                t = ('fn', t, tuple(args), va)
            except IRError:
                self.i = save
                break
        return t

    # ---- values.  returned as ('l',name) ('g',name) ('c', python value) ('z',) ('u',)
    #                ('agg',[...(type,val)]) ('ce', op, ...)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('l', unq(v))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            if ty[0] in ('f64', 'f32', 'f80'):
                return ('c', float(v))
            return ('c', int(v))
        if k == 'hex':
            return ('c', hexfloat(v, ty))
        if k == 'cstr':
            return ('str', cbytes(v))
        if k == 'word':
            if v == 'true':
                return ('c', True)
            if v == 'false':
                return ('c', False)
            if v == 'null':
                return ('null',)
            if v == 'zeroinitializer':
                return ('z',)
            if v in ('undef', 'poison'):
                return ('u',)
            if v == 'none':
                return ('z',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    self.i += 1
                if self.peek()[1] == 'inrange':
                    self.i += 1
                    self.skip_paren()
                self.exp('(')
                bt = self.type()
                self.exp(',')
                pt = self.type()
                pv = self.value(pt)
                idx = []
                while self.acc(','):
                    if self.peek()[1] == 'inrange':
                        self.i += 1
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.exp(')')
                return ('ce', 'gep', bt, pv, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.exp('(')
                ft = self.type()
                fv = self.value(ft)
                self.exp('to')
                tt = self.type()
                self.exp(')')
                return ('ce', v, ft, fv, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.i += 1
                self.exp('(')
                t1 = self.type()
                v1 = self.value(t1)
                self.exp(',')
                t2 = self.type()
                v2 = self.value(t2)
                self.exp(')')
                return ('ce', 'bin', v, t1, v1, v2)
            if v == 'icmp':
                pred = self.next()[1]
                self.exp('(')
                t1 = self.type()
                v1 = self.value(t1)
                self.exp(',')
                t2 = self.type()
                v2 = self.value(t2)
                self.exp(')')
                return ('ce', 'icmp', pred, t1, v1, v2)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            raise IRError('value? ' + v)
        if v == '{' or v == '[':
            close = '}' if v == '{' else ']'
            es = []
            if not self.acc(close):
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.acc(close):
                        break
                    self.exp(',')
            return ('agg', es)
        if v == '<':
            if self.acc('{'):
                es = []
                if not self.acc('}'):
                    while True:
                        t = self.type()
                        es.append((t, self.value(t)))
                        if self.acc('}'):
                            break
                        self.exp(',')
                self.exp('>')
                return ('agg', es)
            es = []
            while True:
                t = self.type()
                es.append((t, self.value(t)))
                if self.acc('>'):
                    break
                self.exp(',')
            return ('agg', es)
        raise IRError('value? %r' % (self.t[self.i - 2:self.i + 5],))


def hexfloat(v, ty):
    if v.startswith('0xK'):
        b = int(v[3:], 16)
        sign = -1 if b >> 79 else 1
        e = (b >> 64) & 0x7fff
        m = b & ((1 << 64) - 1)
        if e == 0 and m == 0:
            return 0.0
        if e == 0x7fff:
            return float('inf') * sign
        return sign * m * 2.0 ** (e - 16383 - 63)
    return struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]


def cbytes(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'mod', 'ret', 'params', 'vararg', 'body', 'blocks', 'nregs', 'internal',
                 'code', 'entry', 'sret', 'tmpl')


class Global:
    __slots__ = ('name', 'mod', 'type', 'init', 'internal', 'const', 'external', 'obj', 'toks')


LINK_INTERNAL = {'internal', 'private'}


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = {}
        self.functions = {}
        self.globals = {}
        self.decls = {}
        self.aliases = {}
        self._split(text)
        self._size = {}

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                if m:
                    nm = m.group(1).strip('"')
                    self.decls[nm] = ln
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('%') and ' = type ' in ln:
                a, b = ln.split(' = type ', 1)
                self.types[unq(a.strip())] = P(tokenize(b)).type()
            i += 1

    def _define(self, ln, body):
        f = Function()
        f.mod = self
        toks = tokenize(ln[7:].rsplit('{', 1)[0])
        f.internal = any(k == 'word' and v in LINK_INTERNAL for k, v in toks[:6])
        p = P(toks)
        p.skip_attrs()
        f.sret = None
        # return type cannot greedily take the parameter list
        f.ret = p.type()
        k, v = p.next()
        f.name = unq(v)
        p.exp('(')
        f.params = []
        f.vararg = False
        if not p.acc(')'):
            while True:
                if p.peek()[0] == 'dots':
                    p.next()
                    f.vararg = True
                else:
                    t = p.type()
                    p.skip_attrs()
                    nm = None
                    if p.peek()[0] == 'loc':
                        nm = unq(p.next()[1])
                    f.params.append((t, nm))
                if p.acc(')'):
                    break
                p.exp(',')
        f.body = body
        f.blocks = None
        f.code = None
        self.functions[f.name] = f

    def _global(self, ln):
        m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = (.*)$', ln)
        name = unq(m.group(1))
        rest = m.group(2)
        toks = tokenize(rest)
        words = [v for k, v in toks[:8]]
        if 'alias' in words:
            p = P(toks)
            while p.peek()[1] != 'alias':
                p.next()
            p.next()
            p.type()
            p.exp(',')
            t = p.type()
            self.aliases[name] = p.value(t)
            return
        if 'ifunc' in words:
            return
        g = Global()
        g.name = name
        g.mod = self
        g.obj = None
        g.internal = False
        g.external = False
        p = P(toks)
        while True:
            k, v = p.next()
            if v in ('global', 'constant'):
                g.const = v == 'constant'
                break
            if v in LINK_INTERNAL:
                g.internal = True
            if v in ('external', 'extern_weak'):
                g.external = True
            if v in ('thread_local', 'addrspace') and p.peek()[1] == '(':
                p.skip_paren()
        g.type = p.type()
        g.toks = p
        g.init = None
        if not g.external:
            g.init = ('lazy',)
        self.globals[name] = g

    def global_init(self, g):
        if g.init == ('lazy',):
            g.init = g.toks.value(g.type)
        return g.init

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._size.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            r = (b, min(b, 16))
        elif k == 'f64' or k == 'ptr':
            r = (8, 8)
        elif k == 'f32':
            r = (4, 4)
        elif k == 'f80':
            r = (16, 16)
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'named':
            r = self.size_align(self.types[t[1]])
        elif k == 'st':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'fn':
            r = (1, 1)
        else:
            raise IRError('size of %r' % (t,))
        self._size[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise IRError('field')


def split_blocks(f):
    """Return list of (label, [instruction text]) with continuation lines joined."""
    blocks = []
    cur = []
    # entry label: number of unnamed params or explicit label
    label = None
    lines = f.body
    i = 0
    n = len(lines)
    first = True
    while i < n:
        ln = lines[i]
        s = ln.strip()
        if not s or s.startswith(';'):
            i += 1
            continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
        if m and not ln.startswith(' '):
            if not first or cur:
                blocks.append((label, cur))
            label = m.group(1).strip('"')
            cur = []
            first = False
            i += 1
            continue
        first = False
        if ' switch ' in ' ' + s and s.rstrip().endswith('['):
            while not lines[i].strip().startswith(']'):
                i += 1
                s += ' ' + lines[i].strip()
        elif re.search(r'(^|= )invoke ', s):
            i += 1
            s += ' ' + lines[i].strip()
        elif re.search(r'(^|= )landingpad ', s):
            while i + 1 < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i + 1]):
                i += 1
                s += ' ' + lines[i].strip()
        cur.append(s)
        i += 1
    blocks.append((label, cur))
    if blocks[0][0] is None:
        # implicit entry label = next unnamed number
        cnt = sum(1 for t, nm in f.params if nm is None or nm.isdigit())
        blocks[0] = (str(cnt), blocks[0][1])
    return blocks
