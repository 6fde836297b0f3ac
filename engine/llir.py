"""Parser for the subset of textual LLVM IR (clang 18, -O0) that the C sources compile to.

The IR is produced by clang from /repo's current C sources on every run; nothing here is hand-written
about the code.  Every construct that is not understood raises Unsupported (never silently skipped),
except debug/lifetime intrinsics and attributes.
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
# ints: ('i', n); ('ptr',); ('void',); ('arr', n, T); ('struct', (T...)); ('named', name); ('double',)
class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return max(1, min(8, (t[1] + 7) // 8))
        if t[0] in ('ptr', 'double'):
            return 8
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'struct':
            return max([1] + [self.align(x) for x in t[1]])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return (t[1] + 7) // 8
        if t[0] in ('ptr', 'double'):
            return 8
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'struct':
            o = 0
            for x in t[1]:
                a = self.align(x)
                o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size %r' % (t,))

    def field_off(self, t, k):
        t = self.resolve(t)
        o = 0
        for i, x in enumerate(t[1]):
            a = self.align(x)
            o = (o + a - 1) // a * a
            if i == k:
                return o
            o += self.size(x)
        raise Unsupported('field')


TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|%"[^"]*"|@"[^"]*"|[%@][-A-Za-z0-9_.$]+|"[^"]*"|\#\d+|![A-Za-z0-9_.]*|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+|\.\.\.|[A-Za-z_][A-Za-z0-9_.]*|[\[\]{}()<>,=*:])''')


def toks(line):
    i = line.find(' ;')
    # comments start with ';' outside strings; strings in our IR contain no " ;" except constants (handled by caller)
    out = []
    pos = 0
    n = len(line)
    while pos < n:
        m = TOK.match(line, pos)
        if not m:
            rest = line[pos:].strip()
            if rest == '' or rest.startswith(';'):
                break
            raise Unsupported('token: ' + line[pos:pos + 60])
        out.append(m.group(1))
        pos = m.end()
        if line[pos:].lstrip().startswith(';'):
            break
    return out


PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'immarg', 'returned', 'readnone', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal',
               'inreg', 'tail', 'notail', 'musttail', 'constant', 'global', 'private', 'hidden', 'common',
               'volatile', 'available_externally', 'linkonce_odr', 'external', 'nofree', 'allocptr'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'sret', 'byval', 'dereferenceable_or_null', 'allocsize'}


class P:
    """Token-stream parser"""

    def __init__(self, tk, types):
        self.t = tk
        self.i = 0
        self.types = types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = ('ptr',)
        elif x == 'void':
            t = ('void',)
        elif x == 'double':
            t = ('double',)
        elif x == 'label':
            t = ('label',)
        elif x == 'metadata':
            t = ('metadata',)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type())
                self.eat(',')
            t = ('struct', tuple(fs))
        elif x.startswith('%'):
            t = ('named', x)
        else:
            raise Unsupported('type ' + x)
        return t

    def attrs(self):
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                self.i += 1
            elif p in PARAM_ATTRS_ARG:
                self.i += 1
                if self.eat('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                elif p == 'align':
                    self.next()
            else:
                return

    def value(self, ty):
        """operand of type ty -> ('c', int) | ('r', name) | ('g', name, off) | ('null',) | ('undef',) | ('agg', ...)"""
        x = self.next()
        if x.startswith('%'):
            return ('r', x)
        if x.startswith('@'):
            return ('g', x[1:], 0)
        if re.fullmatch(r'-?\d+', x):
            if ty[0] != 'i':
                raise Unsupported('float const')
            return ('c', int(x) & ((1 << ty[1]) - 1))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x.startswith('c"'):
            s = x[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('bytes', bytes(b))
        if x == '[' or x == '{':
            close = ']' if x == '[' else '}'
            es = []
            while not self.eat(close):
                t = self.type()
                es.append((t, self.value(t)))
                self.eat(',')
            return ('agg', es)
        if x == 'getelementptr':
            self.eat('inbounds')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(('ptr',))
            off = 0
            cur = bt
            first = True
            while self.eat(','):
                t = self.type()
                iv = self.value(t)
                if iv[0] != 'c':
                    raise Unsupported('constexpr gep')
                k = iv[1]
                if k >> (t[1] - 1):
                    k -= 1 << t[1]
                if first:
                    off += k * self.types.size(cur)
                    first = False
                else:
                    rt = self.types.resolve(cur)
                    if rt[0] == 'arr':
                        off += k * self.types.size(rt[2])
                        cur = rt[2]
                    else:
                        off += self.types.field_off(rt, k)
                        cur = rt[1][k]
            self.expect(')')
            if base[0] != 'g':
                raise Unsupported('constexpr gep base')
            return ('g', base[1], base[2] + off)
        raise Unsupported('value ' + x)

    def tval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Instr:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []

    def succs(self):
        t = self.ins[-1]
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'cbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [b for _, b in t.a[3]]
        return []


class Func:
    def __init__(self, name, rett, params, module):
        self.name, self.rett, self.params, self.module = name, rett, params, module
        self.blocks = {}
        self.order = []
        self._cfg = None

    # CFG facts ------------------------------------------------------
    def cfg(self):
        if self._cfg:
            return self._cfg
        entry = self.order[0]
        succ = {b: self.blocks[b].succs() for b in self.order}
        # RPO
        seen, post = set(), []
        st = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = {b: i for i, b in enumerate(reversed(post))}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        nodes = list(reversed(post))
        dom = {b: None for b in nodes}
        dom[entry] = {entry}
        changed = True
        while changed:
            changed = False
            for b in nodes:
                if b == entry:
                    continue
                ps = [dom[p] for p in pred[b] if dom[p] is not None]
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    changed = True
        loops = {}
        for b in nodes:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(pred[x])
                elif rpo[s] <= rpo[b]:
                    raise Unsupported('irreducible control flow in ' + self.name)
        # nest: list of headers from outermost to innermost for each block
        nest = {}
        for b in nodes:
            hs = [h for h in loops if b in loops[h]]
            hs.sort(key=lambda h: (-len(loops[h]), rpo[h]))
            nest[b] = hs
        self._cfg = dict(entry=entry, succ=succ, rpo=rpo, pred=pred, dom=dom, loops=loops, nest=nest)
        return self._cfg


class Global:
    def __init__(self, name, ty, init, const, internal):
        self.name, self.ty, self.init, self.const, self.internal = name, ty, init, const, internal


class Module:
    def __init__(self, name):
        self.name = name
        self.types = Types()
        self.funcs = {}
        self.globals = {}
        self.decls = {}


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse(text, name):
    m = Module(name)
    lines = text.split('\n')
    i = 0
    # pass 1: types
    for ln in lines:
        mm = re.match(r'^(%[-\w.$"]+) = type (.*)$', ln)
        if mm:
            if mm.group(2).startswith('opaque'):
                continue
            m.types.named[mm.group(1)] = P(toks(mm.group(2)), m.types).type()
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('@'):
            _global(m, ln)
        elif ln.startswith('declare'):
            mm = re.search(r'@([-\w.$]+)\(', ln)
            m.decls[mm.group(1)] = ln
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            f = _func(m, ln, lines[i + 1:j])
            m.funcs[f.name] = f
            i = j
        i += 1
    return m


def _global(m, ln):
    mm = re.match(r'^@([-\w.$]+) = (.*)$', ln)
    name, rest = mm.group(1), mm.group(2)
    # split off trailing ", align N"
    p = P(toks(rest), m.types)
    const = internal = external = False
    while True:
        x = p.peek()
        if x in ('dso_local', 'private', 'unnamed_addr', 'local_unnamed_addr', 'common', 'hidden'):
            internal |= x == 'private'
            p.next()
        elif x == 'internal':
            internal = True
            p.next()
        elif x == 'external':
            external = True
            p.next()
        elif x == 'constant':
            const = True
            p.next()
            break
        elif x == 'global':
            p.next()
            break
        else:
            raise Unsupported('global ' + ln[:80])
    ty = p.type()
    init = None
    if not external:
        try:
            init = p.value(ty)
        except Unsupported:
            init = ('unsupported',)
    m.globals[name] = Global(name, ty, init, const, internal)


def _func(m, head, body):
    mm = re.match(r'^define (.*?)@([-\w.$]+)\((.*)\)([^()]*)\{', head)
    pre, name, params = mm.group(1), mm.group(2), mm.group(3)
    internal = 'internal' in pre
    p = P(toks(pre), m.types)
    p.attrs()
    rett = p.type()
    ps = []
    if params.strip():
        p = P(toks(params), m.types)
        while p.peek() is not None:
            if p.peek() == '...':
                p.next()
                continue
            t = p.type()
            p.attrs()
            ps.append((p.next(), t))
            p.eat(',')
    f = Func(name, rett, ps, m)
    f.internal = internal
    cur = None
    k = 0
    while k < len(body):
        ln = body[k]
        k += 1
        s = ln.strip()
        if not s or s.startswith(';'):
            continue
        mm = re.match(r'^([-\w.$]+):', ln)
        if mm:
            cur = Block('%' + mm.group(1))
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block('%entry')
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        if s.startswith('switch'):
            while ']' not in s:
                s += ' ' + body[k].strip()
                k += 1
        ins = _instr(m, s)
        if ins is not None:
            cur.ins.append(ins)
    return f


def _instr(m, s):
    # drop trailing metadata
    s2 = re.sub(r', ![\w.]+ ![\w.]+', '', s)
    tk = toks(s2)
    p = P(tk, m.types)
    dst = None
    if p.peek().startswith('%') and p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'notail', 'musttail'):
        op = p.next()
    if op == 'alloca':
        t = p.type()
        cnt = ('c', 1)
        while p.eat(','):
            if p.peek() == 'align':
                p.next(), p.next()
            else:
                ct = p.type()
                cnt = p.value(ct)
        return Instr('alloca', dst, (t, cnt), s)
    if op == 'load':
        p.eat('volatile')
        t = p.type()
        p.expect(',')
        _, v = p.tval()
        return Instr('load', dst, (t, v), s)
    if op == 'store':
        p.eat('volatile')
        t, v = p.tval()
        p.expect(',')
        _, q = p.tval()
        return Instr('store', None, (t, v, q), s)
    if op == 'getelementptr':
        inb = p.eat('inbounds')
        t = p.type()
        p.expect(',')
        _, base = p.tval()
        idx = []
        while p.eat(','):
            it, iv = p.tval()
            idx.append((it, iv))
        return Instr('gep', dst, (t, base, idx, inb), s)
    if op in BIN:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr('bin', dst, (op, t, a, b, fl), s)
    if op in FBIN or op == 'fneg' or op == 'fcmp' or op in ('uitofp', 'sitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
        return Instr('float', dst, (op,), s)
    if op == 'icmp':
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr('icmp', dst, (pred, t, a, b), s)
    if op in CASTS:
        p.eat('nneg')
        t, v = p.tval()
        p.expect('to')
        t2 = p.type()
        return Instr('cast', dst, (op, t, v, t2), s)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', None, (p.next(),), s)
        t, c = p.tval()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Instr('cbr', None, (c, a, b), s)
    if op == 'switch':
        t, v = p.tval()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct, cv = p.tval()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return Instr('switch', None, (t, v, d, cases), s)
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return Instr('ret', None, (t, None), s)
        p.attrs()
        return Instr('ret', None, (t, p.value(t)), s)
    if op == 'unreachable':
        return Instr('unreachable', None, (), s)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return Instr('phi', dst, (t, inc), s)
    if op == 'select':
        ct, c = p.tval()
        p.expect(',')
        t, a = p.tval()
        p.expect(',')
        t, b = p.tval()
        return Instr('select', dst, (c, t, a, b), s)
    if op == 'call':
        p.attrs()
        rt = p.type()
        if p.peek() == '(':  # vararg function type
            d = 0
            while True:
                x = p.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        callee = p.next()
        p.expect('(')
        args = []
        while not p.eat(')'):
            t = p.type()
            if t[0] == 'metadata':
                raise Unsupported('metadata call')
            p.attrs()
            args.append((t, p.value(t)))
            p.eat(',')
        if callee.startswith('@llvm.lifetime') or callee.startswith('@llvm.dbg'):
            return None
        return Instr('call', dst, (rt, callee, args), s)
    raise Unsupported('instr ' + s)
