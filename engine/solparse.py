"""Parser for the Solidity and Yul of /repo (functions, contracts, structs, constants, inline assembly)."""
import os
import re

TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<hexs>hex"[0-9a-fA-F_]*"|hex'[0-9a-fA-F_]*')
 |(?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
 |(?P<num>0[xX][0-9a-fA-F_]+|[0-9][0-9_]*(?:[eE][0-9]+)?)
 |(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
 |(?P<op>>>>=|<<=|>>=|>>>|\*\*|:=|=>|->|\+\+|--|\+=|-=|\*=|/=|%=|\|=|&=|\^=|==|!=|<=|>=|&&|\|\||<<|>>|[-+*/%&|^~!<>=?:;,.(){}\[\]])
''', re.X | re.S)


class SolError(Exception):
    pass


class Unsupported(SolError):
    pass


class N:
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s(%s)' % (self.k, ', '.join('%s=%r' % (a, b) for a, b in self.__dict__.items() if a not in ('k', 'line')))


ELEM = re.compile(r'^(u?int\d*|bytes\d*|address|bool|string)$')
VIS = {'public', 'private', 'internal', 'external', 'pure', 'view', 'payable', 'virtual', 'override', 'constant', 'immutable'}
LOC = {'memory', 'storage', 'calldata'}

PREC = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('|',), ('^',), ('&',), ('<<', '>>'), ('+', '-'), ('*', '/', '%')]
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}


def unstring(t):
    body = t[1:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c != '\\':
            out += c.encode()
            i += 1
            continue
        d = body[i + 1]
        if d == 'x':
            out.append(int(body[i + 2:i + 4], 16))
            i += 4
        elif d == 'u':
            out += chr(int(body[i + 2:i + 6], 16)).encode()
            i += 6
        elif d in '\n':
            i += 2
        else:
            out += {'n': b'\n', 't': b'\t', 'r': b'\r', '0': b'\0'}.get(d, d.encode())
            i += 2
    return bytes(out)


class Parser:
    def __init__(self, text, name):
        self.name = name
        self.toks = []
        pos = 0
        line = 1
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise SolError('%s: line %d: cannot read %r' % (name, line, text[pos:pos + 20]))
            if m.lastgroup != 'ws':
                self.toks.append((m.lastgroup, m.group(), line))
            line += m.group().count('\n')
            pos = m.end()
        self.toks.append(('eof', '', line))
        self.p = 0

    # --- tokens
    @property
    def t(self):
        return self.toks[self.p][1]

    @property
    def kind(self):
        return self.toks[self.p][0]

    @property
    def line(self):
        return self.toks[self.p][2]

    def err(self, msg):
        raise SolError('%s: line %d: %s (at %r)' % (self.name, self.line, msg, self.t))

    def next(self):
        t = self.t
        self.p += 1
        return t

    def isop(self, s):
        return self.t == s and self.kind in ('op', 'id')

    def acc(self, s):
        if self.isop(s):
            self.p += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            self.err('expected %r' % s)

    def ident(self):
        if self.kind != 'id':
            self.err('expected an identifier')
        return self.next()

    # --- files
    def file(self):
        items = []
        while self.kind != 'eof':
            if self.t == 'pragma':
                while not self.acc(';'):
                    self.p += 1
            elif self.t == 'import':
                names = None
                self.next()
                if self.acc('{'):
                    names = []
                    while not self.acc('}'):
                        a = self.ident()
                        b = a
                        if self.acc('as'):
                            b = self.ident()
                        names.append((a, b))
                        self.acc(',')
                    self.exp('from')
                path = unstring(self.next())
                self.exp(';')
                items.append(N('import', path=path.decode(), names=names))
            elif self.t in ('contract', 'interface', 'library', 'abstract'):
                items.append(self.contract())
            elif self.t == 'struct':
                items.append(self.struct())
            elif self.t == 'function':
                items.append(self.function())
            elif self.t in ('error', 'event', 'using'):
                while not self.acc(';'):
                    self.p += 1
            else:
                items.append(self.statevar())
        return items

    def contract(self):
        if self.t == 'abstract':
            self.next()
        kind = self.next()
        c = N('contract', kind=kind, name=self.ident(), bases=[], items=[], line=self.line)
        if self.acc('is'):
            while True:
                c.bases.append(self.ident())
                if self.acc('('):
                    while not self.acc(')'):
                        self.p += 1
                if not self.acc(','):
                    break
        self.exp('{')
        while not self.acc('}'):
            if self.t == 'struct':
                c.items.append(self.struct())
            elif self.t in ('function', 'constructor', 'receive', 'fallback', 'modifier'):
                c.items.append(self.function())
            elif self.t in ('event', 'error', 'using'):
                while not self.acc(';'):
                    self.p += 1
            else:
                c.items.append(self.statevar())
        return c

    def struct(self):
        self.next()
        s = N('struct', name=self.ident(), fields=[])
        self.exp('{')
        while not self.acc('}'):
            ty = self.type()
            s.fields.append((ty, self.ident()))
            self.exp(';')
        return s

    def params(self):
        out = []
        self.exp('(')
        while not self.acc(')'):
            ty = self.type()
            loc = None
            while self.t in LOC:
                loc = self.next()
            name = self.ident() if self.kind == 'id' else None
            out.append((ty, loc, name))
            self.acc(',')
        return out

    def function(self):
        kw = self.next()
        line = self.line
        name = self.ident() if kw in ('function', 'modifier') and self.kind == 'id' else kw
        ps = self.params() if self.t == '(' else []
        rets = []
        mods = []
        while self.t not in ('{', ';'):
            if self.acc('returns'):
                rets = self.params()
            elif self.t in VIS:
                mods.append(self.next())
                if mods[-1] == 'override' and self.t == '(':
                    self.params()
            else:
                mods.append(self.ident())
                if self.acc('('):
                    d = 1
                    while d:
                        d += {'(': 1, ')': -1}.get(self.t, 0)
                        self.next()
        body = None if self.acc(';') else self.block()
        return N('function', name=name, params=ps, rets=rets, mods=mods, body=body, line=line)

    def statevar(self):
        line = self.line
        ty = self.type()
        const = False
        while self.t in VIS or self.t in LOC:
            const |= self.next() in ('constant', 'immutable')
        name = self.ident()
        init = None
        if self.acc('='):
            init = self.expr()
        self.exp(';')
        return N('var', ty=ty, name=name, init=init, const=const, line=line)

    # --- types: tuples ('elem', name) ('array', t, n|None) ('map', k, v) ('user', name)
    def type(self):
        if self.t == 'mapping':
            self.next()
            self.exp('(')
            a = self.type()
            if self.kind == 'id' and self.t != '=>':
                self.next()
            self.exp('=>')
            b = self.type()
            if self.kind == 'id':
                self.next()
            self.exp(')')
            ty = ('map', a, b)
        else:
            name = self.ident()
            if name == 'uint':
                name = 'uint256'
            if name == 'int':
                name = 'int256'
            while self.t == '.':
                self.next()
                name = self.ident()
            ty = ('elem', name) if ELEM.match(name) else ('user', name)
            if name == 'address' and self.t == 'payable':
                self.next()
        while self.isop('['):
            self.next()
            n = None
            if not self.isop(']'):
                n = self.expr()
            self.exp(']')
            ty = ('array', ty, n)
        return ty

    # --- statements
    def block(self, unchecked=False):
        line = self.line
        self.exp('{')
        ss = []
        while not self.acc('}'):
            ss.append(self.stmt())
        return N('block', body=ss, unchecked=unchecked, line=line)

    def stmt(self):
        s = self._stmt()
        return s

    def _stmt(self):
        line = self.line
        t = self.t
        if t == '{':
            return self.block()
        if t == 'unchecked' and self.toks[self.p + 1][1] == '{':
            self.next()
            return self.block(True)
        if t == 'if':
            self.next()
            self.exp('(')
            c = self.expr()
            self.exp(')')
            a = self.stmt()
            b = self.stmt() if self.acc('else') else None
            return N('if', cond=c, then=a, els=b, line=line)
        if t == 'while':
            self.next()
            self.exp('(')
            c = self.expr()
            self.exp(')')
            return N('loop', init=None, cond=c, post=None, body=self.stmt(), line=line, pre=True)
        if t == 'do':
            self.next()
            b = self.stmt()
            self.exp('while')
            self.exp('(')
            c = self.expr()
            self.exp(')')
            self.exp(';')
            return N('loop', init=None, cond=c, post=None, body=b, line=line, pre=False)
        if t == 'for':
            self.next()
            self.exp('(')
            init = None if self.acc(';') else self.simple()
            c = None if self.isop(';') else self.expr()
            self.exp(';')
            post = None if self.isop(')') else N('expr', e=self.expr(), line=line)
            self.exp(')')
            return N('loop', init=init, cond=c, post=post, body=self.stmt(), line=line, pre=True)
        if t == 'return':
            self.next()
            e = None if self.isop(';') else self.expr()
            self.exp(';')
            return N('return', e=e, line=line)
        if t in ('break', 'continue'):
            self.next()
            self.exp(';')
            return N(t, line=line)
        if t == 'assembly':
            self.next()
            if self.kind == 'str':
                self.next()
            if self.acc('('):
                while not self.acc(')'):
                    self.next()
            return N('asm', body=self.yblock(), line=line)
        if t == 'emit':
            while not self.acc(';'):
                self.next()
            return N('block', body=[], unchecked=False, line=line)
        return self.simple()

    def simple(self):
        """declaration or expression, with its semicolon"""
        line = self.line
        save = self.p
        if self.isop('('):
            # tuple declaration?
            try:
                self.next()
                vs = []
                decl = False
                while not self.acc(')'):
                    if self.isop(','):
                        vs.append(None)
                        self.next()
                        continue
                    ty = self.type()
                    loc = self.next() if self.t in LOC else None
                    name = self.ident()
                    vs.append((ty, loc, name))
                    decl = True
                    if not self.isop(')'):
                        self.exp(',')
                        if self.isop(')'):
                            vs.append(None)
                if decl and self.acc('='):
                    e = self.expr()
                    self.exp(';')
                    return N('tdecl', vars=vs, e=e, line=line)
            except SolError:
                pass
            self.p = save
        elif self.kind == 'id' and self.t not in ('new', 'this', 'delete', 'true', 'false'):
            try:
                ty = self.type()
                loc = self.next() if self.t in LOC else None
                name = self.ident()
                if self.t in ('=', ';'):
                    e = self.expr() if self.acc('=') else None
                    self.exp(';')
                    return N('decl', ty=ty, loc=loc, name=name, e=e, line=line)
            except SolError:
                pass
            self.p = save
        e = self.expr()
        self.exp(';')
        return N('expr', e=e, line=line)

    # --- expressions
    def expr(self):
        line = self.line
        a = self.ternary()
        if self.kind == 'op' and self.t in ASSIGN:
            op = self.next()
            b = self.expr()
            return N('assign', op=op[:-1], lhs=a, rhs=b, line=line)
        return a

    def ternary(self):
        line = self.line
        c = self.binary(0)
        if self.isop('?'):
            self.next()
            a = self.expr()
            self.exp(':')
            b = self.expr()
            return N('cond', c=c, a=a, b=b, line=line)
        return c

    def binary(self, lvl):
        if lvl == len(PREC):
            return self.power()
        a = self.binary(lvl + 1)
        while self.kind == 'op' and self.t in PREC[lvl]:
            line = self.line
            op = self.next()
            b = self.binary(lvl + 1)
            a = N('bin', op=op, a=a, b=b, line=line)
        return a

    def power(self):
        a = self.unary()
        if self.isop('**'):
            line = self.line
            self.next()
            return N('bin', op='**', a=a, b=self.power(), line=line)
        return a

    def unary(self):
        line = self.line
        if self.kind == 'op' and self.t in ('!', '~', '-', '++', '--'):
            op = self.next()
            e = self.unary()
            if op in ('++', '--'):
                return N('incdec', op=op, pre=True, e=e, line=line)
            return N('un', op=op, e=e, line=line)
        if self.t == 'delete':
            self.next()
            return N('un', op='delete', e=self.unary(), line=line)
        return self.postfix()

    def args(self):
        self.exp('(')
        out = []
        if self.isop('{'):
            self.err('named arguments')
        while not self.acc(')'):
            out.append(self.expr())
            if not self.isop(')'):
                self.exp(',')
        return out

    def postfix(self):
        line = self.line
        e = self.primary()
        while True:
            if self.isop('.'):
                self.next()
                e = N('member', e=e, name=self.ident(), line=line)
            elif self.isop('['):
                self.next()
                if self.acc(']'):
                    e = N('tarray', e=e, line=line)
                    continue
                i = self.expr()
                if self.isop(':'):
                    self.err('slices')
                self.exp(']')
                e = N('index', e=e, i=i, line=line)
            elif self.isop('('):
                e = N('call', f=e, args=self.args(), line=line)
            elif self.isop('{') and e.k == 'member':
                self.err('call options')
            elif self.kind == 'op' and self.t in ('++', '--'):
                e = N('incdec', op=self.next(), pre=False, e=e, line=line)
            else:
                return e

    def primary(self):
        line = self.line
        k, t = self.kind, self.t
        if k == 'num':
            self.next()
            t = t.replace('_', '')
            if t[:2].lower() == '0x':
                return N('num', v=int(t, 16), hexlen=len(t) - 2, line=line)
            if 'e' in t.lower():
                a, b = t.lower().split('e')
                return N('num', v=int(a) * 10 ** int(b), hexlen=0, line=line)
            return N('num', v=int(t), hexlen=0, line=line)
        if k == 'str':
            out = b''
            while self.kind == 'str':
                out += unstring(self.next())
            return N('str', v=out, line=line)
        if k == 'hexs':
            out = b''
            while self.kind == 'hexs':
                out += bytes.fromhex(self.next()[4:-1].replace('_', ''))
            return N('str', v=out, line=line)
        if t == '(':
            self.next()
            es = []
            comma = False
            while not self.acc(')'):
                if self.isop(','):
                    self.next()
                    es.append(None)
                    comma = True
                    continue
                es.append(self.expr())
                if not self.isop(')'):
                    self.exp(',')
                    comma = True
                    if self.isop(')'):
                        es.append(None)
            if len(es) == 1 and not comma:
                return N('paren', e=es[0], line=line)
            return N('tuple', es=es, line=line)
        if t == '[':
            self.next()
            es = []
            while not self.acc(']'):
                es.append(self.expr())
                if not self.isop(']'):
                    self.exp(',')
            return N('alit', es=es, line=line)
        if t == 'new':
            self.next()
            return N('new', ty=self.type(), line=line)
        if t in ('true', 'false'):
            self.next()
            return N('bool', v=t == 'true', line=line)
        if k == 'id':
            self.next()
            if t == 'uint':
                t = 'uint256'
            if t == 'int':
                t = 'int256'
            if ELEM.match(t):
                return N('type', ty=('elem', t), line=line)
            return N('id', name=t, line=line)
        self.err('unexpected')

    # --- Yul
    def yblock(self):
        line = self.line
        self.exp('{')
        ss = []
        while not self.acc('}'):
            ss.append(self.ystmt())
        return N('yblock', body=ss, line=line)

    def ystmt(self):
        line = self.line
        t = self.t
        if t == '{':
            return self.yblock()
        if t == 'let':
            self.next()
            vs = [self.ident()]
            while self.acc(','):
                vs.append(self.ident())
            e = self.yexpr() if self.acc(':=') else None
            return N('ylet', vars=vs, e=e, line=line)
        if t == 'if':
            self.next()
            c = self.yexpr()
            return N('yif', cond=c, then=self.yblock(), line=line)
        if t == 'for':
            self.next()
            init = self.yblock()
            c = self.yexpr()
            post = self.yblock()
            return N('yfor', init=init, cond=c, post=post, body=self.yblock(), line=line)
        if t == 'switch':
            self.next()
            e = self.yexpr()
            cases = []
            default = None
            while self.t in ('case', 'default'):
                if self.next() == 'case':
                    v = self.yexpr()
                    cases.append((v, self.yblock()))
                else:
                    default = self.yblock()
            return N('yswitch', e=e, cases=cases, default=default, line=line)
        if t == 'function':
            self.next()
            name = self.ident()
            self.exp('(')
            ps, rs = [], []
            while not self.acc(')'):
                ps.append(self.ident())
                self.acc(',')
            if self.acc('->'):
                rs.append(self.ident())
                while self.acc(','):
                    rs.append(self.ident())
            return N('yfun', name=name, params=ps, rets=rs, body=self.yblock(), line=line)
        if t in ('break', 'continue', 'leave'):
            self.next()
            return N('y' + t, line=line)
        e = self.yexpr()
        if e.k == 'yid' and (self.isop(':=') or self.isop(',')):
            vs = [e.name]
            while self.acc(','):
                vs.append(self.ident())
            self.exp(':=')
            return N('yassign', vars=vs, e=self.yexpr(), line=line)
        return N('yexpr', e=e, line=line)

    def yexpr(self):
        line = self.line
        k, t = self.kind, self.t
        if k == 'num':
            self.next()
            return N('ynum', v=int(t, 0) if t[:2].lower() == '0x' else int(t), line=line)
        if k == 'str':
            self.next()
            return N('ynum', v=int.from_bytes(unstring(t).ljust(32, b'\0'), 'big'), line=line)
        if k == 'hexs':
            self.next()
            return N('ynum', v=int.from_bytes(bytes.fromhex(t[4:-1]).ljust(32, b'\0'), 'big'), line=line)
        if t in ('true', 'false'):
            self.next()
            return N('ynum', v=int(t == 'true'), line=line)
        name = self.ident()
        while self.isop('.'):
            self.next()
            name += '.' + self.ident()
        if self.isop('('):
            self.next()
            a = []
            while not self.acc(')'):
                a.append(self.yexpr())
                if not self.isop(')'):
                    self.exp(',')
            return N('ycall', f=name, args=a, line=line)
        return N('yid', name=name, line=line)


_CACHE = {}


def parse(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _CACHE:
        with open(path, encoding='utf-8') as f:
            _CACHE[key] = Parser(f.read(), os.path.basename(path)).file()
    return _CACHE[key]
