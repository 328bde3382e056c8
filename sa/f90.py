"""Front end for the Fortran kernels: parser for the subset of Fortran 90 used
by igalib.f90 and an abstract interpreter over the value-number and order
domains (reals are `Sc`, integers and logicals are exact)."""
import operator
import re
import struct
from fractions import Fraction
from . import core
from .core import Sc, sc, PATH, Unmodelled

TOK = re.compile(r"""\s*(?:
  (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[ed][-+]?\d+)?(?:_\w+)?(?![\w.]*\.(?:and|or|eq)))
 |(?P<dot>\.(?:and|or|not|eqv|neqv|true|false|eq|ne|lt|le|gt|ge)\.)
 |(?P<name>[a-z]\w*)
 |(?P<str>'[^']*'|"[^"]*")
 |(?P<op>\*\*|==|/=|<=|>=|=>|::|\(/|/\)|[-+*/()<>=,:%\[\]])
)""", re.X)


class ParseError(Unmodelled):
    pass


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        if s[i:].strip() == '':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise ParseError('fortran token at %r' % s[i:i + 30])
        k = m.lastgroup
        v = m.group(k)
        if k == 'num':
            # 1.and. style ambiguity is not used
            pass
        out.append((k, v))
        i = m.end()
    return out


def logical_lines(text):
    """(lineno, statement) with comments removed and continuations joined,
    lower case outside strings"""
    cur, start = '', None
    for no, raw in enumerate(text.split('\n'), 1):
        line, q = '', None
        for ch in raw:
            if q:
                line += ch
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
                line += ch
            elif ch == '!':
                break
            else:
                line += ch.lower()
        line = line.strip()
        if not line:
            continue
        if line.startswith('&'):
            line = line[1:].strip()
        if start is None:
            start = no
        if line.endswith('&'):
            cur += line[:-1] + ' '
            continue
        cur += line
        for st in split_semi(cur):
            if st.strip():
                yield start, st.strip()
        cur, start = '', None


def split_semi(s):
    out, q, cur = [], None, ''
    for ch in s:
        if q:
            cur += ch
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
            cur += ch
        elif ch == ';':
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


class P(object):
    """expression parser"""

    def __init__(self, s):
        self.s = s
        self.t = tokenize(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def take(self, x=None):
        v = self.peek()
        if v is None or (x is not None and v != x):
            raise ParseError('expected %r in %r' % (x, self.s))
        self.i += 1
        return v

    def end(self):
        return self.i >= len(self.t)

    def expr(self):
        a = self.orx()
        while self.peek() in ('.eqv.', '.neqv.'):
            o = self.take()
            a = ('bin', o, a, self.orx())
        return a

    def orx(self):
        a = self.andx()
        while self.peek() == '.or.':
            self.take()
            a = ('or', a, self.andx())
        return a

    def andx(self):
        a = self.notx()
        while self.peek() == '.and.':
            self.take()
            a = ('and', a, self.notx())
        return a

    def notx(self):
        if self.peek() == '.not.':
            self.take()
            return ('not', self.notx())
        return self.rel()

    REL = {'==': 'eq', '/=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt',
           '>=': 'ge', '.eq.': 'eq', '.ne.': 'ne', '.lt.': 'lt',
           '.le.': 'le', '.gt.': 'gt', '.ge.': 'ge'}

    def rel(self):
        a = self.add()
        if self.peek() in self.REL and self.kind() in ('op', 'dot'):
            o = self.REL[self.take()]
            return ('rel', o, a, self.add())
        return a

    def add(self):
        if self.peek() in ('+', '-'):
            o = self.take()
            a = self.mul()
            if o == '-':
                a = ('neg', a)
        else:
            a = self.mul()
        while self.peek() in ('+', '-'):
            o = self.take()
            a = ('bin', o, a, self.mul())
        return a

    def mul(self):
        a = self.pow()
        while self.peek() in ('*', '/'):
            o = self.take()
            a = ('bin', o, a, self.pow())
        return a

    def pow(self):
        a = self.atom()
        if self.peek() == '**':
            self.take()
            if self.peek() == '-':
                self.take()
                return ('bin', '**', a, ('neg', self.pow()))
            return ('bin', '**', a, self.pow())
        return a

    def atom(self):
        k, v = self.t[self.i] if self.i < len(self.t) else (None, None)
        if k == 'num':
            self.i += 1
            return number(v)
        if k == 'str':
            self.i += 1
            return ('str', v[1:-1])
        if v in ('.true.', '.false.'):
            self.i += 1
            return ('lit', v == '.true.')
        if v == '(':
            self.take()
            e = self.expr()
            self.take(')')
            return ('par', e)
        if v in ('(/', '['):
            self.take()
            end = '/)' if v == '(/' else ']'
            xs = []
            if '::' in self.t_text():
                at = self.i
                while self.i < len(self.t) and self.peek() not in ('::', ':',
                                                                   end):
                    self.i += 1
                if self.peek() == '::':
                    self.take()
                elif self.peek() == ':' and self.peek(1) == ':':
                    self.take()
                    self.take()
                else:
                    self.i = at
            while self.peek() != end:
                xs.append(self.item())
                if self.peek() == ',':
                    self.take()
            self.take(end)
            return ('arr', xs)
        if k == 'name':
            self.i += 1
            e = ('var', v)
            if self.peek() == '(':
                e = ('ref', v, self.args())
            if self.peek() == '%':
                raise ParseError('derived types')
            return e
        raise ParseError('expression %r' % self.s)

    def t_text(self):
        return ''.join(str(v) for k, v in self.t[self.i:])

    def item(self):
        """element of an array constructor, possibly an implied do"""
        at = self.i
        if self.peek() == '(':
            self.take()
            xs = [self.item()]
            loop = None
            while self.peek() == ',':
                self.take()
                if self.kind() == 'name' and self.peek(1) == '=':
                    n = self.take()
                    self.take('=')
                    loop = [self.expr()]
                    while self.peek() == ',':
                        self.take()
                        loop.append(self.expr())
                    break
                xs.append(self.item())
            if loop is not None and self.peek() == ')' and \
                    len(loop) in (2, 3):
                self.take()
                return ('impl', n, loop, xs)
            self.i = at
        return self.expr()

    def args(self):
        self.take('(')
        out = []
        while self.peek() != ')':
            out.append(self.arg())
            if self.peek() == ',':
                self.take()
            elif self.peek() != ')':
                raise ParseError('arguments in %r' % self.s)
        self.take(')')
        return out

    def arg(self):
        if self.kind() == 'name' and self.peek(1) == '=' :
            n = self.take()
            self.take('=')
            return ('kw', n, self.expr())
        lo = hi = st = None
        if self.peek() != ':':
            lo = self.expr()
            if self.peek() != ':':
                return lo
        self.take(':')
        if self.peek() not in (',', ')', ':'):
            hi = self.expr()
        if self.peek() == ':':
            self.take()
            st = self.expr()
        return ('slice', lo, hi, st)


def number(v):
    kind = None
    if '_' in v:
        v, kind = v.split('_')
    if re.match(r'^\d+$', v):
        return ('int', int(v))
    m = re.match(r'^([\d.]+)(?:([ed])([-+]?\d+))?$', v)
    x = Fraction(m.group(1)) * Fraction(10) ** int(m.group(3) or 0)
    if kind is None:
        return ('real', x, '8') if m.group(2) == 'd' else \
            ('real', single(x), '4')
    if kind.isdigit():
        return ('real', single(x) if kind == '4' else x, kind)
    return ('realk', x, kind)


def single(x):
    """a default real literal has single precision"""
    return Fraction(struct.unpack('f', struct.pack('f', float(x)))[0])


class Decl(object):
    def __init__(self, type_):
        self.type = type_
        self.dims = None       # [(lo expr, hi expr)]
        self.intent = None
        self.optional = False
        self.param = None
        self.line = 0
        self.alloc = False
        self.kind = None
        self.const = False
        self.saved = False      # keeps its value between calls


class Unit(object):
    def __init__(self, kind, name, args, result, module, line):
        self.kind = kind
        self.name = name
        self.args = args
        self.result = result
        self.module = module
        self.line = line
        self.decls = {}
        self.body = []
        self.uses = []
        self.broken = None      # why the routine is not analysed
        self.contains = {}
        self.parent = None

    def qual(self):
        if self.parent is not None:
            return self.parent.qual() + '.' + self.name
        return '%s.%s' % (self.module.name, self.name)


class Mod(object):
    def __init__(self, name):
        self.name = name
        self.units = {}
        self.uses = []
        self.decls = {}         # constants and variables of the module


SUBR = re.compile(r'^((?:pure|impure|elemental|recursive)\s+)*'
                  r'(subroutine|(?:(?:real|integer|logical)\s*(?:\([^)]*\))?'
                  r'\s+)?function)\s+(\w+)\s*(?:\(([^)]*)\))?\s*'
                  r'(?:result\s*\((\w+)\))?$')


class Parser(object):
    def __init__(self, text):
        self.lines = list(logical_lines(text))
        self.i = 0
        self.mods = {}

    def peek(self):
        return self.lines[self.i][1] if self.i < len(self.lines) else None

    def next(self):
        r = self.lines[self.i]
        self.i += 1
        return r

    def parse(self):
        while self.i < len(self.lines):
            no, s = self.next()
            m = re.match(r'^module\s+(\w+)$', s)
            if not m:
                raise ParseError('line %d: %r' % (no, s))
            mod = Mod(m.group(1))
            self.mods[mod.name] = mod
            self.module(mod)
        return self.mods

    def module(self, mod):
        while True:
            no, s = self.next()
            if re.match(r'^end\s*(module(\s+\w+)?)?$', s):
                return
            if s == 'contains' or s == 'implicit none':
                continue
            m = re.match(r'^use\s+(.*)$', s)
            if m:
                mod.uses.append(use(m.group(1)))
                continue
            if s in ('private', 'public') or s.startswith(('public ',
                                                           'private ')):
                continue
            u = self.unit_head(no, s, mod)
            if u is None:
                if self.isdecl(s):
                    self.decl(mod, no, s)
                    continue
                raise ParseError('line %d: module level %r' % (no, s))
            self.whole(u)
            mod.units[u.name] = u

    DECL = re.compile(r'^(real|integer|logical|double\s+precision)\b')

    def isdecl(self, s):
        return self.DECL.match(s) and not re.match(
            r'^\w+\s*(\([^)]*\))?\s*=[^=]', s)

    def whole(self, u):
        """a unit; one that is not understood is skipped and marked"""
        at = self.i
        try:
            self.unit(u)
            return
        except (ParseError, ValueError, IndexError, AttributeError,
                TypeError) as e:
            u.broken = str(e)
        self.i, depth = at, 0
        while True:
            no, s = self.next()
            if SUBR.match(s):
                depth += 1
            elif re.match(r'^end\s*((subroutine|function)(\s+\w+)?)?$', s):
                if depth == 0:
                    return
                depth -= 1
            elif re.match(r'^end\s*module', s):
                raise ParseError('line %d: %s' % (no, u.broken))

    def unit_head(self, no, s, mod):
        m = SUBR.match(s)
        if not m:
            return None
        kind = 'sub' if m.group(2) == 'subroutine' else 'func'
        args = [a.strip() for a in (m.group(4) or '').split(',') if a.strip()]
        u = Unit(kind, m.group(3), args,
                 m.group(5) or (m.group(3) if kind == 'func' else None),
                 mod, no)
        pre = m.group(2)
        if kind == 'func' and not pre.startswith('function'):
            m2 = re.match(r'^(\w+)\s*(?:\(\s*(?:kind\s*=)?\s*(\w+)\s*\))?',
                          pre)
            d = Decl(m2.group(1))
            d.kind = m2.group(2)
            d.line = no
            u.decls[u.result] = d
        return u

    def unit(self, u):
        # specification part
        while True:
            s = self.peek()
            if s is None:
                raise ParseError('unexpected end of file')
            if s == 'implicit none':
                self.next()
                continue
            m = re.match(r'^use\s+(.*)$', s)
            if m:
                u.uses.append(use(m.group(1)))
                self.next()
                continue
            if re.match(r'^(intrinsic|external)\b', s):
                self.next()
                continue
            if self.isdecl(s):
                no, s = self.next()
                self.decl(u, no, s)
                continue
            break
        u.body = self.block(lambda s: re.match(
            r'^(end\s*((subroutine|function)(\s+\w+)?)?|contains)$', s))
        no, s = self.next()
        if s == 'contains':
            while True:
                no, s = self.next()
                if re.match(r'^end\s*((subroutine|function)(\s+\w+)?)?$', s):
                    break
                v = self.unit_head(no, s, u.module)
                if v is None:
                    raise ParseError('line %d: %r' % (no, s))
                v.parent = u
                self.unit(v)
                u.contains[v.name] = v

    def decl(self, u, no, s):
        m = re.match(r'^(real|integer|logical|double\s+precision)\s*'
                     r'(\(\s*(?:kind\s*=)?\s*\w+\s*\)|\*\s*\d+)?\s*(.*)$', s)
        typ, kind, rest = m.groups()
        if typ.startswith('double'):
            typ, kind = 'real', '8'
        attrs = []
        if '::' in rest:
            a, rest = rest.split('::', 1)
            attrs = [x.strip() for x in top_split(a) if x.strip()]
        for item in top_split(rest):
            item = item.strip()
            m = re.match(r'^(\w+)\s*(\(.*\))?\s*(?:=\s*(.*))?$', item)
            if not m:
                raise ParseError('line %d: declaration %r' % (no, item))
            d = Decl(typ)
            d.line = no
            d.kind = re.sub(r'[\s()*]|kind=', '', kind) if kind else None
            dims = m.group(2)
            for a in attrs:
                if a.startswith('intent'):
                    d.intent = re.sub(r'\s', '', a[a.index('(') + 1:-1])
                elif a == 'optional':
                    d.optional = True
                elif a == 'parameter':
                    d.const = True
                elif a.startswith('dimension'):
                    dims = dims or a[a.index('('):]
                elif a == 'allocatable':
                    d.alloc = True
                elif a == 'save':
                    d.saved = True
                elif a in ('target', 'contiguous', 'public', 'private',
                           'protected'):
                    pass
                else:
                    raise ParseError('line %d: attribute %r' % (no, a))
            if dims:
                d.dims = []
                for x in top_split(dims[1:-1]):
                    p = P(x)
                    e = p.arg()
                    if e[0] == 'slice':
                        d.dims.append((e[1], e[2]))
                    else:
                        d.dims.append((('int', 1), e))
            if m.group(3):
                d.param = P(m.group(3)).expr()
                d.saved = not d.const
            u.decls[m.group(1)] = d

    def block(self, stop):
        out = []
        while True:
            s = self.peek()
            if s is None:
                raise ParseError('unexpected end of file')
            if stop(s):
                return out
            no, s = self.next()
            out.append(self.stmt(no, s))

    def control(self, c):
        specs, mask = [], None
        for x in top_split(re.sub(r'^\s*integer\s*(\([^)]*\))?\s*::', '',
                                  c)):
            m2 = re.match(r'^\s*(\w+)\s*=([^=].*)$', x)
            if not m2:
                mask = P(x).expr()
                continue
            p = P('(' + m2.group(2) + ')')
            e = p.args()[0]
            specs.append((m2.group(1), e[1], e[2], e[3]))
        return specs, mask

    def stmt(self, no, s):
        m = re.match(r'^(\w+)\s*:\s*(do\b.*)$', s)
        label = None
        if m:
            label, s = m.group(1), m.group(2)
        m = re.match(r'^do\s+while\s*\((.*)\)$', s)
        if m:
            c = P(m.group(1)).expr()
            b = self.block(isend('do'))
            self.next()
            return ('while', no, c, b, label)
        m = re.match(r'^do\s+(\w+)\s*=\s*(.*)$', s)
        if m:
            p = [P(x).expr() for x in top_split(m.group(2))]
            b = self.block(isend('do'))
            self.next()
            return ('do', no, m.group(1), p[0], p[1],
                    p[2] if len(p) > 2 else ('int', 1), b, label)
        m = re.match(r'^do\s+concurrent\s*\(', s)
        if m:
            c, rest = balanced(s, s.index('('))
            specs, mask = self.control(c)
            rest = re.sub(r'^(\s*(local|local_init|shared)\s*\([^)]*\)|'
                          r'\s*default\s*\(\s*none\s*\))*\s*$', '', rest)
            if rest:
                raise ParseError('line %d: %r' % (no, s))
            b = self.block(isend('do'))
            self.next()
            return ('concurrent', no, specs, mask, b, label)
        m = re.match(r'^(block)$', s)
        if m:
            u = Unit('block', 'block', [], None, None, no)
            while self.isdecl(self.peek()):
                n2, s2 = self.next()
                self.decl(u, n2, s2)
            b = self.block(isend('block'))
            self.next()
            return ('block', no, u.decls, b)
        m = re.match(r'^associate\s*\((.*)\)$', s)
        if m:
            names = []
            for x in top_split(m.group(1)):
                a, e = x.split('=>', 1)
                names.append((a.strip(), P(e).expr()))
            b = self.block(isend('associate'))
            self.next()
            return ('associate', no, names, b)
        m = re.match(r'^where\s*\(', s)
        if m:
            c, rest = balanced(s, s.index('('))
            if rest.strip():
                return ('where', no, [(P(c).expr(),
                                       [self.stmt(no, rest.strip())])])
            arms = [(P(c).expr(), self.block(iswhere))]
            while True:
                n2, s2 = self.next()
                if re.match(r'^end\s*where$', s2):
                    break
                m2 = re.match(r'^else\s*where\s*(\(.*\))?$', s2)
                arms.append((P(m2.group(1)).expr() if m2.group(1) else None,
                             self.block(iswhere)))
            return ('where', no, arms)
        m = re.match(r'^(de)?allocate\s*\((.*)\)$', s)
        if m:
            out = []
            for x in top_split(m.group(2)):
                if re.match(r'^\s*\w+\s*=', x):
                    raise ParseError('line %d: %r' % (no, s))
                e = P(x).expr()
                out.append((e[1], e[2] if e[0] == 'ref' else None))
            return ('deallocate' if m.group(1) else 'allocate', no, out)
        if s == 'do':
            b = self.block(isend('do'))
            self.next()
            return ('while', no, ('lit', True), b, label)
        m = re.match(r'^if\s*\(', s)
        if m:
            c, rest = balanced(s, s.index('('))
            cond = P(c).expr()
            rest = rest.strip()
            if rest == 'then':
                arms = [(cond, None)]
                els = None
                cur = self.block(isif)
                arms = [(cond, cur)]
                while True:
                    n2, s2 = self.next()
                    if re.match(r'^end\s*if$', s2):
                        break
                    if s2 == 'else':
                        els = self.block(isif)
                        continue
                    m2 = re.match(r'^else\s*if\s*\(', s2)
                    c2, r2 = balanced(s2, s2.index('('))
                    arms.append((P(c2).expr(), self.block(isif)))
                return ('if', no, arms, els)
            return ('if', no, [(cond, [self.stmt(no, rest)])], None)
        m = re.match(r'^select\s*case\s*\((.*)\)$', s)
        if m:
            e = P(m.group(1)).expr()
            cases, default = [], None
            while True:
                n2, s2 = self.next()
                if re.match(r'^end\s*select$', s2):
                    break
                if re.match(r'^case\s+default$', s2):
                    default = self.block(iscase)
                    continue
                m2 = re.match(r'^case\s*\((.*)\)$', s2)
                if not m2:
                    raise ParseError('line %d: %r' % (n2, s2))
                vals = []
                for x in top_split(m2.group(1)):
                    p = P(x)
                    vals.append(p.arg())
                cases.append((vals, self.block(iscase)))
            return ('select', no, e, cases, default)
        m = re.match(r'^forall\s*\(', s)
        if m:
            c, rest = balanced(s, s.index('('))
            specs, mask = self.control(c)
            if rest.strip():
                body = [self.stmt(no, rest.strip())]
            else:
                body = self.block(isend('forall'))
                self.next()
            return ('forall', no, specs, mask, body)
        m = re.match(r'^call\s+(\w+)\s*(\(.*\))?$', s)
        if m:
            return ('call', no, m.group(1),
                    P(m.group(2)).args() if m.group(2) else [])
        if s == 'return':
            return ('return', no)
        m = re.match(r'^(exit|cycle)(\s+\w+)?$', s)
        if m:
            return (m.group(1), no, (m.group(2) or '').strip() or None)
        m = re.match(r'^(error\s+)?stop(\s+.*)?$', s)
        if m:
            return ('stop', no, (m.group(2) or '').strip())
        if s == 'continue':
            return ('nop', no)
        p = P(s)
        lhs = p.atom()
        if p.peek() != '=':
            raise ParseError('line %d: statement %r' % (no, s))
        p.take('=')
        rhs = p.expr()
        if not p.end():
            raise ParseError('line %d: trailing text in %r' % (no, s))
        return ('assign', no, lhs, rhs)


def use(s):
    s = re.sub(r'^,\s*(non_)?intrinsic\s*', '', s)
    s = re.sub(r'^::\s*', '', s)
    parts = top_split(s)
    name = parts[0].strip()
    ren, names = {}, None
    for x in parts[1:]:
        x = x.strip()
        m = re.match(r'^only\s*:\s*(.*)$', x)
        if m:
            names = []
            x = m.group(1).strip()
        m = re.match(r'^(\w+)\s*=>\s*(\w+)$', x)
        if m:
            ren[m.group(1)] = m.group(2)
        elif names is not None and x:
            names.append(x)
        elif x:
            raise ParseError('use %s' % s)
    return (name, ren, names)


def top_split(s, sep=','):
    out, depth, cur, q = [], 0, '', None
    for ch in s:
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch in '([':
            depth += 1
        elif ch in ')]':
            depth -= 1
        if ch == sep and depth == 0 and not q:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def balanced(s, i):
    depth = 0
    for j in range(i, len(s)):
        if s[j] == '(':
            depth += 1
        elif s[j] == ')':
            depth -= 1
            if depth == 0:
                return s[i + 1:j], s[j + 1:]
    raise ParseError('unbalanced %r' % s)


def isend(kw):
    r = re.compile(r'^end\s*%s(\s+\w+)?$' % kw)
    return lambda s: r.match(s)


def iswhere(s):
    return re.match(r'^(end\s*where|else\s*where\b.*)$', s)


def isif(s):
    return re.match(r'^(end\s*if|else|else\s*if\s*\(.*)$', s)


def iscase(s):
    return re.match(r'^(end\s*select|case\b.*)$', s)


# ---------------------------------------------------------------------------
# abstract interpreter

class FStop(Exception):
    def __init__(self, msg, where):
        Exception.__init__(self, msg, where)
        self.msg = msg
        self.where = where


class FFault(Exception):
    """memory fault: the kernel accesses storage outside an array"""

    def __init__(self, what, where):
        Exception.__init__(self, '%s at %s' % (what, where))
        self.what = what
        self.where = where


class FExit(Exception):
    def __init__(self, label):
        self.label = label


class FCycle(FExit):
    pass


class FReturn(Exception):
    pass


class Undef(object):
    def __repr__(self):
        return '<undefined>'


UNDEF = Undef()


class Out(object):
    """position beyond the storage of the actual argument"""

    def __index__(self):
        raise FFault('access beyond the storage of the actual argument',
                     'array argument')


OUT = Out()


class FArr(object):
    __slots__ = ('data', 'idx', 'shape', 'lb', 'type')

    def __init__(self, data, idx, shape, lb, type_='real'):
        self.data = data        # shared list of cells
        self.idx = idx          # flat positions, column major
        self.shape = tuple(shape)
        self.lb = tuple(lb)
        self.type = type_

    @staticmethod
    def new(shape, lb=None, type_='real', fill=UNDEF):
        n = 1
        for s in shape:
            n *= max(s, 0)
        return FArr([fill] * n, range(n), [max(s, 0) for s in shape],
                    lb or [1] * len(shape), type_)

    @staticmethod
    def of(vals, shape=None, type_='real'):
        vals = list(vals)
        return FArr(vals, range(len(vals)), shape or [len(vals)],
                    [1] * len(shape or [1]), type_)

    @property
    def size(self):
        return len(self.idx)

    def vals(self):
        d = self.data
        return [d[i] for i in self.idx]


class Scalar(object):
    __slots__ = ('v', 'type')

    def __init__(self, v, type_):
        self.v = v
        self.type = type_


EPS = None


def eps_value():
    global EPS
    if EPS is None:
        EPS = core.sc_const(Fraction(1, 2 ** 52))
        EPS.tag = 'epsilon'
    return EPS


class Frame(object):
    def __init__(self, unit, parent=None):
        self.unit = unit
        self.vars = {}
        self.parent = parent


class FWorld(object):
    """the analysed library; faults and diagnostics collected per run"""

    MAXSTEP = 400000

    def __init__(self, text, fname='igakit/igalib.f90'):
        self.mods = Parser(text).parse()
        self.fname = fname
        self.undef = []         # uses of undefined values
        self.steps = 0
        self.visited = set()    # executed (unit, line)
        self.calls = 0

    # -- name resolution
    def lookup(self, name, unit):
        u = unit
        while u is not None:
            if name in u.contains:
                return u.contains[name]
            r = self._uses(name, u.uses)
            if r is not None:
                return r
            u = u.parent
        m = unit.module
        if name in m.units:
            return m.units[name]
        r = self._uses(name, m.uses)
        return r

    def _uses(self, name, uses):
        for mod, ren, names in uses:
            if mod in KINDS:
                continue
            if mod not in self.mods:
                raise Unmodelled('module %s' % mod)
            us = self.mods[mod].units
            if name in ren:
                return us[ren[name]]
            if name in us and name not in ren.values() and \
               (names is None or name in names):
                return us[name]
        return None

    visited = set()

    def constant(self, name, unit):
        """a constant of the enclosing or a used module: its declaration and
        the module, or an integer"""
        u, seen = unit, []
        while u is not None:
            seen.append(u.uses)
            u = u.parent
        if unit.module is not None:
            if name in unit.module.decls:
                return unit.module.decls[name]
            seen.append(unit.module.uses)
        for uses in seen:
            for mod, ren, names in uses:
                n = ren.get(name, name)
                if name not in ren and names is not None and \
                        name not in names:
                    continue
                if mod in KINDS:
                    if n in KINDS[mod]:
                        return KINDS[mod][n]
                elif mod in self.mods and n in self.mods[mod].decls:
                    return self.mods[mod].decls[n]
        return None

    def kind_of(self, k, unit):
        """the number of a kind, None if it is not known"""
        if k is None or k.isdigit():
            return k
        u = unit
        d = None
        while u is not None and d is None:
            d = u.decls.get(k)
            u = u.parent
        if d is None:
            d = self.constant(k, unit)
        if isinstance(d, int):
            return str(d)
        if d is None or d.param is None or not d.const:
            return None
        try:
            v = self.ev(d.param, Frame(unit, None), d.line)
        except (Unmodelled, FFault):
            return None
        return str(v) if isinstance(v, int) else None

    def global_(self, name, fr):
        d = self.constant(name, fr.unit)
        if d is None:
            return None
        if isinstance(d, int):
            return Scalar(d, 'integer')
        if d.param is None or not d.const:
            raise Unmodelled('module variable %s' % name)
        return self.value_of(d, Frame(fr.unit, None))

    def value_of(self, d, fr):
        v = self.ev(d.param, fr, d.line)
        if d.dims is None:
            return Scalar(self.conv(v, d.type), d.type)
        if not isinstance(v, FArr):
            raise Unmodelled('array constant')
        shape, lb = self.extent(d, fr)
        r = FArr.of([self.conv(x, d.type) for x in v.vals()], shape or
                    v.shape, d.type)
        if lb:
            r.lb = list(lb)
        return r

    # -- entry
    def call(self, module, name, args):
        """args: python list of int/bool/Sc scalars, FArr, None (absent);
        scalar results are returned through Scalar boxes"""
        m = self.mods.get(module.lower())
        if m is None or name.lower() not in m.units:
            raise Unmodelled('kernel %s.%s not found' % (module, name))
        self.steps = 0
        self.invoke(m.units[name.lower()], args)

    def kind(self, e, fr):
        """kind of an expression: literals and declared variables"""
        k = e[2] if e[0] in ('real', 'realk') else None
        if e[0] == 'var':
            f = fr
            while f is not None and e[1] not in f.unit.decls:
                f = f.parent
            d = f and f.unit.decls[e[1]]
            k = d and (d.kind or '4')
        k = self.kind_of(k, fr.unit)
        if k is None:
            raise Unmodelled('kind of %r' % (e,))
        return int(k)

    def where(self, fr, line):
        if fr is None:
            return ''
        return '%s:%d in %s' % (self.fname, line, fr.unit.qual())

    def invoke(self, u, args, host=None, kwargs=None):
        self.calls += 1
        self.visited.add(u.qual())
        if u.broken is not None:
            raise Unmodelled('%s: %s' % (u.qual(), u.broken))
        fr = Frame(u, host)
        if len(args) > len(u.args):
            raise FFault('%s called with %d arguments, takes %d' % (
                u.qual(), len(args), len(u.args)), 'line %d' % u.line)
        given = dict(zip(u.args, args))
        if kwargs:
            given.update(kwargs)
        # scalars first (extents depend on them)
        todo = []
        for a in u.args:
            d = u.decls.get(a)
            if d is None:
                d = implicit(a)
                u.decls[a] = d
            v = given.get(a)
            if v is None:
                if not d.optional:
                    raise FFault('missing argument %s of %s' % (a, u.qual()),
                                 'line %d' % u.line)
                fr.vars[a] = None
                continue
            if d.dims is None:
                if isinstance(v, FArr):
                    raise FFault('array passed for scalar %s of %s'
                                 % (a, u.qual()), 'line %d' % u.line)
                if not isinstance(v, Scalar):
                    v = Scalar(v, d.type)
                if v.type != d.type:
                    if v.type == 'integer' and d.type == 'real' and False:
                        pass
                    raise FFault('type mismatch for %s of %s: %s passed, %s '
                                 'expected' % (a, u.qual(), v.type, d.type),
                                 'line %d' % u.line)
                fr.vars[a] = v
            else:
                todo.append((a, d, v))
        for n, d in u.decls.items():
            if d.param is not None or d.saved:
                if d.saved and (d.param is None or assigned(u.body, n)):
                    raise Unmodelled('%s keeps %s between calls' % (
                        u.qual(), n))
                fr.vars[n] = self.value_of(d, fr)
        for a, d, v in todo:
            shape, lb = self.extent(d, fr)
            if not isinstance(v, FArr):
                raise FFault('scalar passed for array %s of %s'
                             % (a, u.qual()), 'line %d' % u.line)
            if v.type != d.type:
                raise FFault('type mismatch for %s of %s: %s passed, %s '
                             'expected' % (a, u.qual(), v.type, d.type),
                             'line %d' % u.line)
            if shape is None:       # assumed shape
                fr.vars[a] = FArr(v.data, v.idx, v.shape, [1] * len(v.shape),
                                  d.type)
                continue
            n = 1
            for s in shape:
                n *= s
            idx = v.idx[:n]
            if n > v.size:
                # explicit shape larger than the actual argument: only an
                # access to the missing part is a fault
                idx = list(idx) + [OUT] * (n - v.size)
            fr.vars[a] = FArr(v.data, idx, shape, lb, d.type)
        for n, d in u.decls.items():
            if n in fr.vars:
                continue
            if d.alloc:
                fr.vars[n] = None
            elif d.dims is None:
                fr.vars[n] = Scalar(UNDEF, d.type)
            else:
                shape, lb = self.extent(d, fr)
                fr.vars[n] = FArr.new(shape, lb, d.type)
        try:
            self.block(u.body, fr)
        except FReturn:
            pass
        if u.kind == 'func':
            r = fr.vars[u.result]
            if isinstance(r, Scalar):
                if r.v is UNDEF:
                    self.note_undef('result of %s' % u.qual(),
                                    'line %d' % u.line)
                return r.v
            return r
        return None

    def note_undef(self, what, where):
        self.undef.append((what, where))

    def extent(self, d, fr):
        shape, lb = [], []
        for lo, hi in d.dims:
            if hi is None:
                return None, None
            l = self.int(self.ev(lo, fr, d.line)) if lo is not None else 1
            h = self.int(self.ev(hi, fr, d.line))
            shape.append(max(h - l + 1, 0))
            lb.append(l)
        return shape, lb

    def int(self, v):
        if isinstance(v, bool) or not isinstance(v, int):
            if isinstance(v, Undef):
                raise FFault('undefined integer used', '')
            if isinstance(v, core.Z):
                raise Unmodelled('symbolic extent in a kernel')
            raise Unmodelled('integer expected, got %r' % (v,))
        return v

    def conv(self, v, typ):
        if v is UNDEF:
            return v
        if typ == 'real':
            if isinstance(v, bool):
                raise Unmodelled('logical to real')
            return sc(v)
        if typ == 'integer':
            if isinstance(v, Sc):
                if v.const is not None:
                    return int(v.const)
                raise Unmodelled('real to integer')
            return v
        return v

    # -- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise Unmodelled('kernel step limit (possible non-termination)')
        k, no = s[0], s[1]
        self.visited.add((fr.unit.qual(), no))
        if k == 'assign':
            self.assign(s[2], self.ev(s[3], fr, no), fr, no)
        elif k == 'if':
            for c, b in s[2]:
                if self.cond(c, fr, no):
                    self.block(b, fr)
                    return
            if s[3] is not None:
                self.block(s[3], fr)
        elif k == 'do':
            lo = self.int(self.ev(s[3], fr, no))
            hi = self.int(self.ev(s[4], fr, no))
            st = self.int(self.ev(s[5], fr, no))
            var = self.var(s[2], fr, no)
            n = max((hi - lo + st) // st, 0)
            v = lo
            for _ in range(n):
                var.v = v
                try:
                    self.block(s[6], fr)
                except FExit as e:
                    if e.label is not None and e.label != s[7]:
                        raise
                    if not isinstance(e, FCycle):
                        return
                v += st
            var.v = v
        elif k == 'while':
            while self.cond(s[2], fr, no):
                self.steps += 1
                if self.steps > self.MAXSTEP:
                    raise Unmodelled('kernel step limit (possible '
                                     'non-termination)')
                try:
                    self.block(s[3], fr)
                except FExit as e:
                    if e.label is not None and e.label != s[4]:
                        raise
                    if not isinstance(e, FCycle):
                        return
        elif k == 'forall':
            self.forall(s, fr)
        elif k == 'concurrent':
            import itertools
            rng = []
            for v, lo, hi, st in s[2]:
                a, b = (self.int(self.ev(x, fr, no)) for x in (lo, hi))
                c = 1 if st is None else self.int(self.ev(st, fr, no))
                rng.append(range(a, b + (1 if c > 0 else -1), c))
            old = {v[0]: fr.vars.get(v[0]) for v in s[2]}
            for v in old:
                fr.vars[v] = Scalar(UNDEF, 'integer')
            todo = []
            for ix in itertools.product(*rng):
                for v, i in zip(s[2], ix):
                    fr.vars[v[0]].v = i
                if s[3] is None or self.cond(s[3], fr, no):
                    todo.append(ix)
            for ix in todo:
                for v, i in zip(s[2], ix):
                    fr.vars[v[0]].v = i
                try:
                    self.block(s[4], fr)
                except FCycle as e:
                    if e.label is not None and e.label != s[5]:
                        raise
            restore(fr, old)
        elif k == 'block':
            old = {n: fr.vars.get(n) for n in s[2]}
            for n, d in s[2].items():
                if d.saved:
                    raise Unmodelled('a variable kept between calls')
                if d.param is not None:
                    fr.vars[n] = self.value_of(d, fr)
                elif d.dims is None:
                    fr.vars[n] = Scalar(UNDEF, d.type)
                elif d.alloc:
                    raise Unmodelled('allocatable of a block')
                else:
                    shape, lb = self.extent(d, fr)
                    fr.vars[n] = FArr.new(shape, lb, d.type)
            try:
                self.block(s[3], fr)
            finally:
                restore(fr, old)
        elif k == 'associate':
            old = {n: fr.vars.get(n) for n, e in s[2]}
            new = [(n, self.actual(fr.unit, None, e, fr, no))
                   for n, e in s[2]]
            for n, v in new:
                fr.vars[n] = v
            try:
                self.block(s[3], fr)
            finally:
                restore(fr, old)
        elif k == 'where':
            self.where_(s, fr)
        elif k == 'allocate':
            for n, dims in s[2]:
                d = fr.unit.decls.get(n)
                if d is None or not d.alloc or not dims:
                    raise Unmodelled('allocate %s' % n)
                shape, lb = [], []
                for x in dims:
                    l, h = (('int', 1), x) if x[0] != 'slice' else x[1:3]
                    l = self.int(self.ev(l, fr, no))
                    h = self.int(self.ev(h, fr, no))
                    shape.append(max(h - l + 1, 0))
                    lb.append(l)
                fr.vars[n] = FArr.new(shape, lb, d.type)
        elif k == 'deallocate':
            for n, dims in s[2]:
                fr.vars[n] = None
        elif k == 'call':
            self.callsub(s[2], s[3], fr, no)
        elif k == 'select':
            v = self.ev(s[2], fr, no)
            for vals, b in s[3]:
                for x in vals:
                    if x[0] == 'slice':
                        lo = None if x[1] is None else self.ev(x[1], fr, no)
                        hi = None if x[2] is None else self.ev(x[2], fr, no)
                        if (lo is None or lo <= v) and (hi is None or
                                                        v <= hi):
                            return self.block(b, fr)
                    elif self.ev(x, fr, no) == v:
                        return self.block(b, fr)
            if s[4] is not None:
                self.block(s[4], fr)
        elif k == 'return':
            raise FReturn()
        elif k == 'exit':
            raise FExit(s[2])
        elif k == 'cycle':
            raise FCycle(s[2])
        elif k == 'stop':
            raise FStop(s[2], self.where(fr, no))
        elif k == 'nop':
            pass
        else:
            raise Unmodelled('statement %s' % k)

    def where_(self, s, fr):
        no, left = s[1], None
        for mask, body in s[2]:
            if mask is not None:
                m = self.ev(mask, fr, no)
                if not isinstance(m, FArr) or not all(
                        isinstance(x, bool) for x in m.vals()):
                    raise Unmodelled('mask')
                m = list(m.vals())
                on = m if left is None else [
                    a and b for a, b in zip(m, left)]
                left = [not a for a in m] if left is None else [
                    a and not b for a, b in zip(left, m)]
            else:
                on = left
            for st in body:
                if st[0] != 'assign':
                    raise Unmodelled('where body')
                val = self.ev(st[3], fr, no)
                lhs = st[2]
                sec = self.var(lhs[1], fr, no)
                if lhs[0] != 'var':
                    sec = self.section(sec, lhs[1], lhs[2], fr, no)
                if not isinstance(sec, FArr) or sec.size != len(on):
                    raise Unmodelled('where assignment')
                vals = list(val.vals()) if isinstance(val, FArr) else \
                    [val] * len(on)
                if len(vals) != len(on):
                    raise FFault('shapes do not conform in where',
                                 self.where(fr, no))
                for i, x, c in zip(sec.idx, vals, on):
                    if c:
                        sec.data[i] = self.conv(x, sec.type)

    def forall(self, s, fr):
        no, specs, mask, body = s[1], s[2], s[3], s[4]
        rng = []
        for v, lo, hi, st in specs:
            a = self.int(self.ev(lo, fr, no))
            b = self.int(self.ev(hi, fr, no))
            c = 1 if st is None else self.int(self.ev(st, fr, no))
            rng.append(range(a, b + (1 if c > 0 else -1), c))
        old = {}
        for v, _, _, _ in specs:
            old[v] = fr.vars.get(v)
            fr.vars[v] = Scalar(UNDEF, 'integer')
        import itertools
        for st in body:
            if st[0] != 'assign':
                raise Unmodelled('forall body')
            pend = []
            for ix in itertools.product(*rng):
                for (v, _, _, _), i in zip(specs, ix):
                    fr.vars[v].v = i
                if mask is not None and not self.cond(mask, fr, no):
                    continue
                val = self.ev(st[3], fr, no)
                if isinstance(val, FArr):
                    val = FArr.of(val.vals(), val.shape, val.type)
                pend.append((ix, val))
            for ix, val in pend:
                for (v, _, _, _), i in zip(specs, ix):
                    fr.vars[v].v = i
                self.assign(st[2], val, fr, no)
        for v in old:
            if old[v] is None:
                fr.vars.pop(v)
            else:
                fr.vars[v] = old[v]

    def cond(self, e, fr, no):
        v = self.ev(e, fr, no)
        if isinstance(v, bool):
            return v
        if isinstance(v, Undef):
            self.note_undef('condition', self.where(fr, no))
            raise Unmodelled('branch on an undefined value')
        raise Unmodelled('condition %r' % (v,))

    def var(self, name, fr, no):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        g = self.global_(name, fr)
        if g is not None:
            return g
        d = implicit(name)
        fr.vars[name] = Scalar(UNDEF, d.type)
        return fr.vars[name]

    def hasvar(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return True
            f = f.parent
        return self.constant(name, fr.unit) is not None

    def assign(self, lhs, val, fr, no):
        v = self.var(lhs[1], fr, no)
        d = fr.unit.decls.get(lhs[1])
        if d is not None and d.alloc and lhs[0] == 'var' and \
                isinstance(val, FArr) and (v is None or
                                           v.shape != val.shape):
            if len(val.shape) != len(d.dims):
                raise FFault('shapes do not conform in assignment to %s'
                             % lhs[1], self.where(fr, no))
            v = fr.vars[lhs[1]] = FArr.new(val.shape, [1] * len(val.shape),
                                           d.type)
        if v is None:
            raise FFault('absent optional %s assigned' % lhs[1],
                         self.where(fr, no))
        if lhs[0] == 'var':
            if isinstance(v, Scalar):
                if isinstance(val, FArr):
                    raise FFault('array assigned to a scalar',
                                 self.where(fr, no))
                if val is UNDEF:
                    self.note_undef('value assigned to %s' % lhs[1],
                                    self.where(fr, no))
                v.v = self.conv(val, v.type)
                return
            sec = v
        else:
            if isinstance(v, Scalar):
                raise FFault('subscripted scalar %s' % lhs[1],
                             self.where(fr, no))
            sec = self.section(v, lhs[1], lhs[2], fr, no)
            if isinstance(sec, (int, Out)):
                if isinstance(val, FArr):
                    raise FFault('array assigned to an element',
                                 self.where(fr, no))
                if val is UNDEF:
                    self.note_undef('value assigned to %s' % lhs[1],
                                    self.where(fr, no))
                v.data[operator.index(sec)] = self.conv(val, v.type)
                return
        if isinstance(val, FArr):
            if val.size != sec.size:
                raise FFault('shapes %r and %r do not conform in assignment '
                             'to %s' % (sec.shape, val.shape, lhs[1]),
                             self.where(fr, no))
            for i, x in zip(sec.idx, val.vals()):
                sec.data[i] = self.conv(x, v.type)
        else:
            x = self.conv(val, v.type)
            for i in sec.idx:
                sec.data[i] = x

    def section(self, a, name, args, fr, no):
        """flat position of an element, or the FArr of a section"""
        if len(args) != len(a.shape):
            raise FFault('rank mismatch: %s' % name, self.where(fr, no))
        per, shape = [], []
        scalar = True
        for k, e in enumerate(args):
            lb, n = a.lb[k], a.shape[k]
            if e[0] == 'slice':
                scalar = False
                lo = lb if e[1] is None else self.int(
                    self.ev(e[1], fr, no))
                hi = lb + n - 1 if e[2] is None else self.int(
                    self.ev(e[2], fr, no))
                st = 1 if e[3] is None else self.int(self.ev(e[3], fr, no))
                ix = list(range(lo, hi + (1 if st > 0 else -1), st))
                for i in (ix[:1] + ix[-1:]):
                    if not lb <= i < lb + n:
                        raise FFault('section %d:%d of %s outside %d:%d '
                                     '(dimension %d)' % (
                                         lo, hi, name, lb, lb + n - 1, k + 1),
                                     self.where(fr, no))
                per.append([i - lb for i in ix])
                shape.append(len(ix))
            else:
                i = self.ev(e, fr, no)
                if isinstance(i, FArr):
                    scalar = False
                    ix = [self.int(x) for x in i.vals()]
                    for x in ix:
                        if not lb <= x < lb + n:
                            raise FFault('index %d of %s outside %d:%d' % (
                                x, name, lb, lb + n - 1), self.where(fr, no))
                    per.append([x - lb for x in ix])
                    shape.append(len(ix))
                    continue
                if i is UNDEF:
                    raise FFault('undefined index of %s' % name,
                                 self.where(fr, no))
                i = self.int(i)
                if not lb <= i < lb + n:
                    raise FFault('index %d of %s outside %d:%d (dimension '
                                 '%d)' % (i, name, lb, lb + n - 1, k + 1),
                                 self.where(fr, no))
                per.append([i - lb])
        strides, s = [], 1
        for n in a.shape:
            strides.append(s)
            s *= n
        if scalar:
            return a.idx[sum(p[0] * t for p, t in zip(per, strides))]
        pos = [0]
        for p, t in zip(reversed(per), reversed(strides)):
            # column major: last index is slowest
            pos = [x + i * t for x in pos for i in p]
        return FArr(a.data, [a.idx[q] for q in pos], shape, [1] * len(shape),
                    a.type)

    def callsub(self, name, args, fr, no):
        u = self.lookup(name, fr.unit)
        if u is None:
            raise Unmodelled('call of unknown procedure %s' % name)
        pos, kw = self.actuals(u, args, fr, no)
        self.invoke(u, pos, host_frame(fr, u), kw)

    def actuals(self, u, args, fr, no):
        pos, kw = [], {}
        for k, e in enumerate(args):
            if e[0] == 'kw':
                kw[e[1]] = self.actual(u, e[1], e[2], fr, no)
            else:
                dn = u.args[k] if k < len(u.args) else None
                pos.append(self.actual(u, dn, e, fr, no))
        return pos, kw

    def actual(self, u, dn, e, fr, no):
        d = u.decls.get(dn) if dn else None
        if e[0] == 'var' and self.hasvar(e[1], fr):
            return self.var(e[1], fr, no)
        if e[0] == 'ref' and self.hasvar(e[1], fr):
            a = self.var(e[1], fr, no)
            if isinstance(a, FArr):
                sec = self.section(a, e[1], e[2], fr, no)
                if isinstance(sec, Out):
                    # legal as long as nothing is accessed
                    return FArr([], [OUT], [1], [1], a.type)
                if isinstance(sec, int):
                    if d is not None and d.dims is not None:
                        k = list(a.idx).index(sec)
                        rest = list(a.idx)[k:]
                        return FArr(a.data, rest, [len(rest)], [1], a.type)
                    return Cell(a.data, sec, a.type)
                return sec
        v = self.ev(e, fr, no)
        if isinstance(v, FArr):
            return v
        if v is UNDEF:
            self.note_undef('argument %s of %s' % (dn, u.qual()),
                            self.where(fr, no))
        return Scalar(v, typeof(v))

    # -- expressions
    def ev(self, e, fr, no):
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'real':
            return core.sc_const(e[1])
        if k == 'realk':
            v = self.kind_of(e[2], fr.unit)
            if v is None:
                raise Unmodelled('kind %s' % e[2])
            v = int(v)
            return core.sc_const(single(e[1]) if v == 4 else e[1])
        if k == 'lit':
            return e[1]
        if k == 'var':
            v = self.var(e[1], fr, no)
            if isinstance(v, Scalar):
                return v.v
            if v is None:
                raise FFault('absent optional %s used' % e[1],
                             self.where(fr, no))
            return v
        if k == 'par':
            return self.ev(e[1], fr, no)
        if k == 'neg':
            return self.map1(lambda a: -a if isinstance(a, int)
                             else core.neg(a), self.ev(e[1], fr, no), fr, no)
        if k == 'bin':
            a, b = self.ev(e[2], fr, no), self.ev(e[3], fr, no)
            return self.map2(OPS[e[1]], a, b, fr, no)
        if k == 'rel':
            a, b = self.ev(e[2], fr, no), self.ev(e[3], fr, no)
            return self.map2(lambda x, y: relop(e[1], x, y), a, b, fr, no)
        if k == 'and':
            # evaluation of the second operand is processor dependent; an
            # out of bounds access there is a fault only if the first is true
            a = self.ev(e[1], fr, no)
            if a is False:
                return False
            b = self.ev(e[2], fr, no)
            return self.logic(a, b, fr, no)
        if k == 'or':
            a = self.ev(e[1], fr, no)
            if a is True:
                return True
            b = self.ev(e[2], fr, no)
            if isinstance(a, FArr) or isinstance(b, FArr):
                return self.logic(a, b, fr, no, True)
            return b
        if k == 'not':
            v = self.ev(e[1], fr, no)
            if isinstance(v, FArr) and all(isinstance(x, bool)
                                           for x in v.vals()):
                return FArr.of([not x for x in v.vals()], v.shape, v.type)
            if not isinstance(v, bool):
                raise Unmodelled('.not. of %r' % (v,))
            return not v
        if k == 'arr':
            out = self.items(e[1], fr, no)
            return FArr.of([v for v, t in out], None,
                           out[-1][1] if out else 'integer')
        if k == 'ref':
            return self.ref(e, fr, no)
        if k == 'str':
            return e[1]
        raise Unmodelled('expression %s' % k)

    def items(self, xs, fr, no):
        out = []
        for x in xs:
            if x[0] == 'impl':
                b = [self.int(self.ev(q, fr, no)) for q in x[2]]
                old = {x[1]: fr.vars.get(x[1])}
                try:
                    i, st = b[0], b[2] if len(b) > 2 else 1
                    while i <= b[1] if st > 0 else i >= b[1]:
                        fr.vars[x[1]] = Scalar(i, 'integer')
                        out += self.items(x[3], fr, no)
                        i += st
                finally:
                    restore(fr, old)
                continue
            v = self.ev(x, fr, no)
            if isinstance(v, FArr):
                out += [(q, v.type) for q in v.vals()]
            else:
                out.append((v, typeof(v)))
        return out

    def logic(self, a, b, fr, no, either=False):
        f = (lambda x, y: x or y) if either else (lambda x, y: x and y)
        if isinstance(a, FArr) or isinstance(b, FArr):
            n = a if isinstance(a, FArr) else b
            x, y = (list(q.vals()) if isinstance(q, FArr) else [q] * n.size
                    for q in (a, b))
            if len(x) == len(y) and all(isinstance(q, bool) for q in x + y):
                return FArr.of([f(p, q) for p, q in zip(x, y)], n.shape,
                               'logical')
        if isinstance(a, bool) and isinstance(b, bool):
            return f(a, b)
        raise Unmodelled('logical operands')

    def ref(self, e, fr, no):
        name, args = e[1], e[2]
        if self.hasvar(name, fr):
            a = self.var(name, fr, no)
            if a is None:
                raise FFault('absent optional %s used' % name,
                             self.where(fr, no))
            if isinstance(a, FArr):
                sec = self.section(a, name, args, fr, no)
                if isinstance(sec, (int, Out)):
                    return a.data[operator.index(sec)]
                return sec
        u = self.lookup(name, fr.unit)
        if u is not None:
            if u.kind != 'func':
                raise Unmodelled('%s is not a function' % name)
            pos, kw = self.actuals(u, args, fr, no)
            return self.invoke(u, pos, host_frame(fr, u), kw)
        if name == 'present':
            return self.var(args[0][1], fr, no) is not None
        if name == 'allocated':
            return self.var(args[0][1], fr, no) is not None
        if name == 'kind':
            return self.kind(args[0], fr)
        f = INTRINSICS.get(name)
        if f is None:
            raise Unmodelled('function %s' % name)
        vals, kw = [], {}
        for x in args:
            if x[0] == 'kw':
                kw[x[1]] = self.ev(x[2], fr, no)
            else:
                vals.append(self.ev(x, fr, no))
        for v in vals:
            if name not in ('epsilon', 'size', 'shape', 'lbound',
                            'ubound', 'merge', 'cshift', 'pack', 'spread',
                            'reshape', 'transpose') and (
                    v is UNDEF or isinstance(v, FArr) and
                    UNDEF in v.vals()):
                self.note_undef('argument of %s' % name, self.where(fr, no))
                return core.sc_top('undefined')
        return f(self, vals, kw)

    def map1(self, f, a, fr, no):
        if isinstance(a, FArr):
            return FArr.of([UNDEF if x is UNDEF else f(x) for x in a.vals()],
                           a.shape, a.type)
        if a is UNDEF:
            self.note_undef('operand', self.where(fr, no))
            return core.sc_top('undefined')
        return f(a)

    def map2(self, f, a, b, fr, no):
        def g(x, y):
            if x is UNDEF or y is UNDEF:
                self.note_undef('operand', self.where(fr, no))
                return core.sc_top('undefined')
            return f(x, y)
        fa, fb = isinstance(a, FArr), isinstance(b, FArr)
        if fa and fb:
            if a.size != b.size or a.shape != b.shape:
                raise FFault('shapes %r and %r do not conform'
                             % (a.shape, b.shape), self.where(fr, no))
            v = [g(x, y) for x, y in zip(a.vals(), b.vals())]
        elif fa:
            v = [g(x, b) for x in a.vals()]
        elif fb:
            v = [g(a, y) for y in b.vals()]
        else:
            return g(a, b)
        shape = a.shape if fa else b.shape
        return FArr.of(v, shape, typeof(v[0]) if v else 'real')


KINDS = {'iso_fortran_env': {'real64': 8, 'real32': 4, 'int32': 4,
                             'int64': 8, 'int8': 1, 'int16': 2,
                             'real128': 16},
         'iso_c_binding': {'c_double': 8, 'c_float': 4, 'c_int': 4,
                           'c_long': 8, 'c_int32_t': 4, 'c_int64_t': 8,
                           'c_size_t': 8, 'c_bool': 1},
         'ieee_arithmetic': {}}


def restore(fr, old):
    for n, v in old.items():
        if v is None:
            fr.vars.pop(n, None)
        else:
            fr.vars[n] = v


def assigned(body, name):
    """whether statements may set a variable"""
    for s in body:
        if s[0] == 'assign':
            if s[2][1] == name:
                return True
        elif s[0] in ('call', 'do', 'forall', 'concurrent', 'associate'):
            if mentions(s, name):
                return True
        elif mentions(s, name) and s[0] in ('if', 'while', 'select', 'where',
                                            'block', 'allocate'):
            return True
    return False


def mentions(x, name):
    if isinstance(x, (tuple, list)):
        return any(mentions(y, name) for y in x)
    return x == name


class Cell(Scalar):
    """scalar dummy associated with an array element"""
    __slots__ = ('data', 'pos')

    def __init__(self, data, pos, type_):
        self.data = data
        self.pos = pos
        self.type = type_

    @property
    def v(self):
        return self.data[self.pos]

    @v.setter
    def v(self, x):
        self.data[self.pos] = x


def host_frame(fr, u):
    f = fr
    while f is not None:
        if u.parent is f.unit:
            return f
        f = f.parent
    return None


def implicit(name):
    return Decl('integer' if name[0] in 'ijklmn' else 'real')


def typeof(v):
    if isinstance(v, bool):
        return 'logical'
    if isinstance(v, int):
        return 'integer'
    return 'real'


def idiv(a, b):
    if b == 0:
        raise FFault('integer division by zero', '')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def fdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return idiv(a, b)
    return core.div(sc(a), sc(b))


def _ar(fi, fr):
    def f(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return fi(a, b)
        return fr(sc(a), sc(b))
    return f


def fpow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    return core.power(sc(a), sc(b))


OPS = {'+': _ar(lambda a, b: a + b, core.add),
       '-': _ar(lambda a, b: a - b, core.sub),
       '*': _ar(lambda a, b: a * b, core.mul), '/': fdiv, '**': fpow,
       '.eqv.': lambda a, b: a == b, '.neqv.': lambda a, b: a != b}


def relop(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b,
                'gt': a > b, 'ge': a >= b}[op]
    a, b = sc(a), sc(b)
    # |x| compared with epsilon: knots of the order domain either coincide
    # or are separated by more than the tolerance
    for x, y, flip in ((a, b, False), (b, a, True)):
        if y.tag == 'epsilon' and isinstance(x.tag, tuple) and \
           x.tag[0] == 'abs':
            zero = core.cmp_eq(x.tag[1], core.sc_const(0))
            o = op if not flip else {'lt': 'gt', 'le': 'ge', 'gt': 'lt',
                                     'ge': 'le'}.get(op, op)
            if o in ('lt', 'le'):
                return zero
            if o in ('gt', 'ge'):
                return not zero
        elif y.tag == 'epsilon' and x.lin is not None and x.tag != 'epsilon':
            o = op if not flip else {'lt': 'gt', 'le': 'ge', 'gt': 'lt',
                                     'ge': 'le'}.get(op, op)
            if o in ('gt', 'ge'):
                return core.cmp_lt(core.sc_const(0), x)
            if o in ('lt', 'le'):
                return core.cmp_le(x, core.sc_const(0))
    if op == 'eq':
        return core.cmp_eq(a, b)
    if op == 'ne':
        return not core.cmp_eq(a, b)
    if op == 'lt':
        return core.cmp_lt(a, b)
    if op == 'gt':
        return core.cmp_lt(b, a)
    if op == 'le':
        return core.cmp_le(a, b)
    return core.cmp_le(b, a)


def _each(f):
    def g(w, v, kw):
        a = v[0]
        if isinstance(a, FArr):
            return FArr.of([f(x) for x in a.vals()], a.shape, a.type)
        return f(a)
    return g


def _abs(x):
    if isinstance(x, int):
        return abs(x)
    x = sc(x)
    r = core.absval(x)
    return Sc(r.fp, r.const, r.z, r.lin, r.ops, r.rep, ('abs', x), r.iv)


def _minmax(name):
    from .values import nmaxmin

    def f(w, v, kw):
        r = v[0]
        for x in v[1:]:
            r = w.map2(g, r, x, None, 0) if w is not None else g(r, x)
        return r

    def g(a, b):
        return nmaxmin(name, a, b)
    return f


def _sum(w, v, kw):
    a = v[0]
    dim = kw.get('dim', v[1] if len(v) > 1 else None)
    if dim is None:
        r = 0 if a.type == 'integer' else core.sc_const(0)
        for x in a.vals():
            r = OPS['+'](r, x)
        return r
    d = dim - 1
    inner = 1
    for s in a.shape[:d]:
        inner *= s
    n = a.shape[d]
    vals = a.vals()
    outer = len(vals) // (inner * n) if inner * n else 0
    out = []
    for o in range(outer):
        for i in range(inner):
            r = core.sc_const(0)
            for q in range(n):
                r = OPS['+'](r, vals[o * inner * n + q * inner + i])
            out.append(r)
    return FArr.of(out, a.shape[:d] + a.shape[d + 1:], a.type)


def _product(w, v, kw):
    r = 1 if v[0].type == 'integer' else core.sc_const(1)
    for x in v[0].vals():
        r = OPS['*'](r, x)
    return r


def _matmul(w, v, kw):
    a, b = v
    sa = a.shape if len(a.shape) == 2 else None
    av, bv = a.vals(), b.vals()

    def dot(p, q):
        r = core.sc_const(0)
        for x, y in zip(p, q):
            r = core.add(r, core.mul(sc(x), sc(y)))
        return r
    if len(a.shape) == 2 and len(b.shape) == 2:
        m, k = a.shape
        k2, n = b.shape
        chk(k, k2)
        return FArr.of([dot([av[i + t * m] for t in range(k)],
                            [bv[t + j * k] for t in range(k)])
                        for j in range(n) for i in range(m)], [m, n])
    if len(a.shape) == 2:
        m, k = a.shape
        chk(k, b.shape[0])
        return FArr.of([dot([av[i + t * m] for t in range(k)], bv)
                        for i in range(m)])
    k, n = b.shape
    chk(k, a.shape[0])
    return FArr.of([dot(av, [bv[t + j * k] for t in range(k)])
                    for j in range(n)])


def chk(a, b):
    if a != b:
        raise FFault('matmul: extents %d and %d differ' % (a, b), '')


def _transpose(w, v, kw):
    a = v[0]
    m, n = a.shape
    x = a.vals()
    return FArr.of([x[i + j * m] for i in range(m) for j in range(n)],
                   [n, m], a.type)


def _dot(w, v, kw):
    r = core.sc_const(0)
    chk(v[0].size, v[1].size)
    for x, y in zip(v[0].vals(), v[1].vals()):
        r = core.add(r, core.mul(sc(x), sc(y)))
    return r


def _size(w, v, kw):
    dim = kw.get('dim', v[1] if len(v) > 1 else None)
    return v[0].size if dim is None else v[0].shape[dim - 1]


def _reshape(w, v, kw):
    return FArr.of(v[0].vals(), [int(x) for x in v[1].vals()], v[0].type)


def _bound(which):
    def f(w, v, kw):
        d = kw.get('dim', v[1] if len(v) > 1 else None)
        a = v[0]
        lo = list(a.lb)
        r = lo if which == 'l' else [l + s - 1 for l, s in zip(lo, a.shape)]
        return r[d - 1] if d else FArr.of(r, None, 'integer')
    return f


def _mod(w, v, kw):
    def f(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a - idiv(a, b) * b
        raise Unmodelled('mod of reals')
    return w.map2(f, v[0], v[1], None, 0)


def _fold(name):
    g = _minmax(name)

    def f(w, v, kw):
        a = v[0]
        if kw or len(v) > 1 or not a.size:
            raise Unmodelled(name + 'val')
        return g(w, a.vals(), {})
    return f


def _test(g):
    def f(w, v, kw):
        if kw or len(v) > 1:
            raise Unmodelled('reduction along a dimension')
        x = v[0].vals() if isinstance(v[0], FArr) else [v[0]]
        if not all(isinstance(q, bool) for q in x):
            raise Unmodelled('reduction of %r' % (x,))
        return g(x)
    return f


def _merge(w, v, kw):
    n = [x for x in v if isinstance(x, FArr)]
    if not n:
        return v[0] if v[2] else v[1]
    n = n[0]
    for x in v:
        if isinstance(x, FArr) and x.shape != n.shape:
            raise FFault('merge: shapes %r and %r do not conform'
                         % (x.shape, n.shape), '')
    c = [x.vals() if isinstance(x, FArr) else [x] * n.size for x in v]
    r = [a if m else b for a, b, m in zip(*c)]
    return FArr.of(r, n.shape, typeof(r[0]) if r else n.type)


def _spread(w, v, kw):
    a = v[0]
    d = kw.get('dim', v[1] if len(v) > 1 else None)
    n = kw.get('ncopies', v[2] if len(v) > 2 else None)
    if not isinstance(a, FArr):
        return FArr.of([a] * n, [n], typeof(a))
    inner = 1
    for s in a.shape[:d - 1]:
        inner *= s
    x = a.vals()
    out = []
    for o in range(0, len(x), inner or 1):
        for _ in range(n):
            out.extend(x[o:o + inner])
    return FArr.of(out, a.shape[:d - 1] + (n,) + a.shape[d - 1:], a.type)


def _pack(w, v, kw):
    a, m = v[0], v[1] if len(v) > 1 else kw['mask']
    if len(v) > 2 or 'vector' in kw:
        raise Unmodelled('pack')
    x = a.vals()
    q = m.vals() if isinstance(m, FArr) else [m] * len(x)
    if len(q) != len(x):
        raise FFault('pack: shapes do not conform', '')
    return FArr.of([y for y, k in zip(x, q) if k], None, a.type)


def _cshift(w, v, kw):
    a, n = v[0], v[1] if len(v) > 1 else kw['shift']
    if len(a.shape) != 1 or len(v) > 2 or 'dim' in kw:
        raise Unmodelled('cshift')
    x = list(a.vals())
    n = n % len(x) if x else 0
    return FArr.of(x[n:] + x[:n], None, a.type)


def _loc(op):
    def f(w, v, kw):
        a = v[0]
        if len(a.shape) != 1 or len(v) > 1 and v[1] != 1 or \
                set(kw) - {'dim'}:
            raise Unmodelled('location')
        x, k = a.vals(), 0
        for i in range(1, len(x)):
            if relop(op, x[i], x[k]):
                k = i
        k = k + 1 if x else 0
        return k if len(v) > 1 or 'dim' in kw else FArr.of([k], None,
                                                           'integer')
    return f


def _sign(w, v, kw):
    def f(a, b):
        a = _abs(a)
        if relop('lt', b, 0 if isinstance(b, int) else core.sc_const(0)):
            return OPS['-'](0 if isinstance(a, int) else core.sc_const(0), a)
        return a
    if any(isinstance(x, FArr) for x in v):
        raise Unmodelled('elemental sign')
    return f(*v)


def _norm2(w, v, kw):
    if kw or len(v) > 1:
        raise Unmodelled('norm2')
    r = core.sc_const(0)
    for x in v[0].vals():
        r = core.add(r, core.mul(sc(x), sc(x)))
    return core.sqrt(r)


def _eye(w, v, kw):
    return v[0]


INTRINSICS = {
    'maxval': _fold('max'), 'minval': _fold('min'),
    'any': _test(any), 'all': _test(all), 'count': _test(sum),
    'merge': _merge, 'spread': _spread, 'pack': _pack, 'cshift': _cshift,
    'maxloc': _loc('gt'), 'minloc': _loc('lt'), 'sign': _sign,
    'norm2': _norm2, 'shape': lambda w, v, kw: FArr.of(
        list(v[0].shape) if isinstance(v[0], FArr) else [], None, 'integer'),
    'selected_real_kind': lambda w, v, kw: 4 if v and v[0] <= 6 else
    8 if v and v[0] <= 15 else 16, 'selected_int_kind':
    lambda w, v, kw: 4 if v[0] <= 9 else 8,
    'float': lambda w, v, kw: _each(sc)(w, v[:1], kw),
    'abs': _each(_abs),
    'sqrt': _each(lambda x: core.sqrt(sc(x))),
    'epsilon': lambda w, v, kw: eps_value(),
    'min': lambda w, v, kw: _minmax('min')(w, v, kw),
    'max': lambda w, v, kw: _minmax('max')(w, v, kw),
    'mod': _mod, 'modulo': lambda w, v, kw: v[0] % v[1],
    'sum': _sum, 'product': _product, 'matmul': _matmul,
    'transpose': _transpose, 'dot_product': _dot, 'size': _size,
    'reshape': _reshape,
    'real': lambda w, v, kw: _each(sc)(w, v[:1], kw),
    'dble': lambda w, v, kw: _each(sc)(w, v[:1], kw),
    'int': lambda w, v, kw: w.conv(v[0], 'integer'),
    'cos': _each(lambda x: core.cos(sc(x))),
    'sin': _each(lambda x: core.sin(sc(x))),
    'lbound': _bound('l'), 'ubound': _bound('u'),
}
