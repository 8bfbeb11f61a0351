"""A parser for the Rust the repository is written in (no type checking: rustc is the judge of that)."""
from __future__ import annotations
import re
from .values import Untranslatable


class N:
    """syntax node"""
    def __init__(self, k, line, **a):
        self.k, self.line = k, line
        self.__dict__.update(a)

    def __repr__(self):
        return f'{self.k}({", ".join(f"{a}={v!r}" for a, v in self.__dict__.items() if a not in ("k", "line"))})'


class Tok:
    __slots__ = ('t', 'v', 'line', 'sp', 'node')

    def __init__(self, t, v, line, sp=False, node=None):
        self.t, self.v, self.line, self.sp, self.node = t, v, line, sp, node

    def __repr__(self):
        return f'{self.v}'


TOKEN = re.compile(r'''
    (?P<ws>\s+|//[^\n]*)
  | (?P<block>/\*)
  | (?P<str>b?"(?:[^"\\]|\\.)*")
  | (?P<raw>r\#*")
  | (?P<char>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.))')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>0x[0-9a-fA-F_]+\w*|0b[01_]+\w*|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:[iuf]\w+)?)
  | (?P<id>[A-Za-z_]\w*|r\#\w+)
  | (?P<op><<=|>>=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)

ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', "'": "'", '"': '"'}


def unescape(s):
    s = re.sub(r'\\\n\s*', '', s)

    def f(m):
        x = m.group(1)
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        if x[0] == 'u':
            return chr(int(x[2:-1], 16))
        return ESC[x]
    return re.sub(r'\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)', f, s)


def tokenize(text):
    out, i, line = [], 0, 1
    sp = False
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Untranslatable(f'rust token at line {line}: {text[i:i+20]!r}')
        k, v = m.lastgroup, m.group()
        j = m.end()
        if k == 'block':
            depth, j = 1, m.end()
            while depth:
                a, b = text.find('/*', j), text.find('*/', j)
                if b < 0:
                    raise Untranslatable('open comment')
                if 0 <= a < b:
                    depth, j = depth + 1, a + 2
                else:
                    depth, j = depth - 1, b + 2
            k, sp = 'ws', True
        elif k == 'raw':
            h = '"' + '#' * (len(v) - 2)
            e = text.index(h, j)
            out.append(Tok('str', text[j:e], line, sp))
            j = e + len(h)
        elif k == 'ws':
            sp = True
        elif k == 'str':
            out.append(Tok('str', unescape(v[v.index('"') + 1:-1]), line, sp))
        elif k == 'char' and v[0] == 'b':
            out.append(Tok('num', str(ord(unescape(v[2:-1]))), line, sp))
        elif k == 'char':
            out.append(Tok('char', unescape(v[v.index("'") + 1:-1]), line, sp))
        elif k == 'num':
            out.append(Tok('num', v, line, sp))
        else:
            out.append(Tok(k, v, line, sp))
        if k != 'ws':
            sp = False
        line += text.count('\n', i, j)
        i = j
    return out


BIN = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6, '<<': 7, '>>': 7,
       '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<=', '>>='}
OPEN = {'(': ')', '[': ']', '{': '}'}
BLOCKLIKE = {'if', 'match', 'while', 'for', 'loop', 'block', 'unsafe'}


class Parser:
    def __init__(self, toks, macros):
        self.ts, self.i, self.macros = toks, 0, macros

    # ---------------------------------------------------------------- tokens
    def peek(self, k=0):
        return self.ts[self.i + k] if self.i + k < len(self.ts) else Tok('eof', '', self.ts[-1].line if self.ts else 0)

    def at(self, *vs, k=0):
        t = self.peek(k)
        return t.t in ('op', 'id') and t.v in vs

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def want(self, v):
        if not self.eat(v):
            t = self.peek()
            # split compound operators: >> as > >, && as & &, || as | |
            if t.t == 'op' and len(t.v) > len(v) and t.v.startswith(v):
                self.ts = self.ts[:self.i] + [Tok('op', v, t.line), Tok('op', t.v[len(v):], t.line)] + self.ts[self.i + 1:]
                self.i += 1
                return
            self.err(f'expected {v!r}')

    def err(self, msg):
        t = self.peek()
        raise Untranslatable(f'rust syntax, line {t.line}: {msg}, found {t.v!r}')

    def ident(self):
        t = self.next()
        if t.t != 'id':
            self.i -= 1
            self.err('expected a name')
        return t.v

    def tree(self):
        """the tokens of one token tree"""
        t = self.next()
        if t.t == 'op' and t.v in OPEN:
            out, depth = [t], 1
            while depth:
                u = self.next()
                if u.t == 'eof':
                    self.err('unbalanced')
                if u.t == 'op' and u.v in OPEN:
                    depth += 1
                if u.t == 'op' and u.v in OPEN.values():
                    depth -= 1
                out.append(u)
            return out
        return [t]

    # ---------------------------------------------------------------- items
    def attrs(self):
        out = []
        while self.at('#'):
            self.next()
            self.eat('!')
            out.append(' '.join(str(t.v) for t in self.tree()[1:-1]))
        return out

    def items(self, end=None):
        out = []
        while self.peek().t != 'eof' and not (end and self.at(end)):
            out.append(self.item())
        return [o for o in out if o is not None]

    @staticmethod
    def dropped(attrs):
        """configured out of a release build without tests"""
        for a in attrs:
            if a == 'test' or (a.startswith('cfg (') and cfg(a[4:].strip()) is False):
                return True
        return False

    def item(self, inside=False):
        at = self.attrs()
        start = self.peek().line
        drop = self.dropped(at)
        if self.eat('pub'):
            if self.at('('):
                self.tree()
        t = self.peek()
        if drop:
            self.skip()
            return None
        if self.at('use'):
            self.next()
            u = self.use_tree(())
            self.want(';')
            return None if drop else N('use', start, names=u)
        if self.at('mod'):
            self.next()
            name = self.ident()
            if self.eat(';'):
                return None if drop else N('modfile', start, name=name)
            self.want('{')
            its = self.items('}')
            self.want('}')
            return None if drop else N('mod', start, name=name, items=its, attrs=at)
        if self.at('type'):
            self.next()
            name = self.ident()
            g = self.generics()
            if self.eat(':'):
                self.bounds()
            ty = None
            if self.eat('='):
                ty = self.type()
            self.want(';')
            return None if drop else N('type', start, name=name, ty=ty, generics=g)
        if self.at('const', 'static') and not self.at('fn', 'unsafe', k=1):
            self.next()
            self.eat('mut')
            name = self.ident()
            self.want(':')
            ty = self.type()
            e = None
            if self.eat('='):
                e = self.expr()
            self.want(';')
            return None if drop else N('const', start, name=name, ty=ty, e=e)
        if self.at('struct'):
            self.next()
            name = self.ident()
            g = self.generics()
            fields, tup = [], False
            if self.at('where'):
                self.where()
            if self.eat('{'):
                while not self.eat('}'):
                    self.attrs()
                    if self.eat('pub') and self.at('('):
                        self.tree()
                    f = self.ident()
                    self.want(':')
                    fields.append((f, self.type()))
                    if not self.eat(','):
                        self.want('}')
                        break
            elif self.eat('('):
                tup = True
                while not self.eat(')'):
                    self.attrs()
                    if self.eat('pub') and self.at('('):
                        self.tree()
                    fields.append((f'_{len(fields)}', self.type()))
                    if not self.eat(','):
                        self.want(')')
                        break
                self.want(';')
            else:
                self.want(';')
            return None if drop else N('struct', start, name=name, fields=fields, tuple=tup, derives=derives(at), generics=g)
        if self.at('enum'):
            self.next()
            name = self.ident()
            g = self.generics()
            self.want('{')
            vs = []
            while not self.eat('}'):
                self.attrs()
                v = self.ident()
                fields, tup = [], None
                if self.eat('('):
                    tup = True
                    while not self.eat(')'):
                        fields.append((f'_{len(fields)}', self.type()))
                        if not self.eat(','):
                            self.want(')')
                            break
                elif self.eat('{'):
                    tup = False
                    while not self.eat('}'):
                        f = self.ident()
                        self.want(':')
                        fields.append((f, self.type()))
                        if not self.eat(','):
                            self.want('}')
                            break
                elif self.eat('='):
                    self.expr()
                vs.append((v, tup, fields))
                if not self.eat(','):
                    self.want('}')
                    break
            return None if drop else N('enum', start, name=name, variants=vs, derives=derives(at), generics=g)
        if self.at('trait') or (self.at('unsafe') and self.at('trait', k=1)):
            self.eat('unsafe')
            self.next()
            name = self.ident()
            g = self.generics()
            if self.eat(':'):
                self.bounds()
            if self.at('where'):
                self.where()
            self.want('{')
            its = self.items('}')
            self.want('}')
            return None if drop else N('trait', start, name=name, items=its)
        if self.at('impl'):
            self.next()
            g = self.generics()
            self.eat('!')
            ty = self.type()
            tr = None
            if self.eat('for'):
                tr, ty = ty, self.type()
            if self.at('where'):
                self.where()
            self.want('{')
            its = self.items('}')
            self.want('}')
            return None if drop else N('impl', start, ty=ty, trait=tr, items=its, generics=g)
        if self.at('macro_rules'):
            self.next()
            self.want('!')
            name = self.ident()
            body = self.tree()
            self.eat(';')
            if not drop:
                self.macros[name] = macro_rules(body)
            return None
        k = self.i
        while self.at('const', 'async', 'unsafe', 'extern'):
            self.next()
            if self.peek().t == 'str':
                self.next()
        if self.at('fn'):
            f = self.fn(start, at)
            return None if drop else f
        self.i = k
        if t.t == 'id' and self.at('!', k=1):
            self.next()
            self.next()
            tr = self.tree()
            if tr[0].v != '{':
                self.eat(';')
            if drop:
                return None
            raise Untranslatable(f'rust item macro {t.v}! (line {t.line})')
        self.err('expected an item')

    def skip(self):
        """over one item or statement"""
        semi = self.at('use', 'let', 'type') or (self.at('const', 'static') and not self.at('fn', k=1))
        while self.peek().t != 'eof' and not self.at('}'):
            tr = self.tree()
            if tr[0].v == ';' and tr[0].t == 'op':
                return
            if tr[0].v == '{' and tr[0].t == 'op' and not semi:
                self.eat(';')
                return

    def use_tree(self, prefix):
        if self.eat('{'):
            out = []
            while not self.eat('}'):
                out += self.use_tree(prefix)
                if not self.eat(','):
                    self.want('}')
                    break
            return out
        if self.eat('*'):
            return [(prefix, '*', '*')]
        self.eat('::')
        name = self.ident()
        if self.eat('::'):
            return self.use_tree(prefix + (name,))
        as_ = self.ident() if self.eat('as') else name
        if name == 'self':
            return [(prefix[:-1], prefix[-1], as_ if as_ != 'self' else prefix[-1])]
        return [(prefix, name, as_)]

    def generics(self):
        out = []
        if not self.at('<'):
            return out
        self.next()
        while not self.at('>'):
            if self.peek().t == 'life':
                self.next()
                if self.eat(':'):
                    self.bounds()
            elif self.eat('const'):
                out.append((self.ident(), None))
                self.want(':')
                self.type()
            else:
                name = self.ident()
                b = None
                if self.eat(':'):
                    b = self.bounds()
                if self.eat('='):
                    self.type()
                out.append((name, b))
            if not self.eat(','):
                break
        self.want('>')
        return out

    def bounds(self):
        out = []
        while True:
            if self.peek().t == 'life':
                self.next()
            elif self.at('?'):
                self.next()
                self.type_nb()
            elif self.at('>', ',', '{', '=', ';', ')'):
                break
            else:
                out.append(self.type_nb())
            if not self.eat('+'):
                break
        return out

    def where(self):
        self.want('where')
        while not self.at('{', ';'):
            if self.peek().t == 'life':
                self.next()
            else:
                self.type()
            self.want(':')
            self.bounds()
            if not self.eat(','):
                break

    def fn(self, start, at):
        self.want('fn')
        name = self.ident()
        g = self.generics()
        self.want('(')
        params, self_ = [], None
        while not self.eat(')'):
            self.attrs()
            k = self.i
            ref = self.eat('&')
            if ref and self.peek().t == 'life':
                self.next()
            mut = self.eat('mut')
            if self.at('self') and not self.at('::', k=1):
                self.next()
                self_ = ('&mut' if mut else '&') if ref else 'self'
                if self.eat(':'):
                    self.type()
            else:
                self.i = k
                p = self.pattern()
                self.want(':')
                params.append((p, self.type()))
            if not self.eat(','):
                self.want(')')
                break
        ret = None
        if self.eat('->'):
            ret = self.type()
        if self.at('where'):
            self.where()
        body = None
        if not self.eat(';'):
            body = self.block()
        return N('fn', start, name=name, params=params, self_=self_, ret=ret, body=body, attrs=at, generics=g)

    # ---------------------------------------------------------------- types
    def type(self):
        t = self.type_nb()
        while self.at('+'):
            self.next()
            if self.peek().t == 'life':
                self.next()
            else:
                self.type_nb()
        return t

    def type_nb(self):
        t = self.peek()
        if self.at('&', '&&'):
            double = self.next().v == '&&'
            if self.peek().t == 'life':
                self.next()
            m = self.eat('mut')
            r = N('tref', t.line, ty=self.type_nb(), mut=m)
            return N('tref', t.line, ty=r, mut=False) if double else r
        if self.at('*'):
            self.next()
            self.next()
            return N('tref', t.line, ty=self.type_nb(), mut=True)
        if self.eat('('):
            ts = []
            comma = False
            while not self.eat(')'):
                ts.append(self.type())
                comma = self.eat(',')
                if not comma:
                    self.want(')')
                    break
            if len(ts) == 1 and not comma:
                return ts[0]
            return N('ttuple', t.line, ts=ts)
        if self.eat('['):
            e = self.type()
            n = None
            if self.eat(';'):
                n = self.expr()
            self.want(']')
            return N('tslice', t.line, ty=e, n=n)
        if self.at('!'):
            self.next()
            return N('tnever', t.line)
        if self.at('impl', 'dyn'):
            self.next()
            return N('timpl', t.line, bounds=self.bounds())
        if self.at('for'):
            self.next()
            self.generics()
            return self.type_nb()
        if self.at('<'):
            self.next()
            a = self.type()
            b = self.type() if self.eat('as') else None
            self.want('>')
            p = [a]
            while self.eat('::'):
                p.append(self.ident())
            return N('tproj', t.line, ty=a, trait=b, path=p)
        if self.at('fn', 'unsafe', 'extern'):
            while not self.at('fn'):
                self.next()
            self.next()
            self.tree()
            if self.eat('->'):
                self.type_nb()
            return N('tfn', t.line)
        if self.at('_'):
            self.next()
            return N('tinfer', t.line)
        self.eat('::')
        path, args = [], []
        while True:
            path.append(self.ident())
            if self.at('::') and self.at('<', k=1):
                self.next()
            if self.at('<'):
                args = self.type_args()
            elif self.at('('):
                self.tree()
                if self.eat('->'):
                    self.type_nb()
            if not self.eat('::'):
                break
        return N('tpath', t.line, path=tuple(path), args=args)

    def type_args(self):
        self.want('<')
        out = []
        while not self.at('>', '>>', '>=', '>>='):
            if self.peek().t == 'life':
                self.next()
            elif self.peek().t == 'num':
                self.next()
            elif self.peek().t == 'id' and self.at('=', k=1):
                self.next()
                self.next()
                out.append(self.type())
            else:
                out.append(self.type())
            if not self.eat(','):
                break
        self.want('>')
        return out

    # ---------------------------------------------------------------- patterns
    def pattern(self):
        line = self.peek().line
        self.eat('|')
        ps = [self.pattern1()]
        while self.at('|'):
            self.next()
            ps.append(self.pattern1())
        return ps[0] if len(ps) == 1 else N('por', line, ps=ps)

    def pats(self, close):
        out = []
        while not self.eat(close):
            out.append(self.pattern())
            if not self.eat(','):
                self.want(close)
                break
        return out

    def pattern1(self):
        t = self.peek()
        if t.t == 'node':
            self.next()
            if t.node.k == 'path' and len(t.node.path) == 1:
                return N('pname', t.line, name=t.node.path[0], mut=False, ref=False, sub=None)
            if t.node.k == 'lit':
                return N('plit', t.line, e=t.node)
            self.err('pattern')
        if self.at('&', '&&'):
            n = len(self.next().v)
            self.eat('mut')
            p = self.pattern1()
            for _ in range(n):
                p = N('pref', t.line, p=p)
            return p
        if self.eat('('):
            ps, comma = [], False
            while not self.eat(')'):
                ps.append(self.pattern())
                comma = self.eat(',')
                if not comma:
                    self.want(')')
                    break
            if len(ps) == 1 and not comma and ps[0].k != 'prest':
                return ps[0]
            return N('ptuple', t.line, ps=ps)
        if self.eat('['):
            return N('pslice', t.line, ps=self.pats(']'))
        if self.at('..'):
            self.next()
            return N('prest', t.line)
        if self.at('_'):
            self.next()
            return N('pwild', t.line)
        if t.t in ('num', 'str', 'char') or self.at('-', 'true', 'false'):
            return self.range_pat(self.lit_pat())
        if self.at('..='):
            self.next()
            return N('prange', t.line, lo=None, hi=self.lit_pat(), incl=True)
        ref = mut = False
        if self.at('ref') and self.peek(1).t == 'id':
            self.next()
            ref = True
        if self.at('mut'):
            self.next()
            mut = True
        self.eat('::')
        name = self.ident()
        if ref or mut or (not self.at('::', '(', '{') and (name[0].islower() or name[0] == '_') and not self.at('!')):
            sub = self.pattern1() if self.eat('@') else None
            if not (ref or mut or sub) and self.at('..=', '..'):
                return self.range_pat(N('path', t.line, path=(name,)))
            return N('pname', t.line, name=name, mut=mut, ref=ref, sub=sub)
        path = [name]
        while self.eat('::'):
            if self.at('<'):
                self.type_args()
            else:
                path.append(self.ident())
        if self.eat('('):
            return N('pts', t.line, path=tuple(path), ps=self.pats(')'))
        if self.at('{'):
            self.next()
            fs, rest = [], False
            while not self.eat('}'):
                if self.eat('..'):
                    rest = True
                    self.want('}')
                    break
                r = self.eat('ref')
                m = self.eat('mut')
                tk = self.next()
                f = tk.v if tk.t != 'num' else f'_{tk.v}'
                if self.eat(':'):
                    fs.append((f, self.pattern()))
                else:
                    fs.append((f, N('pname', tk.line, name=f, mut=m, ref=r, sub=None)))
                if not self.eat(','):
                    self.want('}')
                    break
            return N('pstruct', t.line, path=tuple(path), fs=fs, rest=rest)
        if self.at('@'):
            self.next()
            return N('pname', t.line, name=name, mut=False, ref=False, sub=self.pattern1())
        return self.range_pat(N('path', t.line, path=tuple(path)), N('ppath', t.line, path=tuple(path)))

    def range_pat(self, e, plain=None):
        if self.at('..=', '...'):
            self.next()
            return N('prange', e.line, lo=e, hi=self.lit_pat(), incl=True)
        if self.at('..'):
            self.next()
            hi = None
            if self.peek().t in ('num', 'char') or self.at('-') or self.peek().t == 'id' and not self.at('if'):
                hi = self.lit_pat()
            return N('prange', e.line, lo=e, hi=hi, incl=False)
        return plain or N('plit', e.line, e=e)

    def lit_pat(self):
        t = self.peek()
        if self.eat('-'):
            return N('unary', t.line, op='-', e=self.lit_pat())
        if t.t == 'id' and not self.at('true', 'false'):
            p = [self.ident()]
            while self.eat('::'):
                p.append(self.ident())
            return N('path', t.line, path=tuple(p))
        return self.literal()

    def literal(self):
        t = self.next()
        if t.t == 'num':
            m = re.match(r'^(0x[0-9a-fA-F_]+|0b[01_]+|[\d_]+(?:\.[\d_]+)?(?:[eE][+-]?\d+)?)(_?[iuf](?:8|16|32|64|128|size))?$', t.v)
            if not m:
                self.err('number')
            s = m.group(1).replace('_', '')
            suf = (m.group(2) or '').strip('_')
            if '.' in s or suf.startswith('f'):
                return N('lit', t.line, v=float(s), ty='float')
            return N('lit', t.line, v=int(s, 0) if not s.isdigit() else int(s), ty='int')
        if t.t in ('str', 'char'):
            return N('lit', t.line, v=t.v, ty=t.t)
        if t.v in ('true', 'false'):
            return N('lit', t.line, v=t.v == 'true', ty='bool')
        self.i -= 1
        self.err('literal')

    # ---------------------------------------------------------------- statements
    def block(self):
        line = self.peek().line
        self.want('{')
        stmts, tail = [], None
        while not self.eat('}'):
            at = self.attrs()
            drop = self.dropped(at)
            t = self.peek()
            if drop:
                self.skip()
                continue
            if self.eat(';'):
                continue
            if self.at('let'):
                s = self.let()
            elif self.at('fn', 'struct', 'enum', 'impl', 'trait', 'use', 'type', 'macro_rules', 'static', 'mod') or \
                    (self.at('const') and not self.at('{', k=1)):
                s = self.item()
                if s is not None:
                    s = N('sitem', s.line, item=s)
            else:
                e = self.expr_stmt()
                if self.eat(';'):
                    s = N('sexpr', t.line, e=e, semi=True)
                elif self.at('}'):
                    tail = None if drop else e
                    continue
                elif blocklike(e):
                    s = N('sexpr', t.line, e=e, semi=False)
                else:
                    self.err('expected ;')
            if s is not None and not drop:
                stmts.append(s)
        return N('block', line, stmts=stmts, tail=tail)

    def let(self):
        t = self.next()
        p = self.pattern()
        ty = self.type() if self.eat(':') else None
        e = els = None
        if self.eat('='):
            e = self.expr()
        if self.eat('else'):
            els = self.block()
        self.want(';')
        return N('slet', t.line, p=p, ty=ty, e=e, els=els)

    def expr_stmt(self):
        """an expression statement: one that ends in a block is complete unless a method call or ? follows"""
        t = self.peek()
        if self.at('if', 'match', 'while', 'for', 'loop', '{', 'unsafe') or (t.t == 'life' and self.at(':', k=1)):
            e = self.primary(True)
            if self.at('.') or self.at('?'):
                e = self.postfix(e, True)
                return self.binary_rest(e, 0, True)
            return e
        return self.expr()

    # ---------------------------------------------------------------- expressions
    def expr(self, st=True):
        return self.assign(st)

    def assign(self, st):
        t = self.peek()
        e = self.range(st)
        if self.peek().t == 'op' and self.peek().v in ASSIGN:
            op = self.next().v
            r = self.assign(st)
            return N('assign', t.line, l=e, op=op, r=r)
        return e

    def range(self, st):
        t = self.peek()
        if self.at('..', '..='):
            op = self.next().v
            hi = self.binary(1, st) if self.starts(st) else None
            return N('range', t.line, lo=None, hi=hi, incl=op == '..=')
        e = self.binary(1, st)
        if self.at('..', '..='):
            op = self.next().v
            hi = self.binary(1, st) if self.starts(st) else None
            return N('range', t.line, lo=e, hi=hi, incl=op == '..=')
        return e

    def starts(self, st):
        t = self.peek()
        if t.t in ('num', 'str', 'char', 'node', 'life'):
            return True
        if t.t == 'id':
            return t.v not in ('as', 'else', 'in', 'where')
        return t.t == 'op' and (t.v in ('(', '[', '-', '!', '*', '&', '&&', '|', '||', '::', '<') or (t.v == '{' and st))

    def binary(self, prec, st):
        return self.binary_rest(self.unary(st), prec, st)

    def binary_rest(self, e, prec, st):
        while True:
            t = self.peek()
            if self.at('as'):
                self.next()
                e = N('cast', t.line, e=e, ty=self.type_nb())
                continue
            p = BIN.get(t.v) if t.t == 'op' else None
            if p is None or p < prec:
                return e
            self.next()
            r = self.unary(st)
            while True:
                u = self.peek()
                if self.at('as'):
                    self.next()
                    r = N('cast', u.line, e=r, ty=self.type_nb())
                    continue
                q = BIN.get(u.v) if u.t == 'op' else None
                if q is not None and q > p:
                    r = self.binary_rest(r, p + 1, st)
                    continue
                break
            e = N('bin', t.line, op=t.v, l=e, r=r)

    def unary(self, st):
        t = self.peek()
        if self.at('-', '!', '*'):
            self.next()
            return N('unary', t.line, op=t.v, e=self.unary_cast(st))
        if self.at('&', '&&'):
            n = len(self.next().v)
            m = self.eat('mut')
            e = N('ref', t.line, e=self.unary_cast(st), mut=m)
            return N('ref', t.line, e=e, mut=False) if n == 2 else e
        if self.at('let'):
            self.next()
            p = self.pattern()
            self.want('=')
            return N('let', t.line, p=p, e=self.binary(3, False))
        if self.at('|', '||', 'move') or (self.at('static') and self.at('|', k=1)):
            return self.closure()
        if self.at('return'):
            self.next()
            return N('return', t.line, e=self.expr(st) if self.starts(st) else None)
        if self.at('break'):
            self.next()
            lab = self.next().v if self.peek().t == 'life' else None
            return N('break', t.line, label=lab, e=self.expr(st) if self.starts(st) else None)
        if self.at('continue'):
            self.next()
            lab = self.next().v if self.peek().t == 'life' else None
            return N('continue', t.line, label=lab)
        return self.postfix(self.primary(st), st)

    def unary_cast(self, st):
        return self.unary(st)

    def closure(self):
        t = self.peek()
        self.eat('move')
        ps = []
        if not self.eat('||'):
            self.want('|')
            while not self.eat('|'):
                p = self.pattern1()
                if self.eat(':'):
                    self.type()
                ps.append(p)
                if not self.eat(','):
                    self.want('|')
                    break
        if self.eat('->'):
            self.type()
            body = self.block()
        else:
            body = self.expr()
        return N('closure', t.line, ps=ps, body=body)

    def postfix(self, e, st):
        while True:
            t = self.peek()
            if self.eat('?'):
                e = N('try', t.line, e=e)
            elif self.at('.') :
                self.next()
                u = self.next()
                if u.t == 'num':
                    for part in u.v.split('.'):
                        e = N('field', t.line, e=e, name=f'_{part}')
                elif u.v == 'await':
                    self.err('await')
                else:
                    name = u.v
                    targs = []
                    if self.at('::'):
                        self.next()
                        targs = self.type_args()
                    if self.at('('):
                        e = N('mcall', u.line, e=e, name=name, args=self.args(), targs=targs)
                    else:
                        e = N('field', t.line, e=e, name=name)
            elif self.at('('):
                e = N('call', t.line, f=e, args=self.args())
            elif self.at('['):
                self.next()
                i = self.expr()
                self.want(']')
                e = N('index', t.line, e=e, i=i)
            else:
                return e

    def args(self):
        self.want('(')
        out = []
        while not self.eat(')'):
            out.append(self.expr())
            if not self.eat(','):
                self.want(')')
                break
        return out

    def cond(self):
        return self.expr(False)

    def primary(self, st):
        t = self.peek()
        if t.t == 'node':
            self.next()
            return t.node
        if t.t in ('num', 'str', 'char') or self.at('true', 'false'):
            return self.literal()
        if t.t == 'life':
            lab = self.next().v
            self.want(':')
            e = self.primary(st)
            e.label = lab
            return e
        if self.eat('('):
            es, comma = [], False
            while not self.eat(')'):
                es.append(self.expr())
                comma = self.eat(',')
                if not comma:
                    self.want(')')
                    break
            if len(es) == 1 and not comma:
                return N('paren', t.line, e=es[0])
            return N('tuple', t.line, es=es)
        if self.eat('['):
            if self.eat(']'):
                return N('array', t.line, es=[])
            e = self.expr()
            if self.eat(';'):
                n = self.expr()
                self.want(']')
                return N('repeat', t.line, e=e, n=n)
            es = [e]
            while self.eat(','):
                if self.at(']'):
                    break
                es.append(self.expr())
            self.want(']')
            return N('array', t.line, es=es)
        if self.at('{'):
            return self.block()
        if self.at('unsafe'):
            self.next()
            return self.block()
        if self.at('if'):
            return self.if_()
        if self.at('match'):
            self.next()
            e = self.cond()
            self.want('{')
            arms = []
            while not self.eat('}'):
                at = self.attrs()
                p = self.pattern()
                g = self.expr() if self.eat('if') else None
                self.want('=>')
                b = self.expr_stmt() if self.at('{', 'if', 'match', 'loop', 'while', 'for') else self.expr()
                if not self.dropped(at):
                    arms.append((p, g, b))
                if not self.eat(','):
                    if self.at('}') or blocklike(b):
                        continue
                    self.err('expected ,')
            return N('match', t.line, e=e, arms=arms)
        if self.at('while'):
            self.next()
            c = self.cond()
            return N('while', t.line, c=c, body=self.block(), label=None)
        if self.at('loop'):
            self.next()
            return N('loop', t.line, body=self.block(), label=None)
        if self.at('for'):
            self.next()
            p = self.pattern()
            self.want('in')
            e = self.cond()
            return N('for', t.line, p=p, e=e, body=self.block(), label=None)
        if self.at('|', '||', 'move'):
            return self.closure()
        if self.at('return', 'break', 'continue'):
            return self.unary(st)
        if self.at('<'):
            self.next()
            a = self.type()
            b = self.type() if self.eat('as') else None
            self.want('>')
            p = []
            while self.eat('::'):
                p.append(self.ident())
            return N('qpath', t.line, ty=a, trait=b, path=tuple(p))
        if t.t == 'id' or self.at('::'):
            self.eat('::')
            path, targs = [self.ident()], []
            while self.at('::'):
                self.next()
                if self.at('<'):
                    targs = self.type_args()
                else:
                    path.append(self.ident())
            if self.at('!') and not self.at('=', k=1) and self.at('(', '[', '{', k=1):
                self.next()
                return self.macro(path[-1], t)
            if self.at('{') and st and self.struct_ahead():
                return self.struct_lit(tuple(path), t)
            return N('path', t.line, path=tuple(path), targs=targs)
        self.err('expression')

    def struct_ahead(self):
        """is the brace here a struct literal? (only called where one may stand)"""
        a, b = self.peek(1), self.peek(2)
        prev = self.ts[self.i - 1]
        if not (prev.t == 'id' and (prev.v[0].isupper())):
            return False
        if a.t == 'op' and a.v == '}':
            return True
        if a.t == 'op' and a.v == '..':
            return True
        return a.t in ('id', 'num') and b.t == 'op' and b.v in (':', ',', '}')

    def struct_lit(self, path, t):
        self.want('{')
        fs, base = [], None
        while not self.eat('}'):
            self.attrs()
            if self.eat('..'):
                base = self.expr()
                self.want('}')
                break
            tk = self.next()
            f = tk.v if tk.t != 'num' else f'_{tk.v}'
            e = self.expr() if self.eat(':') else N('path', tk.line, path=(f,), targs=[])
            fs.append((f, e))
            if not self.eat(','):
                self.want('}')
                break
        return N('struct_lit', t.line, path=path, fs=fs, base=base)

    def if_(self):
        t = self.next()
        c = self.cond()
        a = self.block()
        b = None
        if self.eat('else'):
            b = self.if_() if self.at('if') else self.block()
        return N('if', t.line, c=c, a=a, b=b)

    # ---------------------------------------------------------------- macros
    def macro(self, name, t):
        toks = self.tree()
        inner = toks[1:-1]
        if name in self.macros:
            p = Parser(expand(self.macros[name], inner, name, self.macros), self.macros)
            if p.at('{') and False:
                return p.block()
            e = p.expr()
            p.eat(';')
            if p.peek().t != 'eof':
                raise Untranslatable(f'rust macro {name}! (line {t.line})')
            return N('paren', t.line, e=e)
        p = Parser(inner, self.macros)
        if name == 'matches':
            e = p.expr()
            p.want(',')
            pat = p.pattern()
            g = p.expr() if p.eat('if') else None
            return N('matches', t.line, e=e, p=pat, g=g)
        if name == 'vec':
            if p.peek().t == 'eof':
                return N('mac', t.line, name='vec', args=[])
            e = p.expr()
            if p.eat(';'):
                n = p.expr()
                return N('repeat', t.line, e=e, n=n)
            es = [e]
            while p.eat(','):
                if p.peek().t == 'eof':
                    break
                es.append(p.expr())
            return N('mac', t.line, name='vec', args=es)
        args = []
        while p.peek().t != 'eof':
            if p.peek().t == 'id' and p.at('=', k=1):
                p.next()
                p.next()
            args.append(p.expr())
            if not p.eat(','):
                break
        if p.peek().t != 'eof':
            raise Untranslatable(f'rust macro {name}! (line {t.line})')
        return N('mac', t.line, name=name, args=args)


def blocklike(e):
    return e.k in ('if', 'match', 'while', 'for', 'loop', 'block') or (e.k == 'mac' and False)


def derives(attrs):
    out = set()
    for a in attrs:
        m = re.match(r'derive \( (.*) \)$', a)
        if m:
            out |= {x.strip() for x in m.group(1).split(',')}
    return out


def cfg(s):
    """value of a cfg predicate in a release build (None: unknown)"""
    s = s.strip()
    while s.startswith('(') and s.endswith(')'):
        s = s[1:-1].strip()
    if s in ('test', 'debug_assertions'):
        return False
    m = re.match(r'(all|any|not)\s*\((.*)\)$', s)
    if not m:
        return None
    parts, depth, cur = [], 0, ''
    for ch in m.group(2):
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
            continue
        depth += ch == '('
        depth -= ch == ')'
        cur += ch
    if cur.strip():
        parts.append(cur)
    vs = [cfg(p) for p in parts]
    if m.group(1) == 'not':
        return None if vs[0] is None else not vs[0]
    if m.group(1) == 'all':
        return False if False in vs else (None if None in vs else True)
    return True if True in vs else (None if None in vs else False)


# -------------------------------------------------------------------- macro_rules
def split_trees(toks):
    p = Parser(toks, {})
    out = []
    while p.peek().t != 'eof':
        out.append(p.tree())
    return out


def parse_matcher(toks):
    """list of ('tok', Tok) | ('frag', name, kind) | ('rep', sub, sep, op) | ('group', open, sub)"""
    out, i = [], 0
    trees = split_trees(toks)
    while i < len(trees):
        tr = trees[i]
        if tr[0].v == '$' and tr[0].t == 'op':
            nx = trees[i + 1]
            if nx[0].v == '(' and nx[0].t == 'op':
                sub = parse_matcher(nx[1:-1])
                i += 2
                sep = None
                if trees[i][0].v not in ('*', '+', '?') or trees[i][0].t != 'op':
                    sep = trees[i][0]
                    i += 1
                out.append(('rep', sub, sep, trees[i][0].v))
                i += 1
                continue
            name = nx[0].v
            if i + 2 < len(trees) and trees[i + 2][0].v == ':' and trees[i + 2][0].t == 'op':
                out.append(('frag', name, trees[i + 3][0].v))
                i += 4
            else:
                out.append(('var', name))
                i += 2
            continue
        if len(tr) > 1:
            out.append(('group', tr[0], parse_matcher(tr[1:-1]), tr[-1]))
        else:
            out.append(('tok', tr[0]))
        i += 1
    return out


def macro_rules(body):
    rules = []
    trees = split_trees(body[1:-1])
    i = 0
    while i < len(trees):
        rules.append((parse_matcher(trees[i][1:-1]), parse_matcher(trees[i + 2][1:-1])))
        i += 3
        if i < len(trees) and trees[i][0].v == ';':
            i += 1
    return rules


def match_macro(m, toks, macros):
    """bindings, or None"""
    p = Parser(list(toks), macros)
    b = {}
    try:
        if match_seq(m, p, b) and p.peek().t == 'eof':
            return b
    except Untranslatable:
        pass
    return None


def match_seq(m, p, b):
    for x in m:
        if x[0] == 'tok':
            t = p.next()
            if t.t != x[1].t or t.v != x[1].v:
                return False
        elif x[0] == 'group':
            tr = p.tree()
            if tr[0].v != x[1].v:
                return False
            q = Parser(tr[1:-1], p.macros)
            if not match_seq(x[2], q, b) or q.peek().t != 'eof':
                return False
        elif x[0] == 'frag':
            b[x[1]] = frag(x[2], p)
        elif x[0] == 'rep':
            outs = []
            while True:
                save = p.i
                if p.peek().t == 'eof':
                    break
                if outs and x[2] is not None:
                    t = p.peek()
                    if t.v != x[2].v:
                        break
                    p.next()
                bb = {}
                try:
                    ok = match_seq(x[1], p, bb)
                except Untranslatable:
                    ok = False
                if not ok or p.i == save:
                    p.i = save
                    break
                outs.append(bb)
                if x[3] == '?':
                    break
            for n in names(x[1]):
                b[n] = [o[n] for o in outs]
            if x[3] == '+' and not outs:
                return False
        else:
            return False
    return True


def names(m):
    out = []
    for x in m:
        if x[0] in ('frag', 'var'):
            out.append(x[1])
        elif x[0] == 'rep':
            out += names(x[1])
        elif x[0] == 'group':
            out += names(x[2])
    return out


def frag(kind, p):
    t = p.peek()
    if kind == 'expr':
        e = p.expr()
        return [Tok('node', '', t.line, node=N('paren', t.line, e=e) if e.k not in ('path', 'lit') else e)]
    if kind == 'tt':
        return p.tree()
    if kind in ('ident', 'lifetime'):
        return [p.next()]
    if kind in ('literal',):
        return [Tok('node', '', t.line, node=p.literal())]
    if kind in ('ty', 'pat', 'pat_param', 'path', 'block', 'stmt'):
        s = p.i
        {'ty': p.type, 'pat': p.pattern, 'pat_param': p.pattern1, 'path': p.type, 'block': p.block}[kind]()
        return p.ts[s:p.i]
    raise Untranslatable(f'macro fragment {kind}')


def transcribe(m, b):
    out = []
    for x in m:
        if x[0] == 'tok':
            out.append(x[1])
        elif x[0] in ('var', 'frag'):
            if x[1] not in b:
                raise Untranslatable(f'macro variable {x[1]}')
            out += b[x[1]]
            if x[0] == 'frag':
                raise Untranslatable('macro transcriber')
        elif x[0] == 'group':
            out += [x[1]] + transcribe(x[2], b) + [x[3]]
        else:
            ns = [n for n in names(x[1]) if n in b and isinstance(b[n], list) and (not b[n] or isinstance(b[n][0], list))]
            if not ns:
                raise Untranslatable('macro repetition')
            k = max(len(b[n]) for n in ns)
            for i in range(k):
                bb = dict(b)
                for n in ns:
                    bb[n] = b[n][i]
                if i and x[2] is not None:
                    out.append(x[2])
                out += transcribe(x[1], bb)
    return out


def expand(rules, toks, name, macros):
    for m, t in rules:
        b = match_macro(m, toks, macros)
        if b is not None:
            return transcribe(t, b)
    raise Untranslatable(f'no rule of {name}! applies')


def parse(text):
    macros = {}
    p = Parser(tokenize(text), macros)
    return p.items()
