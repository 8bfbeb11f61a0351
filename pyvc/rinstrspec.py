"""Contracts of the text of programs (src/instrs.rs): show_state, show_slot, read_slot, show_instr, read_instr, CompProg::from_str and
show; and of the functions Python calls (src/lib.rs).

Characters are code points.  A program's text is R rows of cells, row r with N(r) of them; what cell (r, j) says is INSTR(r, j): nothing
("..."), or a colour 0-9, a direction and a state, A for 0 and so on.  from_str gives the table with exactly these entries; show gives
the text with a cell for each slot of so many rows and columns."""
from __future__ import annotations
import ast
import z3
from .runspec import Given
from .values import *
from .engine import Contract, Ext, LoopSpec, LoopIter, RangeV, PathEnd, SB, SI, zbool
from .rengine import RDomain, Some, Wrap, Panic, deref, is_none, inner
from .rtreespec import INS, NONE, SOME, pr, sh, to, kmax, instr, tup
from .seq import SeqV, SeqDomain, as_seq, term

INSTRS, LIB = "src/instrs.rs", "src/lib.rs"
I, B = z3.IntSort(), z3.BoolSort()
F = z3.Function
DOT, ZERO, LETTER_A, LETTER_L, LETTER_R = 46, 48, 65, 76, 82
LAST = 190                                                 # the last state whose character fits a byte
R, N, INSTR = z3.Int('ROWS'), F('CELLS', I, I), F('INSTR', I, I, INS)
TBL, SIZE, QF, CF = F('TBL', I, I, INS), z3.Int('SIZE'), F('PLACEQ', I, I), F('PLACEC', I, I)
QMAX, CMAX = z3.Ints('QMAX CMAX')                          # the greatest state and colour in the table: of a slot, entered, printed
PQ, PC = F('PQ', I, I), F('PC', I, I)                      # those of the first so many entries


def good(i):
    return z3.Implies(i != NONE, z3.And(pr(i) >= 0, pr(i) <= 9, to(i) >= 0, to(i) <= LAST))


def codes_of(i):
    """the characters of a cell"""
    n = i == NONE
    return [z3.If(n, DOT, ZERO + pr(i)), z3.If(n, DOT, z3.If(sh(i), LETTER_R, LETTER_L)), z3.If(n, DOT, LETTER_A + to(i))]


# ------------------------------------------------------------------ values
class CharV(Ext):
    """a character, or the byte it fits"""
    rust_value = True

    def __init__(self, e):
        self.e = term(e)

    def __repr__(self):
        return f'Char({self.e})'

    def compare(self, X, op, other, refl):
        o = code(other)
        a, b = (o, self.e) if refl else (self.e, o)
        return SB({'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]())

    def binop(self, X, op, other, refl):
        o = SI(code(other))
        return X.binop(op, o, SI(self.e)) if refl else X.binop(op, SI(self.e), o)

    def rm_to_digit(self, X, base):
        if base != 10:
            raise Untranslatable('digits of another base')
        return Some(SI(self.e - ZERO)) if X.branch(z3.And(self.e >= ZERO, self.e <= ZERO + 9)) else None

    def rm_is_ascii_digit(self, X):
        return SB(z3.And(self.e >= ZERO, self.e <= ZERO + 9))

    def rm_into(self, X, *kind):
        return SI(self.e)

    def rm_to_string(self, X):
        return TextV([self.e])


def code(v):
    v = deref(v)
    if isinstance(v, CharV):
        return v.e
    if isinstance(v, str) and len(v) == 1:
        return z3.IntVal(ord(v))
    return zint(v)


class TextV(Ext):
    """a text of so many characters"""
    rust_value = True

    def __init__(self, codes):
        self.codes = [z3.simplify(c) if z3.is_expr(c) else z3.IntVal(c) for c in codes]

    def __repr__(self):
        return f'Text({self.codes})'

    def compare(self, X, op, other, refl):
        if op not in ('==', '!='):
            raise Untranslatable('order of texts')
        o = text(other)
        e = z3.And([a == b for a, b in zip(self.codes, o.codes)]) if len(o.codes) == len(self.codes) else z3.BoolVal(False)
        return SB(e if op == '==' else z3.Not(e))

    def rm_contains(self, X, c):
        c = deref(c)
        if isinstance(c, str) and len(c) != 1:
            return SB(self.at(c))
        return SB(z3.Or([x == code(c) for x in self.codes]))

    def at(self, s):
        """where a longer text is within"""
        k = len(s)
        return z3.Or([z3.And([x == ord(c) for x, c in zip(self.codes[i:], s)]) for i in range(len(self.codes) - k + 1)] + [z3.BoolVal(False)])

    def rm_starts_with(self, X, c):
        c = deref(c)
        if isinstance(c, str):
            return SB(z3.And([x == ord(y) for x, y in zip(self.codes, c)])) if len(c) <= len(self.codes) else False
        return SB(self.codes[0] == code(c)) if self.codes else False

    def rm_chars(self, X):
        return GenV(iter([CharV(c) for c in self.codes]))
    rm_bytes = rm_chars

    def rm_as_bytes(self, X):
        return Lst([CharV(c) for c in self.codes])

    def rm_char_indices(self, X):
        return GenV(iter([(k, CharV(c)) for k, c in enumerate(self.codes)]))

    def rm_len(self, X):
        return len(self.codes)

    def rm_is_empty(self, X):
        return not self.codes

    def same(self, X):
        return self
    rm_to_owned = rm_to_string = rm_as_str = rm_clone = rm_into = rm_as_ref = lambda self, X, *a: self

    def rm_push(self, X, c):
        self.codes = self.codes + [code(c)]
        X.heap_writes += 1

    def rm_push_str(self, X, s):
        self.codes = self.codes + text(s).codes
        X.heap_writes += 1


def text(v):
    v = deref(v)
    if isinstance(v, TextV):
        return v
    if isinstance(v, CharV):
        return TextV([v.e])
    if isinstance(v, str):
        return TextV([ord(c) for c in v])
    raise Untranslatable(f'text {v!r}')


class ProgText(Ext):
    """the text of a program, with whitespace around it until trimmed"""
    rust_value = True

    def __init__(self, trimmed=False):
        self.trimmed = trimmed

    def rm_trim(self, X):
        return ProgText(True)

    def rm_split(self, X, sep):
        if deref(sep) != '  ' or not self.trimmed:
            raise Untranslatable('rows of the text')
        return SeqV(R, lambda X, r: RowText(r), 'gen', label='rows')

    def rm_as_str(self, X):
        return self
    rm_to_owned = rm_as_ref = rm_clone = rm_into = rm_to_string = rm_as_str


class RowText(Ext):
    """the text of one row"""
    rust_value = True

    def __init__(self, r):
        self.r = r

    def cells(self, X):
        r = self.r
        X.assume(z3.Implies(z3.And(r >= 0, r < R), N(r) >= 1))

        def at(X, j):
            i = INSTR(r, j)
            X.assume(good(i))
            return TextV(codes_of(i))
        return SeqV(N(r), at, 'gen', label='cells')

    def rm_split(self, X, sep):
        if deref(sep) != ' ':
            raise Untranslatable('cells of a row')
        return self.cells(X)

    def rm_split_whitespace(self, X):
        return self.cells(X)
    rm_split_ascii_whitespace = rm_split_whitespace

    def rm_trim(self, X):
        return self


class TblV(Ext):
    """a table: at most one entry for a slot"""
    def rust_class(self, X):
        return ext_class(X.world, 'show')

    def entry(self, X, q, c):
        i = TBL(q, c)
        X.assume(good(i))
        X.assume(z3.Implies(i != NONE, z3.And(q >= 0, c >= 0, q <= QMAX, to(i) <= QMAX, c <= CMAX, pr(i) <= CMAX)))
        return i

    def rm_get(self, X, k):
        q, c = (zint(deref(x)) for x in deref(k))
        i = self.entry(X, q, c)
        return Some(tup(i)) if X.branch(i != NONE) else None
    rm_get_instr = rm_get

    def rm_contains_key(self, X, k):
        q, c = (zint(deref(x)) for x in deref(k))
        return SB(self.entry(X, q, c) != NONE)

    def getitem(self, X, k):
        r = self.rm_get(X, k)
        if r is None:
            raise PyRaise(Panic, ())
        return r.v

    def rm_iter(self, X):
        return EntriesV(self, 'both')

    def rm_keys(self, X):
        return EntriesV(self, 'keys')

    def rm_values(self, X):
        return EntriesV(self, 'values')

    def rm_len(self, X):
        X.assume(SIZE >= 0)
        return SI(SIZE)

    def loop_iter(self, X):
        return EntriesV(self, 'both').loop_iter(X)
    rm_into_iter = rm_iter

    def rm_clone(self, X):
        return self
    rm_as_ref = rm_borrow = rm_clone


class EntriesV(Ext):
    """the entries in their order: number k is of slot (QF(k), CF(k))"""
    def __init__(self, tbl, what):
        self.tbl, self.what = tbl, what

    def elem(self, X, q, c):
        i = self.tbl.entry(X, q, c)
        X.assume(i != NONE)
        key = (SI(q), SI(c))
        return key if self.what == 'keys' else tup(i) if self.what == 'values' else (key, tup(i))

    def as_seq(self, X):
        s = SeqV(SIZE, lambda X, k: self.elem(X, QF(k), CF(k)), 'list', label='entries')
        s.entries = self
        X.assume(z3.And(SIZE >= 0, PQ(0) == 0, PC(0) == 0, PQ(SIZE) == QMAX, PC(SIZE) == CMAX))
        return s
    rm_into_iter = lambda self, X: self
    rm_iter = rm_copied = rm_cloned = rm_by_ref = rm_into_iter

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def rm_map(self, X, f):
        s = self.as_seq(X)
        r = SeqV(s.n, lambda X, k: X.call(f, [s.at(X, k)], {}), 'gen', label='map entries')
        r.entries = self
        return r

    def step(self, X, a):
        """what one more entry makes of the greatest state or colour so far"""
        q, c = X.fresh('q'), X.fresh('c')
        e = self.elem(X, q, c)
        i = TBL(q, c)
        return e, kmax(kmax(a, q), to(i)), kmax(kmax(a, c), pr(i))

    def rm_fold(self, X, start, f):
        parts = []

        def fresh(v):
            v = deref(v)
            if isinstance(v, tuple):
                return tuple(fresh(x) for x in v)
            if isinstance(v, bool) or not isinstance(v, (int, SI)):
                raise Untranslatable('fold of other than numbers')
            x = X.fresh('acc')
            X.assume(x >= zint(v))
            parts.append((zint(v), x))
            return SI(x)
        X.assume(z3.And(QMAX >= 0, CMAX >= 0))
        X.prove('fold.start', z3.And([z >= 0 for z in flat(start)]))
        acc = fresh(start)
        q, c = X.fresh('q'), X.fresh('c')
        e = self.elem(X, q, c)
        i = TBL(q, c)
        after = flat(X.call(f, [acc, e], {}))
        X.prove('fold.shape', z3.BoolVal(len(after) == len(parts)))
        out = []
        for (v0, x), y in zip(parts, after):
            s, k = kmax(kmax(x, q), to(i)), kmax(kmax(x, c), pr(i))
            if X.prover_ok(y == s):
                out.append(kmax(v0, QMAX))
            else:
                X.prove('fold.greatest', y == k)
                out.append(kmax(v0, CMAX))
        return shaped(start, out)


def flat(v):
    v = deref(v)
    return [x for y in v for x in flat(y)] if isinstance(v, tuple) else [zint(v)]


def shaped(like, out):
    like = deref(like)
    return tuple(shaped(x, out) for x in like) if isinstance(like, tuple) else SI(out.pop(0))


class JoinV(Ext):
    """texts of unknown number, joined"""
    rust_value = True

    def __init__(self, seq, sep):
        self.seq, self.sep = seq, sep


class FlatV(Ext):
    """for each of a sequence, the items of the sequence a function gives"""
    def __init__(self, seq, f):
        self.seq, self.f = seq, f

    def rm_collect(self, X, kind='?'):
        if kind not in ('BTreeMap', '?'):
            raise Untranslatable(f'collect into {kind}')
        return built(X, self)


class BuiltV(Ext):
    """the table being built, at the slot watched"""
    def __init__(self, cur):
        self.cur = cur

    def rm_insert(self, X, k, v):
        q, c = (zint(deref(x)) for x in deref(k))
        e = instr(v)
        q0, c0 = X.ghost['slot']
        self.cur = z3.If(z3.And(q == q0, c == c0), e, self.cur)
        X.heap_writes += 1
        return Opaque('old entry')


def built(X, f):
    """the pairs are those of the text: each cell with an instruction, at its slot"""
    s = f.seq
    s.plain()
    X.prove('every-row', s.n == R)
    r, j = X.fresh('row'), X.fresh('cell')
    X.assume(z3.And(r >= 0, r < R))
    cells = as_seq(X, deref(X.call(f.f, [s.at(X, r)], {})))
    if cells is None:
        raise Untranslatable('cells of a row')
    X.prove('every-cell', cells.n == N(r))
    X.assume(z3.And(j >= 0, j < N(r)))
    X.assume(good(INSTR(r, j)))
    some = True if cells.cond is None else X.truth(cells.cond(X, j))
    X.prove('entry-iff-there-is-an-instruction', z3.BoolVal(bool(some)) == (INSTR(r, j) != NONE))
    if some:
        key, v = deref(cells.at(X, j))
        q, c = (zint(deref(x)) for x in deref(key))
        X.prove('slot-of-the-entry', z3.And(q == r, c == j))
        X.prove('instruction-of-the-entry', instr(v) == INSTR(r, j))
    q0, c0 = X.ghost['slot']
    return BuiltV(said(q0, c0))


def said(q, c):
    """what the text says of a slot"""
    return z3.If(z3.And(q >= 0, q < R, c >= 0, c < N(q)), INSTR(q, c), NONE)


def built_of(X, v):
    v = deref(v)
    if isinstance(v, BuiltV):
        return v
    if isinstance(v, Dct) and not v.d:
        return BuiltV(NONE)
    raise Untranslatable(f'table {v!r}')


# ------------------------------------------------------------------ contracts
def opt_state(X):
    if X.choose(2, 'state') == 0:
        return None, None
    s = X.fresh('state')
    X.assume(z3.And(s >= 0, s <= LAST))
    return Some(SI(s)), s


class ShowState(Contract):
    """'.' for none, A for 0 and so on"""
    key = f'{INSTRS}:show_state'
    total = True

    def setup(self, X):
        v, X.ghost['s'] = opt_state(X)
        return [v]

    def post(self, X, args, res):
        s = X.ghost['s']
        X.prove('letter', code(res) == (DOT if s is None else LETTER_A + s))

    def apply(self, X, args, kw):
        v = deref(args[0])
        if is_none(X, v):
            return CharV(DOT)
        s = zint(deref(inner(X, v)))
        X.prove('show_state.state', z3.And(s >= 0, s <= LAST))
        return CharV(LETTER_A + s)


class ShowSlot(Contract):
    """the state's letter and the colour's digit"""
    key = f'{INSTRS}:show_slot'
    total = True

    def setup(self, X):
        q, c = X.fresh('state'), X.fresh('color')
        X.assume(z3.And(q >= 0, q <= LAST, c >= 0, c <= 9))
        X.ghost['at'] = q, c
        return [(SI(q), SI(c))]

    def post(self, X, args, res):
        q, c = X.ghost['at']
        same_text(X, res, [LETTER_A + q, ZERO + c])


def same_text(X, res, codes, name='text'):
    t = text(res)
    if len(t.codes) != len(codes):
        X.prove(name, z3.BoolVal(False))
    else:
        X.prove(name, z3.And([a == b for a, b in zip(t.codes, codes)]))


class ReadSlot(Contract):
    """of a letter and a digit: the slot shown as these"""
    key = f'{INSTRS}:read_slot'
    total = True

    def setup(self, X):
        q, c = X.fresh('state'), X.fresh('color')
        X.assume(z3.And(q >= 0, q <= LAST, c >= 0, c <= 9))
        X.ghost['at'] = q, c
        return [TextV([LETTER_A + q, ZERO + c])]

    def post(self, X, args, res):
        a, b = (zint(deref(x)) for x in deref(res))
        q, c = X.ghost['at']
        X.prove('state', a == q)
        X.prove('colour', b == c)


class ShowInstr(Contract):
    """'...' for none; else the colour's digit, R or L, the state's letter"""
    key = f'{INSTRS}:show_instr'
    total = True

    def setup(self, X):
        if X.choose(2, 'instr') == 0:
            X.ghost['i'] = NONE
            return [None]
        i = SOME(X.fresh('color'), X.fresh('shift', 'bool'), X.fresh('trans'))
        X.assume(good(i))
        X.ghost['i'] = i
        return [Some(tup(i))]

    def post(self, X, args, res):
        same_text(X, res, codes_of(X.ghost['i']))

    def apply(self, X, args, kw):
        v = deref(args[0])
        i = NONE if is_none(X, v) else instr(inner(X, v))
        X.prove('show_instr.instr', good(i))
        return TextV(codes_of(i))


class ReadInstr(Contract):
    """of three characters: none if one of them is '.', else the instruction shown as these"""
    key = f'{INSTRS}:read_instr'
    total = True

    def setup(self, X):
        cs = [X.fresh(n) for n in ('first', 'second', 'third')]
        X.assume(self.pre(cs))
        X.ghost['cs'] = cs
        return [TextV(cs)]

    @staticmethod
    def pre(cs):
        a, b, c = cs
        return z3.And(*[z3.And(x >= 0, x < 1 << 21) for x in cs], z3.Or(
            a == DOT, b == DOT, c == DOT, z3.And(a >= ZERO, a <= ZERO + 9, z3.Or(b == LETTER_L, b == LETTER_R), c >= LETTER_A, c <= LETTER_A + LAST)))

    def post(self, X, args, res):
        a, b, c = X.ghost['cs']
        none = z3.Or(a == DOT, b == DOT, c == DOT)
        res = deref(res)
        if is_none(X, res):
            X.prove('none-only-if-undefined', none)
            return
        i = instr(inner(X, res))
        X.prove('none-if-undefined', z3.Not(none))
        X.prove('colour', pr(i) == a - ZERO)
        X.prove('shift', sh(i) == (b == LETTER_R))
        X.prove('state', to(i) == c - LETTER_A)

    def apply(self, X, args, kw):
        t = text(args[0])
        if len(t.codes) != 3:
            raise Untranslatable('instruction not of three characters')
        X.prove('read_instr.text', self.pre(t.codes))
        a, b, c = t.codes
        if X.branch(z3.Or(a == DOT, b == DOT, c == DOT)):
            return None
        return Some((SI(z3.simplify(a - ZERO)), SB(b == LETTER_R), SI(z3.simplify(c - LETTER_A))))


class FromStr(Contract):
    """the table with an entry for each cell that has an instruction: that instruction, at the row and column of the cell"""
    total = True

    def __init__(self, key):
        self.key = key

    def setup(self, X):
        q, c = X.fresh('q'), X.fresh('c')
        X.assume(R >= 1)
        X.assume(good(INSTR(q, c)))
        X.ghost['slot'] = q, c
        return [ProgText()]

    def post(self, X, args, res):
        X.prove('what-the-text-says', built_of(X, res).cur == said(*X.ghost['slot']))

    def apply(self, X, args, kw):
        v = deref(args[0])
        if not isinstance(v, TextTok):
            raise Untranslatable('text of a program')
        return v.parsed


class BuildLoop(LoopSpec):
    """at the slot watched, the table has what the rows and cells so far say"""
    name = 'table'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, FromStr) and isinstance(node, ast.For)

    def pre(self, X, L):
        s = as_seq(X, deref(L.iterable))
        if s is None or s.cond is not None:
            raise Untranslatable('loop over other than rows or cells')
        L.tbl, f = None, L.fr
        while f is not None:
            for n, v in list(f.vars.items()):
                if isinstance(deref(v), Dct) and not deref(v).d:
                    f.vars[n] = BuiltV(NONE)
                if isinstance(deref(f.vars[n]), BuiltV):
                    L.tbl = deref(f.vars[n])
            f = f.parent
        if L.tbl is None:
            raise Untranslatable('the table built')
        L.cur0 = L.tbl.cur
        L.row = X.ghost.get('row') if 'rows' in X.ghost else None
        if L.row is None:
            X.prove('every-row', s.n == R)
            X.ghost['rows'] = True
        else:
            X.prove('every-cell', s.n == N(L.row))
        L.n = s.n

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.tbl.cur = X.fresh('entry', INS)

    def inv(self, X, L):
        q, c = X.ghost['slot']
        if L.row is None:
            done = z3.If(z3.And(q >= 0, q < L.idx, c >= 0, c < N(q)), INSTR(q, c), NONE)
            return [('rows-so-far', L.tbl.cur == done)]
        return [('cells-so-far', L.tbl.cur == z3.If(z3.And(q == L.row, c >= 0, c < L.idx), INSTR(q, c), L.cur0))]

    def inv_assume(self, X, L):
        if L.row is None:
            X.ghost['row'] = L.idx
        return []

    def on_exit(self, X, L):
        if L.row is None:
            X.ghost.pop('rows', None)
            X.ghost.pop('row', None)


class MaxLoop(LoopSpec):
    """the greatest state and colour of the entries so far, or one more"""
    name = 'greatest'
    roles = ('states', 'colors')

    def __init__(self, more):
        self.more = more

    def applies(self, X, node, fr, it):
        it = deref(it)
        return isinstance(node, ast.For) and (isinstance(it, (TblV, EntriesV)) or hasattr(it, 'entries'))

    def pre(self, X, L):
        L.start = [zint(deref(L.get(r))) for r in self.roles]
        X.assume(z3.And(QMAX >= 0, CMAX >= 0, SIZE >= 0, PQ(0) == 0, PC(0) == 0, PQ(SIZE) == QMAX, PC(SIZE) == CMAX))

    def inv(self, X, L):
        return [(r, zint(deref(L.get(r))) == kmax(s, self.more + p(L.idx))) for r, s, p in zip(self.roles, L.start, (PQ, PC))]

    def inv_assume(self, X, L):
        k = L.idx
        q, c = QF(k), CF(k)
        i = TBL(q, c)
        X.assume(z3.And(PQ(k + 1) == kmax(kmax(PQ(k), q), to(i)), PC(k + 1) == kmax(kmax(PC(k), c), pr(i)), PQ(k) >= 0, PC(k) >= 0))
        return []


class Show(Contract):
    """a row for each state, a cell in it for each colour, and in the cell what the table has there"""
    total = True

    def __init__(self, key):
        self.key = key

    def setup(self, X):
        g = X.ghost
        X.assume(z3.And(QMAX >= 0, CMAX >= 0))
        if X.choose(2, 'params') == 0:
            g['size'] = 1 + kmax(1, QMAX), 1 + kmax(1, CMAX)
            return [TblV(), None]
        s, c = X.fresh('states'), X.fresh('colors')
        X.assume(z3.And(s >= 0, c >= 0))
        g['size'] = s, c
        return [TblV(), Some((SI(s), SI(c)))]

    def post(self, X, args, res):
        s, c = X.ghost['size']
        rows = joined(X, res, '  ', 'rows', s)
        r, k = X.fresh('row'), X.fresh('column')
        X.assume(z3.And(r >= 0, r < s))
        cells = joined(X, rows.at(X, r), ' ', 'columns', c)
        X.assume(z3.And(k >= 0, k < c))
        i = args[0].entry(X, r, k)
        same_text(X, cells.at(X, k), codes_of(i), 'cell')


def joined(X, v, sep, what, n):
    v = deref(v)
    if not isinstance(v, JoinV):
        raise Untranslatable(f'{what} {v!r}')
    X.prove(f'{what}.separator', z3.BoolVal(v.sep == sep))
    v.seq.plain()
    X.prove(f'{what}.number', v.seq.n == n)
    return v.seq


# ------------------------------------------------------------------ src/lib.rs
class TextTok(Ext):
    """the text given"""
    rust_value = True

    def __init__(self):
        self.parsed = TblV()

    def same(self, X, *a):
        return self
    rm_to_owned = rm_clone = rm_as_ref = rm_as_str = rm_into = rm_to_string = same


class Tok(Ext):
    """the answer of a function"""
    rust_value = True

    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class ShownTok(Ext):
    rust_value = True

    def __init__(self, prog, params):
        self.prog, self.params = prog, params


def answers(fn):
    def f(X, args, kw):
        return Tok(fn, [deref(a) for a in args])
    return f


class Wrapper(Contract):
    """the answer of the function, for the program the text says and the arguments given"""
    total = True

    def __init__(self, name, fn, extra=()):
        self.key, self.fn, self.extra = f'{LIB}:{name}', fn, extra

    def setup(self, X):
        t, n = TextTok(), X.fresh('n')
        X.assume(n >= 0)
        X.ghost.update(text=t, n=n)
        return [t, SI(n)]

    def post(self, X, args, res):
        r, g = deref(res), X.ghost
        if not isinstance(r, Tok):
            X.prove('answer-of-the-function', z3.BoolVal(False))
            return
        X.prove('answer-of-the-function', z3.BoolVal(r.fn == self.fn))
        X.prove('program-of-the-text', z3.BoolVal(r.args[0] is g['text'].parsed))
        self.rest(X, r.args[1:])

    def rest(self, X, args):
        X.prove('argument', zint(args[0]) == X.ghost['n'])
        X.prove('arguments', z3.BoolVal(len(args) == 1 + len(self.extra)))
        for a, b in zip(args[1:], self.extra):
            X.prove('fixed-argument', zbool(a) == b)


class SegWrapper(Wrapper):
    """and every state and colour of the program is below the numbers given to it"""
    def rest(self, X, args):
        (s, c), n = (zint(deref(x)) for x in args[0]), args[1]
        X.prove('states-of-the-program', s > QMAX)
        X.prove('colours-of-the-program', c > CMAX)
        X.prove('no-more-than-there-are', z3.And(s <= 1 + kmax(1, QMAX), c <= 1 + kmax(1, CMAX)))
        X.prove('argument', zint(n) == X.ghost['n'])


class Tcompile(Contract):
    key = f'{LIB}:tcompile'
    total = True

    def setup(self, X):
        return [TextTok()]

    def post(self, X, args, res):
        X.prove('program-of-the-text', z3.BoolVal(deref(res) is args[0].parsed))

    def apply(self, X, args, kw):
        return deref(args[0]).parsed


class PyShow(Contract):
    """the text of the program, with the numbers of states and colours given"""
    total = True

    def __init__(self, name):
        self.key = f'{LIB}:{name}'

    def setup(self, X):
        return [TblV(), None if X.choose(2, 'params') == 0 else Some((SI(X.fresh('states')), SI(X.fresh('colors'))))]

    def post(self, X, args, res):
        r = deref(res)
        X.prove('text-of-the-program', z3.BoolVal(isinstance(r, ShownTok) and r.prog is args[0]))
        if isinstance(r, ShownTok):
            p, q = deref(args[1]), deref(r.params)
            X.prove('with-the-numbers-given', z3.BoolVal((p is None) == (q is None)) if p is None or q is None else z3.And(
                [a == b for a, b in zip(flat(p.v), flat(q.v))]))

    def apply(self, X, args, kw):
        return ShownTok(deref(args[0]), deref(args[1]))


def show_tok(X, args, kw):
    return ShownTok(deref(args[0]), deref(args[1]))


class InstrDomain(RDomain, SeqDomain):
    def generic(self, X, name):
        raise Untranslatable(f'generic {name}')

    def cast(self, X, v, kind):
        if isinstance(v, (CharV, SI, str)) or isinstance(v, int) and not isinstance(v, bool):
            if kind == 'u8':
                e = code(v)
                X.prove('fits-a-byte', z3.And(e >= 0, e < 256))
                return SI(e)
            if kind == 'char':
                return CharV(code(v))
            if isinstance(v, CharV):
                return SI(v.e)
        return NotImplemented

    def format(self, X, a):
        t = a[0]
        if not isinstance(t, str) or t.count('{}') != len(a) - 1 or t.count('{') != len(a) - 1:
            return NotImplemented
        out, parts = [ord(c) for c in t.split('{}')[0]], t.split('{}')[1:]
        for v, after in zip(map(deref, a[1:]), parts):
            if isinstance(v, (int, SI)) and not isinstance(v, bool):
                e = zint(v)
                if not X.prover_ok(z3.And(e >= 0, e <= 9)):
                    raise Untranslatable('a number of unknown length is shown')
                out.append(ZERO + e)
            elif isinstance(v, (CharV, TextV, str)):
                out += text(v).codes
            else:
                return NotImplemented
            out += [ord(c) for c in after]
        return TextV(out)

    def rmethod(self, X, o, name, args):
        if isinstance(o, str) and name in ('push', 'push_str') or isinstance(o, str) and name == 'to_owned':
            return TextV([ord(c) for c in o]) if name == 'to_owned' else NotImplemented
        if name in ('join', 'concat') and (isinstance(o, Lst) and o.tail is not None or isinstance(o, SeqV)):
            s = as_seq(X, o)
            return JoinV(s, deref(args[0]) if args else '')
        if isinstance(o, (int, SI)) and not isinstance(o, bool) and name == 'to_string':
            return self.format(X, ['{}', o])
        if name == 'from_digit':
            raise Untranslatable(name)
        if name in ('max', 'min') and isinstance(o, SeqV) and getattr(o, 'entries', None) is not None and not args:
            return self.greatest(X, o, name)
        if isinstance(o, (TblV, TextTok)) and name == 'show':
            c = ext_class(X.world, 'show')
            return X.call(c.lookup('show')[1], [o] + list(args), {})
        return NotImplemented

    def greatest(self, X, o, name):
        if name != 'max':
            raise Untranslatable('least')
        k = X.fresh('k')
        X.assume(z3.And(k >= 0, k < SIZE))
        x, i = zint(deref(o.at(X, k))), TBL(QF(k), CF(k))
        some = X.branch(SIZE > 0)
        if X.prover_ok(x == kmax(QF(k), to(i))):
            m = QMAX
        elif X.prover_ok(x == kmax(CF(k), pr(i))):
            m = CMAX
        else:
            raise Untranslatable('greatest of what')
        X.assume(m >= 0)
        if not some:
            X.assume(m == 0)
        return Some(SI(m)) if some else None

    def flat_map(self, X, seq, f):
        return FlatV(seq, f) if isinstance(X.contract, FromStr) else None

    def collect(self, X, seq, kind):
        raise Untranslatable(f'collect of unknown size into {kind}')


LOOPS = (BuildLoop(), MaxLoop(0), MaxLoop(1))
WRAPPED = (('py_cant_halt', 'reason', 'cant_halt', ()), ('py_cant_blank', 'reason', 'cant_blank', ()), ('py_cant_spin_out', 'reason', 'cant_spin_out', ()),
           ('py_is_connected', 'graph', 'is_connected', ()), ('py_opt_block', 'blocks', 'opt_block', ()), ('py_quick_term_or_rec', 'machine', 'quick_term_or_rec', (False,)))


def ext_class(world, method):
    """the trait's class on CompProg that has the method"""
    m = world.module('src.instrs')
    for std, cn in getattr(m.low, 'exts', ()):
        c = world.class_val(m, cn)
        if isinstance(c.lookup(method)[1], FuncVal):
            return c
    raise Untranslatable(f'CompProg::{method}')


def ext_key(world, method):
    try:
        return ext_class(world, method).lookup(method)[1].qual
    except Untranslatable:
        return f'{INSTRS}:CompProg.{method}'


def contracts(world, lib):
    fs, sw = ext_key(world, 'from_str'), ext_key(world, 'show')
    if lib:
        cs = [Given(fs, FromStr(fs).apply), Given(sw, show_tok)]
        cs += [Wrapper(n, f, extra) for n, m, f, extra in WRAPPED] + [SegWrapper('py_segment_cant_halt', 'segment_cant_halt')]
        cs += [Given(f'src/{m}.rs:{f}', answers(f)) for n, m, f, _ in WRAPPED] + [Given('src/segment.rs:segment_cant_halt', answers('segment_cant_halt'))]
        cs += [Tcompile(), PyShow('py_show_comp'), PyShow('show_comp')]
    else:
        cs = [ShowState(), ShowSlot(), ReadSlot(), ShowInstr(), ReadInstr(), FromStr(fs), Show(sw)]
    return {c.key: c for c in cs}
