"""Path-sensitive forward dataflow over the value-graph (Herbrand) domain, on dumped MIR.

A body is interpreted abstractly: every value is a term; inputs, sub-parsers and user expressions
are uninterpreted. A branch on a term asks the *oracle*, which enumerates all consistent outcomes.
Nothing of the analysed program is executed: there are no input bytes anywhere.
"""
import sys
import time
from . import linear
sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class Cut(Exception):
    """loop bound reached"""


class Unsupported(Exception):
    pass


class TimeUp(Exception):
    """the time bound of this obligation is over"""


class Unspec(Exception):
    """the specification leaves the outcome open"""


class Panic(Exception):
    def __init__(self, why, where):
        self.why, self.where = why, where


INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
            'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
PRIMS = set(INT_BITS) | {'f32', 'f64'}


def is_signed(t):
    return t[0] == 'i'


def wrap(v, ty):
    if ty in INT_BITS:
        b = INT_BITS[ty]
        v &= (1 << b) - 1
        if is_signed(ty) and v >> (b - 1):
            v -= 1 << b
    return v


def C(v, ty):
    return ('c', v, ty)


def B(b):
    return ('b', bool(b))


ISIZE_MAX = (1 << 63) - 1


def ty_range(ty):
    b = INT_BITS[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if is_signed(ty) else (0, (1 << b) - 1)


UNIT = ('tup', ())
UNINIT = ('uninit',)


def tup(*xs):
    return mk_tup(tuple(xs))


def eta(variant, xs):
    """x when xs == (x.variant.0, x.variant.1, ...)"""
    if not xs:
        return None
    f = xs[0]
    if f[0] == 'proj' and f[2] == variant and f[3] == 0:
        base = f[1]
        for k, x in enumerate(xs):
            if x != ('proj', base, variant, k):
                return None
        return base
    return None


def mk_tup(xs):
    return ('tup', xs)


def adt(path, vidx, vname, fields=(), is_enum=True):
    return ('adt', path, vidx, vname, tuple(fields), is_enum)


class Oracle:
    """Enumerates the outcomes of undecided branches, depth first."""

    def __init__(self, prefix=(), known=None, facts=()):
        self.prefix = list(prefix)
        self.log = []
        self.known = dict(known or {})
        self.facts = [(dict(c[0]), c[1]) for c in facts]

    def raw(self, key, n):
        k = self.known.get(key)
        if k is not None:
            return k
        p = len(self.log)
        c = self.prefix[p] if p < len(self.prefix) else 0
        self.log.append((key, n, c))
        self.known[key] = c
        return c

    def next_prefix(self):
        for p in range(len(self.log) - 1, -1, -1):
            key, n, c = self.log[p]
            if c + 1 < n:
                return [x[2] for x in self.log[:p]] + [c + 1]
        return None


def explore(f, known=None, facts=(), limit=20000):
    """yield (oracle, result of f(oracle)) for every path; f may raise Infeasible/Cut"""
    prefix = []
    n = 0
    while prefix is not None:
        o = Oracle(prefix, known, facts)
        r = f(o)
        yield o, r
        n += 1
        if n > limit:
            raise Unsupported('more than %d paths' % limit)
        prefix = o.next_prefix()


class Program:
    def __init__(self, groupdata):
        self.bodies = {b['id']: b for b in groupdata['bodies']}
        self.roots = {r[0]: r for r in groupdata['roots']}
        self.fnrefs = {}
        self._loopinfo = {}

    def body(self, i):
        return self.bodies[i]


class Interp:
    """One run of one root along one path."""

    def __init__(self, prog, oracle, opts):
        self.p = prog
        self.o = oracle
        self.opts = opts
        self.cells = []
        self.trace = []
        self.depth = 0
        self.stack = []       # body names
        self.steps = 0
        self.touched = opts.setdefault('touched', set())

    # ---------------------------------------------------------------- memory
    def new(self, v=UNINIT):
        self.cells.append(v)
        return len(self.cells) - 1

    def proj(self, v, variant, k):
        t = v[0]
        if t == 'adt':
            return v[4][k]
        if t in ('tup', 'arr', 'vec'):
            return v[1][k]
        if t == 'clo':
            return v[2][k]
        if t == 'uninit':
            raise Unsupported('read of uninit field')
        if t == 'ovf':      # (result, overflow flag)
            return v[1 + k]
        return ('proj', v, variant, k)

    def read_path(self, v, path):
        variant = None
        for e in path:
            if e[0] == 'v':
                variant = e[2]
                if v[0] == 'adt' and v[3] != variant:
                    raise Infeasible()
                continue
            if e[0] == 'f':
                v = self.proj(v, variant, e[1])
            elif e[0] == 'ix':
                v = self.index(v, e[1])
            elif e[0] == 'deref':
                v = self.deref_val(v)
            else:
                raise Unsupported('path %r' % (e,))
            variant = None
        return v

    def index(self, v, i):
        if v[0] in ('arr', 'vec') and i[0] == 'c' and i[1] < len(v[1]):
            return v[1][i[1]]
        return ('idx', v, i)

    def deref_val(self, v):
        if v[0] == 'ptr':
            return self.read_path(self.cells[v[1]], v[2])
        if v[0] == 'ref':
            return v[1]
        return ('deref', v)

    def write_path(self, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        if e[0] == 'v':
            return self.write_path(v, rest, new)
        if e[0] == 'f':
            k = e[1]
            if v[0] == 'adt':
                f = list(v[4])
                f[k] = self.write_path(f[k], rest, new)
                return v[:4] + (tuple(f),) + v[5:]
            if v[0] in ('tup', 'arr'):
                f = list(v[1])
                f[k] = self.write_path(f[k], rest, new)
                return (v[0], tuple(f))
            if v[0] == 'clo':
                f = list(v[2])
                f[k] = self.write_path(f[k], rest, new)
                return (v[0], v[1], tuple(f))
            old = self.proj(v, None, k) if v != UNINIT else UNINIT
            return ('upd', v, k, self.write_path(old, rest, new))
        if e[0] == 'ix':
            if v[0] in ('arr', 'vec') and e[1][0] == 'c':
                f = list(v[1])
                f[e[1][1]] = self.write_path(f[e[1][1]], rest, new)
                return (v[0], tuple(f))
            return ('updix', v, e[1], self.write_path(self.index(v, e[1]), rest, new))
        raise Unsupported('write path %r' % (e,))

    def store(self, ptr, new):
        """store through a pointer value"""
        if ptr[0] == 'ptr':
            self.cells[ptr[1]] = self.write_path(self.cells[ptr[1]], ptr[2], new)
        else:
            self.trace.append(('store', self.freeze(ptr), self.freeze(new)))

    def resolve(self, frame, place):
        """place -> ('loc', cell, path) or ('val', value) for places behind non-pointers"""
        cell = frame[place[0]]
        path = ()
        val = None
        for e in place[1:]:
            if e == '*':
                v = self.read_path(self.cells[cell], path) if val is None else val
                if v[0] == 'ptr':
                    cell, path, val = v[1], v[2], None
                elif v[0] == 'ref':
                    val = v[1]
                else:
                    val = ('deref', v)
            elif e == 'cast':
                pass
            else:
                if e[0] == 'f':
                    el = ('f', e[1])
                elif e[0] == 'v':
                    el = ('v', e[1], e[2])
                elif e[0] == 'i':
                    iv = self.cells[frame[e[1]]]
                    el = ('ix', iv)
                elif e[0] == 'ci':
                    el = ('ix', C(e[1], 'usize')) if not e[2] else ('ix', ('fromend', e[1]))
                else:
                    raise Unsupported('projection %r' % (e,))
                if val is None:
                    path = path + (el,)
                else:
                    val = self._val_proj(val, el, place)
        if val is not None:
            return ('val', val)
        return ('loc', cell, path)

    def _val_proj(self, val, el, place):
        if el[0] == 'v':
            return ('dc', val, el[2])
        if el[0] == 'f':
            if val[0] == 'dc':
                return self.read_path(val[1], (('v', 0, val[2]), el))
            return self.proj(val, None, el[1])
        if el[0] == 'ix':
            return self.index(val, el[1])
        raise Unsupported('val proj')

    def load(self, frame, place):
        r = self.resolve(frame, place)
        if r[0] == 'val':
            v = r[1]
            return v[1] if v[0] == 'dc' else v
        return self.read_path(self.cells[r[1]], r[2])

    def assign(self, frame, place, v):
        r = self.resolve(frame, place)
        if r[0] == 'val':
            self.trace.append(('store', self.freeze(r[1]), self.freeze(v)))
            return
        self.cells[r[1]] = self.write_path(self.cells[r[1]], r[2], v)

    def address(self, frame, place):
        r = self.resolve(frame, place)
        if r[0] == 'loc':
            return ('ptr', r[1], r[2])
        v = r[1]
        if v[0] == 'dc':
            v = v[1]
        if v[0] == 'deref':
            return v[1]
        return ('ref', v)

    def freeze(self, v, seen=0):
        t = v[0]
        if t == 'ptr':
            w = self.freeze(self.deref_val(v))
            return w[1] if w[0] == 'deref' else ('ref', w)
        if t == 'ref':
            w = self.freeze(v[1])
            return w[1] if w[0] == 'deref' else ('ref', w)
        if t == 'adt':
            return v[:4] + (tuple(self.freeze(x) for x in v[4]),) + v[5:]
        if t in ('tup', 'arr', 'vec'):
            return (t, tuple(self.freeze(x) for x in v[1]))
        if t == 'clo':
            return ('clo', v[1], tuple(self.freeze(x) for x in v[2]))
        return v

    # ---------------------------------------------------------------- constants / operands
    def const(self, k):
        t = k[0]
        if t == 'int':
            return C(int(k[1]), k[2])
        if t == 'bool':
            return B(k[1])
        if t == 'fn':
            return self.fnval(k[1])
        if t == 'zst':
            if k[1] == '()':
                return UNIT
            return adt(k[1], 0, k[1], (), False)
        if t == 'adt':
            return adt(k[1], k[2], k[3])
        if t == 'adtv':
            return adt(k[1], k[2], k[3], tuple(self.const(x) for x in k[4]), k[5])
        if t == 'tuplev':
            return ('tup', tuple(self.const(x) for x in k[1]))
        if t == 'arrayv':
            return ('arr', tuple(self.const(x) for x in k[1]))
        if t == 'bytes':
            return ('bytes', k[1])
        if t == 'str':
            return ('str', k[1])
        if t == 'sym':
            return ('sym', k[1], k[2])
        if t == 'static':
            self.trace.append(('static', k[1]))
            return ('static', k[1])
        if t == 'closure':
            return self.cloval(k[1], ())
        if t == 'body':
            return self.run_body(self.p.body(k[1]), [])
        raise Unsupported('const %r' % (k,))

    def fnval(self, ref):
        self.p.fnrefs[ref['full']] = ref
        return ('fn', ref['full'])

    def cloval(self, ref, caps):
        key = ref.get('id', ref['name'])
        self.p.fnrefs[('clo', key)] = ref
        return ('clo', key, tuple(caps))

    def operand(self, frame, o):
        if o[0] == 'k':
            return self.const(o[1])
        return self.load(frame, o[1])

    # ---------------------------------------------------------------- decisions
    def variant_of(self, v, tab):
        """decide the variant of an enum value; tab: [[name, discr]..]"""
        if v[0] == 'adt':
            return v[3]
        names = tuple(x[0] for x in tab)
        if names == ('None', 'Some') and v[0] in ('c', 'lin', 'cast', 'op', 'len', 'sym', 'app'):
            ty = self.type_of(v)
            if ty in INT_BITS:                            # Option<NonZero<..>> made from an integer
                return 'None' if self.truth(('op', 'Eq', ty, v, C(0, ty))) else 'Some'
        self.o.known.setdefault(('names', v), names)
        c = self.o.raw(('is', v), len(names))
        return names[c]

    def known_variant(self, v):
        if v[0] == 'adt':
            return v[3]
        c = self.o.known.get(('is', v))
        if c is None:
            return None
        return self.o.known[('names', v)][c]

    def uncast(self, t, k):
        """t == k without the conversions around t that lose nothing: (t', k'), or None if no value of t gives k"""
        while True:
            if t[0] == 'cast' and t[1] in INT_BITS and t[2] in INT_BITS and INT_BITS[t[2]] >= INT_BITS[t[1]]:
                p = wrap(k, t[1])
                if wrap(p, t[2]) != k:
                    return None
                t, k = t[3], p
            elif t[0] == 'lin' and len(t[3]) == 1 and abs(t[3][0][1]) == 1 and self.type_of(t[3][0][0]) == t[1]:
                t, k = t[3][0][0], wrap((k - t[2]) * t[3][0][1], t[1])
            elif t[0] == 'op' and t[1] == 'BitXor' and t[4][0] == 'c' and t[2] in INT_BITS:
                t, k = t[3], wrap(k ^ t[4][1], t[2])
            elif t[0] == 'op' and t[1] == 'BitXor' and t[3][0] == 'c' and t[2] in INT_BITS:
                t, k = t[4], wrap(k ^ t[3][1], t[2])
            else:
                break
        return t, k

    def decide_eq(self, t, k):
        tk = self.uncast(t, k)
        if tk is None:
            return False
        t, k = tk
        if t[0] == 'c':
            return t[1] == k
        kv = self.o.known.get(('val', t))
        if kv is not None:
            return kv[0] == k
        if self.type_of(t) in INT_BITS:
            e = self.lexpr(t)
            d = (e[0], e[1] - k)
            m = ({a: -v for a, v in d[0].items()}, -d[1])
            if self.entails(neg1(d)) or self.entails(neg1(m)):
                return False
            if self.entails(d) and self.entails(m):
                return True
            c = self.o.raw(('eq', t, k), 2)
            if c == 0:
                self.o.known[('val', t)] = (k,)
                self.assume(d)
                self.assume(m)
                return True
            self.o.known[('ne', t, k)] = 1
            if self.entails(d):
                self.assume((d[0], d[1] - 1))
            elif self.entails(m):
                self.assume((m[0], m[1] - 1))
            return False
        if ('ne', t, k) in self.o.known:
            return False
        c = self.o.raw(('eq', t, k), 2)
        if c == 0:
            self.o.known[('val', t)] = (k,)
            return True
        self.o.known[('ne', t, k)] = 1
        return False

    def intval(self, t):
        """known integer value of a term, or None"""
        if t[0] == 'c':
            return t[1]
        if t[0] == 'b':
            return int(t[1])
        kv = self.o.known.get(('val', t))
        if kv is not None:
            return kv[0]
        if t[0] == 'op' or t[0] == 'cast':
            args = [self.intval(x) for x in t[3:]] if t[0] == 'op' else [self.intval(t[3])]
            if any(a is None for a in args):
                return None
            return self.fold(t, args)
        if t[0] == 'lin':
            r = t[2]
            for a, co in t[3]:
                v = self.intval(a)
                if v is None:
                    return None
                r += co * v
            return wrap(r, t[1])
        if t[0] == 'discr':
            n = self.known_variant(t[1])
            if n is not None:
                return dict((a, int(b)) for a, b in t[2])[n]
        return None

    def fold(self, t, args):
        if t[0] == 'cast':
            return wrap(args[0], t[2])
        r = int_op(t[1], t[2], *args)
        return r

    def truth(self, t):
        if t[0] == 'b':
            return t[1]
        if t[0] == 'c':
            return bool(t[1])
        kv = self.o.known.get(('truth', t))
        if kv is not None:
            return kv == 0
        if t[0] == 'not':
            return not self.truth(t[1])
        if t[0] == 'and':
            return self.truth(t[1]) and self.truth(t[2])
        if t[0] == 'or':
            return self.truth(t[1]) or self.truth(t[2])
        if t[0] == 'op':
            op, ty, a, b = t[1], t[2], t[3], t[4]
            if op == 'Ne':
                return not self.truth(('op', 'Eq', ty, a, b))
            if op == 'Gt':
                return self.truth(('op', 'Lt', ty, b, a))
            if op == 'Ge':
                return not self.truth(('op', 'Lt', ty, a, b))
            if op == 'Le':
                return not self.truth(('op', 'Lt', ty, b, a))
            if op == 'OvfSub' and not is_signed(ty):
                return self.truth(('op', 'Lt', ty, a, b))
            if op in ('Eq', 'Lt') or op.startswith('Ovf'):
                for x, y in ((a, b), (b, a)):
                    if op == 'Eq' and x[0] == 'discr' and y[0] == 'c':
                        n = self.variant_of(x[1], x[2])
                        return int(dict(map(tuple, x[2]))[n]) == y[1]
                if op == 'Eq' and a[0] == 'discr' and b[0] == 'discr' and a[2] == b[2]:
                    if a == b:
                        return True
                    return self.variant_of(a[1], a[2]) == self.variant_of(b[1], b[2])
                av, bv = self.intval(a), self.intval(b)
                if av is not None and bv is not None:
                    r = int_op(op, ty, av, bv)
                    return bool(r)
                if op == 'Eq':
                    if a == b and ty not in ('f32', 'f64'):
                        return True
                    if ty in INT_BITS:
                        if a[0] == 'c':
                            a, b = b, a
                        if b[0] == 'c' and a[0] in ('cast', 'lin', 'op'):
                            tk = self.uncast(a, b[1])
                            if tk is None:
                                return False
                            if tk[0] != a:
                                if tk[0][0] == 'c':
                                    return tk[0][1] == tk[1]
                                ty = self.type_of(tk[0])
                                return self.truth(('op', 'Eq', ty, tk[0], C(tk[1], ty)))
                        while a[0] == b[0] == 'cast' and a[1] == b[1] and a[1] in INT_BITS and INT_BITS[ty] >= INT_BITS[a[1]]:
                            ty, a, b = a[1], a[3], b[3]
                            if a == b:
                                return True
                        return self.decide_int_eq(ty, a, b)
                    if b[0] == 'c' and ty not in ('f32', 'f64'):
                        return self.decide_eq(a, b[1])
                    if a[0] == 'c' and ty not in ('f32', 'f64'):
                        return self.decide_eq(b, a[1])
                    if repr(b) < repr(a):
                        a, b = b, a
                if op == 'Lt' and a == b:
                    return False
                if ty in INT_BITS:
                    if op == 'Lt':
                        return self.decide_lt(ty, a, b)
                    if op.startswith('Ovf'):
                        return self.decide_ovf(op, ty, a, b)
                c = self.o.raw(('truth', ('op', op, ty, self.freeze(a), self.freeze(b))), 2)
                return c == 0
        c = self.o.raw(('truth', self.freeze(t)), 2)
        return c == 0

    # ---------------------------------------------------------------- slices
    def root_of(self, s):
        """the slice that s is a suffix / sub-slice of (remainders are suffixes of the input)"""
        while True:
            if s[0] == 'slice':
                s = s[1]
                continue
            r = self.opts['rem_of'].get(s)
            if r is None:
                return s
            s = r

    def slice_len(self, s):
        if s[0] == 'slice':
            return s[3]
        if s[0] == 'bytes':
            return C(len(s[1]) // 2, 'usize')
        if s[0] == 'str':
            return C(len(s[1].encode()), 'usize')
        if s[0] in ('ref', 'ptr'):
            v = self.deref_val(s)
            if v[0] in ('arr', 'vec'):
                return C(len(v[1]), 'usize')
        return ('len', self.freeze(s))

    def slice_off(self, s):
        """offset of the slice start from its root"""
        if s[0] == 'slice':
            return self.binop('AddN', 'usize', self.slice_off(s[1]), s[2])
        if s in self.opts['rem_of']:
            return self.binop('SubN', 'usize', ('len', self.root_of(s)), ('len', s))
        return C(0, 'usize')

    def mk_slice(self, s, a, n):
        if s[0] == 'bytes' and a[0] == 'c' and n[0] == 'c':
            return ('bytes', s[1][2 * a[1]:2 * (a[1] + n[1])])
        s = self.freeze(s)
        if a == C(0, 'usize') and n == self.slice_len(s):
            return s
        root = self.root_of(s)
        off = self.binop('AddN', 'usize', self.slice_off(s), a)
        if off == C(0, 'usize') and n == self.slice_len(root):
            return root
        # the slice that starts at a known remainder and has its length is that remainder
        t = s
        while t != root:
            if t[0] != 'slice' and self.slice_off(t) == off and n == self.slice_len(t):
                return t
            t = t[1] if t[0] == 'slice' else self.opts['rem_of'][t]
        return ('slice', root, off, n)

    # ---------------------------------------------------------------- linear facts
    def type_of(self, t):
        k = t[0]
        if k in ('c',):
            return t[2]
        if k == 'lin':
            return t[1]
        if k in ('op', 'cast'):
            return t[2]
        if k == 'len':
            return 'usize'
        if k == 'sym' and len(t) > 2:
            return t[2]
        return self.opts['tyof'].get(t)

    def lexpr(self, t):
        """integer linear expression equal to the (unwrapped) value of t"""
        k = t[0]
        if k == 'c':
            return {}, t[1]
        if k == 'b':
            return {}, int(t[1])
        v = self.o.known.get(('val', t))
        if v is not None:
            return {}, v[0]
        if k not in ('lin', 'cast', 'op'):
            return {t: 1}, 0
        busy = self.o.__dict__.setdefault('xbusy', set())
        if t in busy:
            self.o.cutoff = self.o.__dict__.get('cutoff', 0) + 1
            return {t: 1}, 0                              # t = t: true, if not informative
        busy.add(t)
        try:
            return self._lexpr(t, k)
        finally:
            busy.discard(t)

    def _lexpr(self, t, k):
        if k == 'lin' or k == 'cast' and t[1] in INT_BITS and t[2] in INT_BITS:
            ty = t[1] if k == 'lin' else t[2]
            lo, hi = ty_range(ty)
            w = hi - lo + 1
            if k == 'lin':
                e = ({}, t[2])
                for a, co in t[3]:
                    e = linear.add(e, self.lexpr(a), co)
            else:
                e = self.lexpr(t[3])
            if k == 'cast' and is_signed(t[2]) and not is_signed(t[1]) and INT_BITS[t[1]] == INT_BITS[t[2]] and self.entails(({t: 1}, 0)):
                # the conversion is known not to be negative: nothing was lost
                e = self.lexpr(t[3])
                if t not in self.o.__dict__.setdefault('unchanged', set()):
                    self.o.unchanged.add(t)
                    self.assume(({a: -q for a, q in e[0].items()}, hi - e[1]))
                return e
            es = [e]
            for keep in (True, False):
                m = self.modular(t, INT_BITS[ty], keep)
                if all(m[0] != x[0] for x in es):
                    es.append(m)
            for e in es:
                c = e[1] % w
                for sh in (0, -w, w):
                    for base in {c, e[1]}:
                        x = (e[0], base + sh)
                        if self.entails((x[0], x[1] - lo)) and self.entails(({a: -q for a, q in x[0].items()}, hi - x[1])):
                            return x
            return {t: 1}, 0
        if k == 'op' and t[1] == 'Rem' and not is_signed(t[2]):
            a, b = self.lexpr(t[3]), self.lexpr(t[4])
            d = linear.add(a, b, -1)                      # a - b
            if self.entails(neg1(d)):                     # a < b
                return a
            if self.entails(d) and self.entails(neg1(linear.add(d, b, -1))):
                return d
            r = self.residue(t, a, b)
            if r is not None:
                return r
        return {t: 1}, 0

    def modular(self, t, bits, keep=False):
        """a linear expression equal to t modulo 2**bits (keep: do not look into casts of non-sums)"""
        if t[0] == 'lin' and INT_BITS[t[1]] >= bits:
            e = ({}, t[2])
            for a, co in t[3]:
                e = linear.add(e, self.modular(a, bits, keep), co)
            return e
        if t[0] == 'cast' and t[1] in INT_BITS and t[2] in INT_BITS and INT_BITS[t[2]] >= bits:
            if INT_BITS[t[1]] >= bits and not (keep and t[3][0] not in ('lin', 'cast')):
                return self.modular(t[3], bits, keep)
        return self.lexpr(t)

    def residue(self, t, a, b):
        """value of Rem(a, b) when a is, modulo b, a constant or something met before"""
        m, mt = None, None
        if not b[0] and b[1] > 0:
            m = b[1]
        elif len(b[0]) == 1 and b[1] == 0 and list(b[0].values()) == [1]:
            mt = next(iter(b[0]))
        else:
            return None
        e = a
        for _ in range(8):
            co = {}
            todo = []
            for x, c in e[0].items():
                if m is not None:
                    c %= m
                if not c or x == mt:
                    continue
                if x[0] == 'op' and x[1] == 'Rem' and not is_signed(x[2]):
                    xb = self.lexpr(x[4])
                    if xb == b or m and not xb[0] and xb[1] % m == 0:
                        todo.append((x, c))
                        continue
                co[x] = c
            e = (co, e[1] % m if m else e[1])
            if not todo:
                break
            for x, c in todo:
                e = linear.add(e, self.lexpr(x[3]), c)
        else:
            return None
        if not e[0] and (m or e[1] == 0):
            return {}, e[1]
        key = (tuple(sorted(e[0].items(), key=repr)), e[1], m, mt)
        first = self.o.__dict__.setdefault('residues', {}).setdefault(key, t)
        if first != t:
            if t in self.o.__dict__.setdefault('resbusy', set()):
                return None
            self.o.resbusy.add(t)
            try:
                return self.lexpr(first)
            finally:
                self.o.resbusy.discard(t)
        return None

    def intrinsic_facts(self, t):
        k = t[0]
        out = []
        ty = self.type_of(t)
        if k == 'len':
            out.append(({t: 1}, 0))
            out.append(({t: -1}, ISIZE_MAX))
            src = self.opts['rem_of'].get(t[1])
            if src is not None:
                out.append(linear.add(self.lexpr(self.slice_len(src)), ({t: 1}, 0), -1))
            return out
        if ty in INT_BITS:
            lo, hi = ty_range(ty)
            out.append(({t: 1}, -lo))
            out.append(({t: -1}, hi))
        if k == 'op' and t[1] == 'Rem' and not is_signed(t[2]):
            out.append(linear.add(neg1(({t: 1}, 0)), self.lexpr(t[4])))
            out.append(linear.add(self.lexpr(t[3]), ({t: 1}, 0), -1))
        v = self.o.known.get(('val', t))
        e = ({}, v[0]) if v is not None else self.lexpr(t)
        if e != ({t: 1}, 0):
            d = linear.add(({t: 1}, 0), e, -1)
            out.append(d)
            out.append(({a: -c for a, c in d[0].items()}, -d[1]))
        return out

    def entails(self, c):
        """c = (coeffs, const): is coeffs.x + const >= 0 on every state of this path?"""
        co = c[0]
        if not co:
            return c[1] >= 0
        ck = (tuple(sorted(co.items(), key=repr)), c[1], len(self.o.facts), len(self.o.known))
        cache = self.o.__dict__.setdefault('lcache', {})
        if ck in cache:
            return cache[ck]
        if self.opts.get('deadline') and time.time() > self.opts['deadline']:
            raise TimeUp()
        if ck in self.o.__dict__.setdefault('lbusy', set()):
            self.o.cutoff = self.o.__dict__.get('cutoff', 0) + 1
            return False
        self.o.lbusy.add(ck)
        cut0 = self.o.__dict__.get('cutoff', 0)
        try:
            r = self._entails(c, self.o.facts)
            if not r:
                fs = self.rewritten_facts()
                if fs:
                    r = self._entails(c, self.o.facts + fs)
        finally:
            self.o.lbusy.discard(ck)
        if r or not self.opts.get('precise') or cut0 == self.o.__dict__.get('cutoff', 0) \
                or not self.o.lbusy and not self.o.__dict__.get('xbusy'):
            cache[ck] = r
        return r

    def rewritten_facts(self):
        """facts about remainders that have since become sums of other things, in terms of those"""
        key = (len(self.o.facts), len(self.o.known))
        c = self.o.__dict__.get('rwfacts')
        if c is not None and c[0] == key:
            return c[1]
        if self.o.__dict__.get('rwbusy'):
            return []
        self.o.rwbusy = True
        try:
            out = []
            for f in self.o.facts:
                if any(a[0] == 'op' and a[1] == 'Rem' and f[0][a] for a in f[0]):
                    e = ({}, f[1])
                    for a, co in f[0].items():
                        e = linear.add(e, self.lexpr(a) if a[0] == 'op' else ({a: 1}, 0), co)
                    if e[0] != f[0] and e[0]:
                        out.append(e)
        finally:
            self.o.rwbusy = False
        self.o.rwfacts = (key, out)
        return out

    def _entails(self, c, facts):
        cons = [neg1(c)]
        todo = list(c[0])
        facts = list(facts)
        done = set()
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            new = self.intrinsic_facts(a)
            for f in list(facts):
                if a in f[0]:
                    new.append(f)
                    facts.remove(f)
            for f in new:
                cons.append(f)
                for x in f[0]:
                    if x not in done:
                        todo.append(x)
        return linear.infeasible(cons)

    def consistent(self):
        """can the linear facts of this path hold together? What is learned about the atoms is kept as
        a fact and used in another round, so the order they are looked at in does not matter."""
        o = self.o
        seen = set()

        def learn(c):
            co, k = linear.norm(c[0], c[1])
            key = (frozenset(co.items()), k)
            if not co or key in seen:
                return False
            seen.add(key)
            o.facts.append((co, k))
            return True
        for c in o.facts:
            co, k = linear.norm(c[0], c[1])
            seen.add((frozenset(co.items()), k))
        for _ in range(4):
            o.__dict__.pop('lcache', None)
            o.__dict__.pop('rwfacts', None)
            cons, done, new = [], set(), []
            todo = []
            for f in o.facts:
                cons.append(f)
                todo += [a for a in f[0] if a not in todo]
            todo.sort(key=repr)
            while todo:
                a = todo.pop()
                if a in done:
                    continue
                done.add(a)
                for f in self.intrinsic_facts(a):
                    cons.append(f)
                    if a[0] in ('op', 'cast', 'lin'):
                        new.append(f)
                    todo += [x for x in f[0] if x not in done]
            if self._folds_apart() or linear.infeasible(cons):
                return False
            # a value that is not k, but at most (at least) k, is below (above) it
            n = len(cons)
            for key in list(o.known):
                if key[0] == 'ne':
                    e = self.lexpr(key[1])
                    d = (e[0], e[1] - key[2])
                    if not d[0]:
                        continue
                    m = ({a: -c for a, c in d[0].items()}, -d[1])
                    if self.entails(m):
                        cons.append((m[0], m[1] - 1))
                    elif self.entails(d):
                        cons.append((d[0], d[1] - 1))
            if len(cons) > n and linear.infeasible(cons):
                return False
            if not sum([learn(f) for f in new + cons[n:]]):
                break
        return True

    def _folds_apart(self):
        """does a decision of this path contradict the value its operands turned out to have?"""
        def ev(t):
            if t[0] == 'op' and len(t) > 3:
                args = [self.intval(x) for x in t[3:]]
            elif t[0] == 'cast':
                args = [self.intval(t[3])]
            else:
                return None
            if any(a is None for a in args):
                return None
            try:
                r = self.fold(t, args)
            except Exception:
                return None
            return None if r is None else int(r)
        for key, val in list(self.o.known.items()):
            if key[0] == 'val':
                r = ev(key[1])
                if r is not None and r != val[0]:
                    return True
            elif key[0] == 'ne':
                if ev(key[1]) == key[2] or (key[1][0] not in ('c', 'b') and self.o.known.get(('val', key[1]), (None,))[0] == key[2]):
                    return True
            elif key[0] == 'truth':
                r = ev(key[1])
                if r is not None and bool(r) != (val == 0):
                    return True
        return False

    def assume(self, c):
        self.o.facts.append((dict(c[0]), c[1]))

    def bounds(self, t, ty=None):
        """coarse constant bounds of an integer term, by entailment of a few thresholds"""
        if t[0] == 'c':
            return t[1], t[1]
        lo, hi = ty_range(ty) if ty in INT_BITS else (-(1 << 127), 1 << 127)
        e = self.lexpr(t)
        if not e[0]:
            return e[1], e[1]
        for b in (1 << 16, 1 << 32):
            if self.entails(({k: -v for k, v in e[0].items()}, b - e[1])):
                hi = b
                break
        return lo, hi

    def decide_lt(self, ty, a, b):
        d = linear.add(self.lexpr(b), self.lexpr(a), -1)       # b - a
        lt = (d[0], d[1] - 1)
        ge = ({k: -v for k, v in d[0].items()}, -d[1])
        if self.entails(lt):
            return True
        if self.entails(ge):
            return False
        r = self.o.raw(('truth', ('op', 'Lt', ty, a, b)), 2) == 0
        self.assume(lt if r else ge)
        return r

    def decide_int_eq(self, ty, a, b):
        d = linear.add(self.lexpr(a), self.lexpr(b), -1)
        m = ({k: -v for k, v in d[0].items()}, -d[1])
        if self.entails(neg1(d)) or self.entails(neg1(m)):
            return False
        ge, le_ = self.entails(d), self.entails(m)
        if ge and le_:
            return True
        if b[0] == 'c':
            r = self.decide_eq(a, b[1])
        else:
            if repr(b) < repr(a):
                a, b = b, a
            r = self.o.raw(('truth', ('op', 'Eq', ty, a, b)), 2) == 0
        if r:
            self.assume(d)
            self.assume(m)
        elif ge:
            self.assume((d[0], d[1] - 1))
        elif le_:
            self.assume((m[0], m[1] - 1))
        return r

    def decide_ovf(self, op, ty, a, b):
        ea, eb = self.lexpr(a), self.lexpr(b)
        if op == 'OvfMul':
            if not ea[0]:
                e = ({k: v * ea[1] for k, v in eb[0].items()}, eb[1] * ea[1])
            elif not eb[0]:
                e = ({k: v * eb[1] for k, v in ea[0].items()}, ea[1] * eb[1])
            else:
                return self.o.raw(('truth', ('op', op, ty, a, b)), 2) == 0
        else:
            e = linear.add(ea, eb, 1 if op == 'OvfAdd' else -1)
        lo, hi = ty_range(ty)
        above = (e[0], e[1] - lo)                                   # e >= lo
        below = ({k: -v for k, v in e[0].items()}, hi - e[1])       # e <= hi
        okl, okh = self.entails(above), self.entails(below)
        if okl and okh:
            return False
        if self.entails(neg1(above)) or self.entails(neg1(below)):
            return True
        r = self.o.raw(('truth', ('op', op, ty, a, b)), 2) == 0
        if not r:
            self.assume(above)
            self.assume(below)
        elif okl:
            self.assume(neg1(below))
        elif okh:
            self.assume(neg1(above))
        return r

    def decide_equal(self, a, b):
        """are two integer terms equal on this path (no new decision)?"""
        d = linear.add(self.lexpr(a), self.lexpr(b), -1)
        m = ({k: -v for k, v in d[0].items()}, -d[1])
        return self.entails(d) and self.entails(m)

    # ---------------------------------------------------------------- operators
    def binop(self, op, ty, a, b):
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'AddN', 'SubN'):
            nop = {'A': 'Add', 'S': 'Sub', 'M': 'Mul'}[op[0]]
            if a[0] == 'c' and b[0] == 'c':
                return C(int_op(nop, ty, a[1], b[1]), ty)
            # address arithmetic
            if nop == 'Sub' and a[0] == 'addr' and b[0] == 'addr' and a[1] == b[1]:
                return self.binop('Sub', ty, a[2], b[2])
            if nop == 'Add' and a[0] == 'addr':
                return ('addr', a[1], self.binop('Add', ty, a[2], b))
            if nop == 'Sub' and a[0] == 'addr':
                return ('addr', a[1], self.binop('Sub', ty, a[2], b))
            if ty in INT_BITS:
                return lin_op(nop, ty, a, b)
            if nop in ('Add', 'Mul') and repr(b) < repr(a):
                a, b = b, a
            return ('op', nop, ty, a, b)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            nop = op[:3]
            r = self.binop(nop, ty, a, b)
            return ('ovf', r, self.ovf(nop, ty, a, b))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if ty in ('bool',):
                if op in ('Eq', 'Ne'):
                    if a[0] == 'b' and b[0] == 'b':
                        return B((a[1] == b[1]) == (op == 'Eq'))
                    for x, y in ((a, b), (b, a)):
                        if y[0] == 'b':
                            return x if y[1] == (op == 'Eq') else self.neg(x)
            if a[0] == 'c' and b[0] == 'c':
                return B(int_op(op, ty, a[1], b[1]))
            if a[0] == 'addr' and b[0] == 'addr' and a[1] == b[1]:
                return self.binop(op, 'usize', a[2], b[2])
            return ('op', op, ty, a, b)
        if ty == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                if a[0] == 'b':
                    return b if a[1] else a
                if b[0] == 'b':
                    return a if b[1] else b
                return ('and', a, b)
            if op == 'BitOr':
                if a[0] == 'b':
                    return a if a[1] else b
                if b[0] == 'b':
                    return b if b[1] else a
                return ('or', a, b)
            if a[0] == 'b':
                return self.neg(b) if a[1] else b
            if b[0] == 'b':
                return self.neg(a) if b[1] else a
            return ('op', 'BXor', ty, a, b)
        if op == 'Cmp':
            if self.truth(('op', 'Lt', ty, a, b)):
                return adt('std::cmp::Ordering', 0, 'Less')
            if self.truth(('op', 'Eq', ty, a, b)):
                return adt('std::cmp::Ordering', 1, 'Equal')
            return adt('std::cmp::Ordering', 2, 'Greater')
        if op in ('Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            op = op.replace('Unchecked', '')
            if a[0] == 'c' and b[0] == 'c' and not (op in ('Div', 'Rem') and b[1] == 0):
                return C(int_op(op, ty, a[1], b[1]), ty)
            t = ('op', op, ty, a, b)
            if op == 'Rem':
                # one term for remainders that are equal on this path
                ls = self.o.__dict__.setdefault('rems', [])
                for x in ls:
                    if x[2] == ty and (x == t or x[4] == b and self.decide_equal(x[3], a)):
                        return x
                ls.append(t)
            return t
        if op == 'Offset':
            if a[0] == 'addr':
                return ('addr', a[1], self.binop('Add', 'usize', a[2], b))
            return ('op', op, ty, a, b)
        raise Unsupported('binop ' + op)

    def ovf(self, nop, ty, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return B(int_op('Ovf' + nop, ty, a[1], b[1]))
        if nop == 'Sub' and a[0] == 'addr' and b[0] == 'addr' and a[1] == b[1]:
            if b[2] == C(0, 'usize'):
                return B(False)
            return self.ovf('Sub', ty, a[2], b[2])
        if b == C(0, ty) or nop in ('Add', 'Mul') and a == C(0, ty):
            return B(False)
        if nop == 'Sub' and a == b:
            return B(False)
        if nop in ('Add', 'Mul') and repr(b) < repr(a):
            a, b = b, a
        return ('op', 'Ovf' + nop, ty, a, b)

    def neg(self, a):
        if a[0] == 'b':
            return B(not a[1])
        if a[0] == 'not':
            return a[1]
        return ('not', a)

    def unop(self, op, ty, a):
        if op == 'Not':
            if ty == 'bool':
                return self.neg(a)
            if a[0] == 'c':
                return C(wrap(~a[1], ty), ty)
            return ('op', 'BitXor', ty, a, C(wrap(-1, ty), ty))
        if op == 'Neg':
            if a[0] == 'c':
                return C(wrap(-a[1], ty), ty)
            if ty in INT_BITS:
                return lin_op('Sub', ty, C(0, ty), a)
            return ('app', 'fneg', (a,))
        if op == 'PtrMetadata':
            return self.slice_len(a)
        raise Unsupported('unop ' + op)

    def cast(self, kind, v, frm, to):
        if kind.startswith('IntToInt'):
            if v[0] == 'c':
                return C(wrap(v[1], to), to)
            if v[0] == 'b':
                return C(int(v[1]), to)
            if frm == to:
                return v
            if v[0] == 'addr':
                return v
            if frm == 'bool':
                return ('cast', frm, to, v)
            # widening then narrowing etc.: drop intermediate lossless casts
            if v[0] == 'cast' and (lossless(v[1], v[2]) or v[1] in INT_BITS and v[2] in INT_BITS and to in INT_BITS
                                   and INT_BITS[v[2]] >= INT_BITS[to]):
                if v[1] == to:
                    return v[3]
                return ('cast', v[1], to, v[3])
            return ('cast', frm, to, v)
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'Subtype', 'FnPtrToPtr',
                                                          'BoxDerefTransmute'):
            return v
        if kind.startswith('PointerExpose') or kind.startswith('PointerWith'):
            return v
        return ('app', 'cast:%s:%s' % (frm, to), (self.freeze(v),))

    def saw_err(self):
        """has some parser failed on this path?"""
        for k, c in self.o.known.items():
            if k[0] == 'is' and self.o.known.get(('names', k[1])) and self.o.known[('names', k[1])][c] == 'Err':
                return True
        return False

    # ---------------------------------------------------------------- bodies
    def run_body(self, body, args):
        self.depth += 1
        if self.depth > 200:
            raise Unsupported('call depth')
        self.touched.add(body['name'] if body['crate'] != 'core' else 'core')
        self.stack.append(body['raw'])
        nloc = len(body['locals'])
        frame = [self.new() for _ in range(nloc)]
        for k, a in enumerate(args):
            self.cells[frame[1 + k]] = a
        bb = 0
        visits = {}
        blocks = body['blocks']
        while True:
            visits[bb] = visits.get(bb, 0) + 1
            if visits[bb] > self.opts.get('unroll', 4):
                raise Cut()
            self.steps += 1
            if self.steps > 200000:
                raise Unsupported('too many steps')
            stmts, term = blocks[bb]
            for s in stmts:
                self.stmt(frame, s)
            t = term[0]
            if t == 'goto':
                bb = term[1]
            elif t == 'ret':
                self.depth -= 1
                self.stack.pop()
                return self.cells[frame[0]]
            elif t == 'drop':
                bb = term[1]
            elif t == 'switch':
                bb = self.switch(self.operand(frame, term[1]), term[2], term[3], term[4])
            elif t == 'assert':
                c = self.truth(self.operand(frame, term[1]))
                if c != term[2]:
                    raise Panic(term[4], term[5])
                bb = term[3]
            elif t == 'call':
                vals = [self.operand(frame, a) for a in term[2]]
                r = self.call(frame, term, vals)
                if term[4] is None:
                    raise Panic('diverging call', term[5])
                self.assign(frame, term[3], r)
                bb = term[4]
            elif t == 'unreachable':
                raise Infeasible()
            else:
                raise Unsupported('terminator ' + t)

    def switch(self, v, arms, other, ty):
        if v[0] == 'discr':
            n = self.variant_of(v[1], v[2])
            d = int(dict(map(tuple, v[2]))[n])
            for val, bb in arms:
                if int(val) == d:
                    return bb
            return other
        if ty == 'bool':
            b = self.truth(v)
            for val, bb in arms:
                if int(val) == int(b):
                    return bb
            return other
        iv = self.intval(v)
        if iv is not None:
            for val, bb in arms:
                if int(val) == iv:
                    return bb
            return other
        for val, bb in arms:
            if self.decide_eq(v, int(val)):
                return bb
        return other

    def stmt(self, frame, s):
        if s[0] == '=':
            self.assign(frame, s[1], self.rvalue(frame, s[2]))
        elif s[0] == 'sd':
            v = self.load(frame, s[1])
            if v[0] == 'adt':
                self.assign(frame, s[1], v[:2] + (s[2], s[3]) + v[4:])
            else:
                raise Unsupported('set discriminant')
        else:
            raise Unsupported('statement %r' % (s,))

    def rvalue(self, frame, r):
        t = r[0]
        if t == 'use':
            return self.operand(frame, r[1])
        if t == 'ref':
            return self.address(frame, r[2])
        if t in ('reborrow',):
            return self.address(frame, r[2])
        if t == 'rawptr':
            return self.address(frame, r[1])
        if t == 'adt':
            xs = tuple(self.operand(frame, o) for o in r[5])
            if r[4]:
                e = eta(r[3], xs)
                if e is not None:
                    kv = self.known_variant(e)
                    if kv == r[3] and self.opts['arity'].get((e, r[3])) in (None, len(xs)):
                        return e
            return ('adt', r[1], r[2], r[3], xs, r[4])
        if t == 'tuple':
            return mk_tup(tuple(self.operand(frame, o) for o in r[1]))
        if t == 'array':
            return ('arr', tuple(self.operand(frame, o) for o in r[1]))
        if t == 'closure':
            return self.cloval(r[1], tuple(self.operand(frame, o) for o in r[2]))
        if t == 'bin':
            return self.binop(r[1], r[4], self.operand(frame, r[2]), self.operand(frame, r[3]))
        if t == 'un':
            return self.unop(r[1], r[3], self.operand(frame, r[2]))
        if t == 'cast':
            v = self.operand(frame, r[2])
            if r[5] and v[0] == 'adt':
                d = int(dict(map(tuple, r[5]))[v[3]])
                return C(wrap(d, r[4]), r[4])
            if r[5] and r[1].startswith('IntToInt'):
                return self.cast('IntToInt', ('discr', v, tuple(map(tuple, r[5]))), 'isize', r[4])
            return self.cast(r[1], v, r[3], r[4])
        if t == 'discr':
            v = self.load(frame, r[1])
            tab = r[2]
            if tab is None:
                return C(0, 'isize')
            if v[0] == 'adt':
                return C(int(dict(map(tuple, tab))[v[3]]), 'isize')
            return ('discr', v, tuple(map(tuple, tab)))
        if t == 'repeat':
            x = self.operand(frame, r[1])
            if str(r[2]).isdigit() and int(r[2]) <= 64:
                return ('arr', (x,) * int(r[2]))
            return ('app', 'repeat', (self.freeze(x), ('sym', str(r[2]))))
        raise Unsupported('rvalue ' + t)

    # ---------------------------------------------------------------- calls
    def call(self, frame, term, vals):
        ref = term[1]
        if 'indirect' in ref:
            f = self.operand(frame, ref['indirect'])
            return self.apply_value(f, vals, term)
        return self.apply_ref(ref, vals, term)

    def apply_value(self, f, args, term):
        f0 = f
        while f[0] in ('ptr', 'ref'):
            f0, f = f, self.deref_val(f)
        if f[0] == 'fn':
            return self.apply_ref(self.p.fnrefs[f[1]], args, term)
        if f[0] == 'clo':
            ref = self.p.fnrefs[('clo', f[1])]
            if 'id' not in ref:
                raise Unsupported('closure without body ' + ref['name'])
            body = self.p.body(ref['id'])
            selfty = body['locals'][1]
            if selfty.startswith('&'):
                if f0[0] != 'ptr':
                    f0 = ('ptr', self.new(f), ())
                return self.run_body(body, [f0] + list(args))
            return self.run_body(body, [f] + list(args))
        return self.leaf('call-value', [f] + list(args), term)

    def apply_ref(self, ref, args, term):
        from . import models
        if 'ctor' in ref:
            c = ref['ctor']
            return adt(c[0], c[1], c[2], args, c[3])
        if 'callable' in ref:
            c = ref['callable']
            if args[1][0] == 'tup':
                xs = list(args[1][1])
            else:
                raise Unsupported('untupled call args')
            if c[0] == 'fndef':
                return self.apply_ref(c[2], xs, term)
            if c[0] == 'closure':
                ref2 = c[2]
                v = args[0]
                while v[0] in ('ptr', 'ref') and self.deref_val(v)[0] in ('ptr', 'ref'):
                    v = self.deref_val(v)
                w = self.deref_val(v) if v[0] in ('ptr', 'ref') else v
                if w[0] == 'clo':
                    return self.apply_value(v, xs, term)
                # zero-sized closure constant
                return self.apply_value(self.cloval(ref2, ()), xs, term)
            return self.apply_value(args[0], xs, term)
        m = models.lookup(self, ref, args, term)
        if m is not None:
            return m[0]
        if 'id' in ref and not models.forced_leaf(self, ref):
            body = self.p.body(ref['id'])
            if models.is_loop(self, ref):
                return models.loop(self, ref, body, args, term)
            return self.run_body(body, args)
        return self.leaf(ref, args, term)

    def leaf(self, ref, args, term):
        from . import models
        return models.leaf(self, ref, args, term)


def neg1(c):
    """the negation of c >= 0 over the integers"""
    return {k: -v for k, v in c[0].items()}, -c[1] - 1


def lin_of(ty, t):
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'lin' and t[1] == ty:
        return t[2], dict(t[3])
    return 0, {t: 1}


def lin_op(nop, ty, a, b):
    """wrapping +, -, * const form a ring: linear normal form"""
    ca, da = lin_of(ty, a)
    cb, db = lin_of(ty, b)
    if nop == 'Mul':
        if db and da:
            if repr(b) < repr(a):
                a, b = b, a
            return ('op', 'Mul', ty, a, b)
        if db:
            ca, da, cb, db = cb, db, ca, da
        c, d = ca * cb, {k: v * cb for k, v in da.items()}
    else:
        sg = 1 if nop == 'Add' else -1
        c, d = ca + sg * cb, dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) + sg * v
    c = wrap(c, ty)
    d = {k: sw(v, ty) for k, v in d.items() if sw(v, ty)}
    if not d:
        return C(c, ty)
    if c == 0 and len(d) == 1 and list(d.values()) == [1]:
        return list(d)[0]
    return ('lin', ty, c, tuple(sorted(d.items(), key=repr)))


def sw(v, ty):
    b = INT_BITS[ty]
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


def lossless(frm, to):
    if frm not in INT_BITS or to not in INT_BITS:
        return False
    a, b = INT_BITS[frm], INT_BITS[to]
    if is_signed(frm) == is_signed(to):
        return b >= a
    return not is_signed(frm) and b > a


def int_op(op, ty, a, b=None):
    full = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}
    if op in full:
        return wrap(full[op](), ty)
    if op.startswith('Ovf'):
        if op == 'OvfNeg':
            return int(wrap(-a, ty) != -a)
        v = full[op[3:]]()
        return int(wrap(v, ty) != v)
    if op == 'Eq':
        return int(a == b)
    if op == 'Ne':
        return int(a != b)
    if op == 'Lt':
        return int(a < b)
    if op == 'Le':
        return int(a <= b)
    if op == 'Gt':
        return int(a > b)
    if op == 'Ge':
        return int(a >= b)
    if op in ('Div', 'Rem'):
        if b == 0:
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return wrap(q if op == 'Div' else a - q * b, ty)
    if op == 'BitAnd':
        return wrap(a & b, ty)
    if op == 'BitOr':
        return wrap(a | b, ty)
    if op in ('BitXor', 'BXor'):
        return wrap(a ^ b, ty)
    if op == 'Shl':
        return wrap(a << (b % INT_BITS.get(ty, 64)), ty)
    if op == 'Shr':
        return wrap(a >> (b % INT_BITS.get(ty, 64)), ty)
    raise Unsupported('int_op ' + op)
