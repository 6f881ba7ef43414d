"""Lockstep comparison of an implementation root with its reference root."""
import json
import time
from .interp import TimeUp, Interp, Program, explore, Infeasible, Cut, Unsupported, Panic, Unspec, C, INT_BITS


def load(path):
    groups = json.load(open(path))['groups']
    out = {}
    for g in groups:
        p = Program(g)
        for r in g['roots']:
            out[r[0]] = (p, r[2], r[3])
    return out


def cmp_terms(it, a, b, wild=True):
    """None if equal, otherwise the first differing pair"""
    if a == b:
        return None
    if 'class' in (a[0], b[0]):
        return (a, b)
    if it.opts.get('no_context'):
        a, b = without_context(a), without_context(b)
        if a == b:
            return None
    if a[0] == 'adt' and b[0] == 'adt':
        if a[1] == b[1] == 'nom::Needed':
            return None          # both sides built it: the amount is only a hint
        if a[1] != b[1] or a[3] != b[3] or len(a[4]) != len(b[4]):
            return (a, b)
        for x, y in zip(a[4], b[4]):
            d = cmp_terms(it, x, y)
            if d:
                return d
        return None
    if a[0] in ('tup', 'arr', 'vec') and b[0] == a[0]:
        if len(a[1]) != len(b[1]):
            return (a, b)
        for x, y in zip(a[1], b[1]):
            d = cmp_terms(it, x, y)
            if d:
                return d
        return None
    if a[0] == 'ref' and b[0] == 'ref':
        return cmp_terms(it, a[1], b[1])
    if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and len(a[2]) == len(b[2]) and a[3:] == b[3:]:
        for x, y in zip(a[2], b[2]):
            d = cmp_terms(it, x, y)
            if d:
                return d
        return None
    if a[0] == 'proj' and b[0] == 'proj' and a[2:] == b[2:]:
        return cmp_terms(it, a[1], b[1])
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x[0] == 'adt' and y[0] not in ('adt', 'tup', 'c', 'b'):
            if x[5]:
                if it.known_variant(y) != x[3]:
                    return (a, b)
                ys = [('proj', y, x[3], k) for k in range(len(x[4]))]
            else:
                if not x[4]:
                    return None if not x[5] else (a, b)
                ys = [('proj', y, None, k) for k in range(len(x[4]))]
            for p, q in zip(x[4], ys):
                d = cmp_terms(it, p, q)
                if d:
                    return d if not sw else (d[1], d[0])
            return None
        if x[0] == 'tup' and y[0] not in ('adt', 'tup', 'c', 'b') and x[1]:
            for k, p in enumerate(x[1]):
                d = cmp_terms(it, p, ('proj', y, None, k))
                if d:
                    return d if not sw else (d[1], d[0])
            return None
        # a value already known on this path
        if x[0] in ('c', 'b') and y[0] not in ('c', 'b'):
            if x[0] == 'c' and it.intval(y) == x[1]:
                return None
            if x[0] == 'b' and it.o.known.get(('truth', y)) == (0 if x[1] else 1):
                return None
    if a[0] not in ('c', 'b') and b[0] not in ('c', 'b'):
        va, vb = it.o.known.get(('val', a)), it.o.known.get(('val', b))
        if va is not None and va == vb:
            return None
    sa, sb = it.root_of(a), it.root_of(b)
    if sa == sb and (a[0] == 'slice' or b[0] == 'slice'):
        return (cmp_terms(it, it.slice_off(a), it.slice_off(b)) or
                cmp_terms(it, it.slice_len(a), it.slice_len(b)))
    ta, tb = it.type_of(a), it.type_of(b)
    if ta == tb and ta in INT_BITS:
        if it.decide_equal(a, b):
            return None
    return (a, b)


def without_context(e):
    """an error without what combinators note in it on its way (ParseError::append)"""
    while e[0] == 'app' and 'error::ParseError<' in e[1] and e[1].endswith('::append'):
        e = e[2][2]
    return e


def same_outcome(it1, r1, it2, r2, sub=False):
    if it1.opts.get('only_panics') and not sub:
        if r1[0] == 'panic' and r2[0] != 'panic':
            return ('panic', r1, r2)
        a, b = (x.o.__dict__.get('subpanics', {}).get(id(x)) for x in (it1, it2))
        if a and not b:
            return ('panic', a[0], r2)
        return None
    if r2[0] == 'unspec' and r1[0] == 'ret':
        return None
    if r1[0] != r2[0]:
        return ('outcome', r1, r2)
    if r1[0] == 'ret':
        d = cmp_terms(it1, r1[1], r2[1])
        if d:
            return ('result', r1[1], r2[1], d)
    if len(it1.trace) != len(it2.trace):
        return ('trace', it1.trace, it2.trace)
    for a, b in zip(it1.trace, it2.trace):
        if a[0] != b[0]:
            return ('trace', it1.trace, it2.trace)
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, str):
                if x != y:
                    return ('trace', it1.trace, it2.trace)
            else:
                d = cmp_terms(it1, x, y)
                if d:
                    return ('trace', it1.trace, it2.trace, d)
    return None


def run(it, bid, args):
    try:
        r = it.run_body(it.p.body(bid), args)
        return ('ret', it.freeze(r))
    except Panic as e:
        return ('panic', e.why, e.where, list(it.stack[-4:]))
    except Unspec:
        return ('unspec',)


def args_for(body, it=None):
    out = []
    for k in range(body['argc']):
        out.append(('sym', 'a%d' % k, body['locals'][1 + k]))
    return out


def lockstep(im, rf, opts, limit=20000):
    """im/rf: (program, body id, span). Returns dict(paths, cuts, diff|None)"""
    opts.setdefault('rem_of', {})
    opts.setdefault('tyof', {})
    opts.setdefault('arity', {})
    opts.setdefault('touched', set())
    st = {'paths': 0, 'cuts': 0, 'infeasible': 0}

    def f(o):
        a = Interp(im[0], o, opts)
        b = Interp(rf[0], o, opts)
        try:
            av = args_for(im[0].body(im[1]))
            for x in av:
                if x[2] in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
                    opts['tyof'][x] = x[2]
            ra = run(a, im[1], av)
            rb = run(b, rf[1], av)
            d = same_outcome(a, ra, b, rb)
        except Infeasible:
            st['infeasible'] += 1
            return None
        except Cut:
            st['cuts'] += 1
            return None
        if d:
            # once more, with what was learned since the first answers were given
            o.__dict__.pop('lcache', None)
            o.__dict__.pop('rwfacts', None)
            d = same_outcome(a, ra, b, rb)
        if d and not a.consistent():
            st['infeasible'] += 1
            return None
        st['paths'] += 1
        return d and (d, ra, rb, dict(o.known))
    st['diff'] = None
    if opts.get('budget'):
        opts['deadline'] = time.time() + opts['budget']
    try:
        for o, d in explore(f, limit=limit):
            if d:
                st['diff'] = d
                return st
            if opts.get('deadline') and time.time() > opts['deadline']:
                st['bounded'] = True
                break
    except TimeUp:
        st['bounded'] = True
    return st


def explore_one(im, opts, limit=20000):
    """all outcomes of a single root"""
    opts.setdefault('rem_of', {})
    opts.setdefault('tyof', {})
    opts.setdefault('arity', {})
    out = []

    def f(o):
        a = Interp(im[0], o, opts)
        try:
            ra = run(a, im[1], args_for(im[0].body(im[1])))
        except Infeasible:
            return ('infeasible',), a
        except Cut:
            return ('cut',), a
        return ra, a
    for o, (r, a) in explore(f, limit=limit):
        out.append((r, list(a.trace), o))
    return out


def show(t, depth=0):
    """readable rendering of a term"""
    k = t[0]
    if depth > 12:
        return '..'
    s = lambda x: show(x, depth + 1)
    if k == 'c':
        return '%d' % t[1]
    if k == 'b':
        return str(t[1])
    if k == 'adt':
        n = t[1].rsplit('::', 1)[-1] + ('::' + t[3] if t[5] else '')
        return n + ('(%s)' % ', '.join(map(s, t[4])) if t[4] else '')
    if k in ('tup', 'arr', 'vec'):
        br = {'tup': '()', 'arr': '[]', 'vec': '[]'}[k]
        return ('vec!' if k == 'vec' else '') + br[0] + ', '.join(map(s, t[1])) + br[1]
    if k == 'app':
        return '%s(%s)%s' % (t[1], ', '.join(map(s, t[2])), '#%d' % t[3] if len(t) > 3 else '')
    if k == 'proj':
        return '%s.%s%s' % (s(t[1]), (str(t[2]) + '.') if t[2] else '', t[3])
    if k == 'sym':
        return t[1]
    if k == 'ref':
        return '&' + s(t[1])
    if k == 'deref':
        return '*' + s(t[1])
    if k == 'op':
        return '%s(%s)' % (t[1], ', '.join(map(s, t[3:])))
    if k == 'lin':
        return '(%s%s)' % (' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, s(a)) for a, c in t[3]),
                           ' + %d' % t[2] if t[2] else '')
    if k == 'cast':
        return '(%s as %s)' % (s(t[3]), t[2])
    if k == 'slice':
        return '%s[%s;+%s]' % (s(t[1]), s(t[2]), s(t[3]))
    if k == 'len':
        return 'len(%s)' % s(t[1])
    if k == 'discr':
        return 'discr(%s)' % s(t[1])
    if k == 'fn':
        return t[1]
    if k == 'clo':
        return 'closure<%s>(%s)' % (t[1], ', '.join(map(s, t[2])))
    if k in ('str', 'bytes'):
        return repr(t[1])
    if k == 'not':
        return '!' + s(t[1])
    if k in ('and', 'or'):
        return '(%s %s %s)' % (s(t[1]), k, s(t[2]))
    return repr(t)
