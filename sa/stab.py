"""Stability under appending: the same body is analysed on a prefix and on an extension of one input.

Sub-parsers are uninterpreted but stable themselves: at a position of the input they either refuse it,
or produce a value from a number of bytes, neither depending on how much input follows; they report
Incomplete when fewer bytes are there. What the derived code does around them is analysed as usual.
"""
import time

from .interp import Interp, Infeasible, Cut, Unsupported, TimeUp, C, adt, explore
from .compare import run, args_for, cmp_terms, show

NERR = 'nom::Err'
RESULT = 'std::result::Result'
# repetitions whose number of rounds does not depend on where the input ends
COUNTED = ('Count', 'LengthCount', 'LengthValue', 'Fill', 'LengthData')


def nerr(k, *v):
    return adt(RESULT, 1, 'Err', (adt(NERR, {'Incomplete': 0, 'Error': 1, 'Failure': 2}[k], k, v),))


def result(it, name, s, others, ir, complete=False):
    """outcome of a stable parser on slice s"""
    root, off = it.root_of(s), it.freeze(it.slice_off(s))
    key = (root, off) + tuple(others)
    n = it.slice_len(s)
    fate = it.o.raw(('fate', name, key), 3)
    if fate:
        return nerr('Error' if fate == 1 else 'Failure', ('app', 'err:' + name, key))
    used = ('app', 'used:' + name, key)
    it.opts['tyof'][used] = 'usize'
    if not it.truth(('op', 'Le', 'usize', used, n)):
        if complete:
            return nerr('Error', ('app', 'short:' + name, key))
        return nerr('Incomplete', ('app', 'needed:' + name, key))
    v = ('app', 'val:' + name, key)
    if ir and ir[1] in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
        it.opts['tyof'][v] = ir[1]
    rest = it.mk_slice(s, used, it.binop('SubN', 'usize', n, used))
    return adt(RESULT, 0, 'Ok', (('tup', (rest, v)),))


def is_input(it, v):
    r = it.root_of(v)
    return r in it.opts['stabroots'] or r[0] == 'slice' and r[1] in it.opts['stabroots']


def leaf(it, name, fa, ir, raw):
    """called by the leaf model; None when the call is not a parser"""
    if name.endswith('::compare') and len(fa) == 2:
        a = fa[0][1] if fa[0][0] == 'ref' else fa[0]
        return compare(it, name, a, fa[1]) if is_input(it, a) else None
    for k, a in enumerate(fa):
        if a[0] in ('slice', 'sym') and is_input(it, a) or a in it.opts['rem_of'] and is_input(it, a):
            if ir:
                return result(it, name, a, fa[:k] + fa[k + 1:], ir, name.startswith('nom:complete:'))
            if '::opq::' in raw:
                e = it.lexpr(it.slice_len(a))
                if any(x in it.opts['stablens'] for x in e[0]):
                    raise Unsupported('a user expression sees how long the input is')
    return None


def compare(it, name, s, t):
    """nom's comparison of a slice with a tag: an answer, once given, does not change with more input"""
    res = lambda n: adt('nom::CompareResult', ('Ok', 'Incomplete', 'Error').index(n), n)
    root, off = it.root_of(s), it.freeze(it.slice_off(s))
    n = it.slice_len(s)
    key = ('mismatch', root, off, t)
    if it.o.known.get(key) == 1:
        return res('Error')
    if it.truth(('op', 'Le', 'usize', it.slice_len(t), n)):
        return res('Error' if it.o.raw(key, 2) else 'Ok')
    if it.o.raw(('early', root, off, t, n), 2):
        it.o.known[key] = 1
        return res('Error')
    return res('Incomplete')


def kind(r):
    if r[0] != 'ret':
        return r[0], None
    v = r[1]
    if v[0] != 'adt' or v[1] != RESULT:
        raise Unsupported('outcome %s' % show(v)[:200])
    if v[3] == 'Ok':
        return 'Ok', v[4][0]
    e = v[4][0]
    if e[0] != 'adt':
        raise Unsupported('outcome %s' % show(v)[:200])
    return e[3], None


def short_slice(it, root, k):
    ln, kk = ('len', root), ('sym', 'prefix' + root[1], 'usize')
    it.opts['tyof'][kk] = 'usize'
    it.opts['stabroots'].add(root)
    it.opts['stablens'] |= {ln, kk}
    it.assume(({ln: 1, kk: -1}, 0))
    return ('slice', root, C(0, 'usize'), kk)


def judge(a, ra, b, rb):
    """None, or what is wrong with the extension's outcome rb given the prefix's ra"""
    ka, va = kind(ra)
    if ka != 'Ok':
        return None
    kb, vb = kind(rb)
    if kb != 'Ok':
        return ('outcome', ra, rb)
    ma, va = va[1]
    mb, vb = vb[1]
    d = cmp_terms(a, va, vb)
    if d:
        return ('value', ra, rb, d)
    d = cmp_terms(a, a.freeze(a.slice_off(ma)), a.freeze(b.slice_off(mb))) if a.root_of(ma) == a.root_of(mb) else (ma, mb)
    if d:
        return ('consumption', ra, rb, d)
    return None


def pairs(f_run, mk, known=None, facts=(), limit=20000, deadline=None):
    """f_run(oracle, input) -> (interp, outcome). Returns (paths, violation or None, bounded)"""
    groups = {}
    st = {'paths': 0, 'bounded': False, 'infeasible': 0}

    def f(o):
        try:
            pre = mk(o)
            a, ra = f_run(o, pre[0])
            cut = len(o.log)
            key = tuple(x[2] for x in o.log[:cut])
            ka = kind(ra)[0]
            b, rb = f_run(o, pre[1])
        except Infeasible:
            st['infeasible'] += 1
            return None
        except Cut:
            if 'key' in locals() and ka == 'Incomplete':
                groups.setdefault(key, [0, None])[0] += 1
            return None
        d = judge(a, ra, b, rb)
        if (d or ka == 'Incomplete') and not a.consistent():
            st['infeasible'] += 1
            return None
        st['paths'] += 1
        if ka == 'Incomplete':
            g = groups.setdefault(key, [0, None])
            if kind(rb)[0] in ('Ok', 'Incomplete'):
                g[0] += 1
            else:
                g[1] = ('stuck', ra, rb, dict(o.known))
        return d and d + (dict(o.known),)
    try:
        for o, d in explore(f, known=known, facts=facts, limit=limit):
            if d:
                return st, d
            if deadline and time.time() > deadline:
                st['bounded'] = True
                return st, None
    except TimeUp:
        st['bounded'] = True
        return st, None
    for n, bad in groups.values():
        if not n and bad:
            return st, bad
    return st, None


def task_body(im, opts, limit):
    opts.setdefault('rem_of', {})
    opts.setdefault('tyof', {})
    opts.setdefault('arity', {})
    opts.setdefault('touched', set())
    opts.update(stable=True, stabroots=set(), stablens=set(), unstable=[])
    body = im[0].body(im[1])
    args = args_for(body)
    slot = [k for k, x in enumerate(args) if x[2] == '&[u8]']
    if not slot:
        raise Unsupported('no input argument')
    slot = slot[0]

    def mk(o):
        it = Interp(im[0], o, opts)
        for x in args:
            if x[2] in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
                opts['tyof'][x] = x[2]
        return short_slice(it, args[slot], None), args[slot]

    def f_run(o, inp):
        it = Interp(im[0], o, opts)
        av = list(args)
        av[slot] = inp
        return it, run(it, im[1], av)
    if opts.get('budget'):
        opts['deadline'] = time.time() + opts['budget']
    st, d = pairs(f_run, mk, limit=limit, deadline=opts.get('deadline'))
    if d is None and opts['unstable']:
        d = opts['unstable'][0]
    return st, d


def element(p):
    """is a repeated parser stable? (p as in models.pure_parser)"""
    from . import models
    it = p[0]
    lam = models.fresh(it)

    def mk(o):
        sub = Interp(it.p, o, it.opts)
        return short_slice(sub, lam, None), lam

    def f_run(o, inp):
        return models.run_sub(p, o, inp)
    st, d = pairs(f_run, mk, known=models.sub_known(it.o), facts=it.o.facts, deadline=it.opts.get('deadline'))
    if d:
        it.opts['unstable'].append(('repeated parser, ' + d[0],) + d[1:])


def describe(d):
    what = {'outcome': 'succeeds on a prefix, but not with more input', 'value': 'the value depends on how much input follows',
            'consumption': 'consumes differently when more input follows',
            'stuck': 'reports Incomplete although no further input can make it succeed'}
    k = d[0].rsplit(', ', 1)[-1]
    path = '; '.join('%s = %s' % (' '.join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and len(x) > 1 and k2 else str(x)
                                           for x in key[:2]), v)
                     for key, v in list(d[-1].items())[:40] for k2 in (False,))

    def r(x):
        return ('returns ' + show(x[1]) if x[0] == 'ret' else x[0])[:1500]
    return '%s: %s\non the prefix   : %s\non the extension: %s%s\non the path where: %s' % (
        d[0], what.get(k, k), r(d[1]), r(d[2]),
        '\ndiffers in: %s / %s' % tuple(show(x)[:300] for x in d[3]) if k in ('value', 'consumption') else '', path[:3000])


def stab_task(a):
    import traceback
    from . import check as K
    im, _, opts = a
    t0 = time.time()
    touched = set()
    o = dict(opts)
    o['touched'] = touched
    try:
        o["budget"] = K.allowance(opts)
        st, d = task_body(K.ROOTS[im], o, opts.get('limit', 20000))
        if d:
            o2 = dict(opts, touched=touched, precise=True, budget=min(30, K.allowance(opts)))
            st2, d2 = task_body(K.ROOTS[im], o2, opts.get('limit', 20000))
            if d2 is None:
                return (im, 'undecided' if st2['bounded'] else 'ok', 'not confirmed', st2['paths'], touched, time.time() - t0)
            return (im, 'diff', describe(d2), st2['paths'], touched, time.time() - t0)
        return (im, 'ok-bounded' if st['bounded'] else 'ok', '', st['paths'], touched, time.time() - t0)
    except Unsupported as e:
        return (im, 'skipped' if 'user expression sees' in str(e) or 'no input arg' in str(e) else 'undecided', str(e), 0, touched, time.time() - t0)
    except RecursionError:
        return (im, 'undecided', 'recursion', 0, touched, time.time() - t0)
    except Exception:
        return (im, 'error', traceback.format_exc(), 0, touched, time.time() - t0)
