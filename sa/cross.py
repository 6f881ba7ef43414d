"""Definitions that combine features: a covering array over item attributes, field attributes, nesting and shapes.

Every property also decides the members that use what it is about, so that an interaction of two features is seen
wherever it belongs."""
import copy
import itertools
import random

from .families import WRAP, BASES, sitem
from .gen import A, F, V

TYPES = ['T1', 'T2', 'T3', 'u8', 'u16', 'i32', 'u64', 'f64', 'Option<T1>', 'Vec<T2>', '[T1; 2]', 'In', 'i8', 'u128', "TB<'b>", 'PhantomData<T1>', 'Option<Vec<T1>>', 'Vec<In>']
NUM = ['n1()', '2', 'a as usize', 'if b1() { 3 } else { n1() }', '0', 'a', 'n2() / 2']
MOD = ['n1()', '4', '16', 'n2()']
SKP = NUM + ['a as usize + n1()', 'n2() - 1', '1 + 2 * n1()']
SGN = ['d1()', '-1', '2', 'a as isize - 2', '-(a as isize)', 'd2() + 1']
BOOL = ['b1()', 'a == 1', 'a > 3 && b2()', '1 < a', '!b1()', 'true']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def ch(self, xs):
        return self.r.choice(xs)

    def arg(self, name, arg):
        st = self.ch('sp')
        return A(name, arg, st)

    def directive(self, inp, post_ok=True, field=True):
        k = self.ch(['PreExec', 'PostExec', 'ErrorIf', 'SkipBefore', 'SkipAfter', 'AlignBefore', 'AlignAfter', 'Move', 'MoveAbs'] if field else ['PreExec', 'PostExec'])
        if k in ('PreExec', 'PostExec'):
            return self.arg(k, self.ch(['eff_a();', 'eff_b();', 'eff_c();'] + (['eff_i(%s);' % inp] if True else [])))
        if k == 'ErrorIf':
            return self.arg(k, self.ch(['eff_bool()'] + BOOL))
        if k == 'Move':
            return self.arg(k, self.ch(SGN))
        return self.arg(k, self.ch(MOD if 'Align' in k else SKP))

    def field(self, name, cfg, feats):
        """one field: wrappers over a base, plus directives and byte order"""
        base = self.ch(['inf'] * 6 + (['parse', 'take', 'tag', 'value', 'ignore']))
        if cfg['ge'] and base == 'parse':
            base = 'inf'
        battrs, ty = BASES[base]
        battrs = [A(a.name, a.arg, self.ch('sp')) for a in battrs]
        if base == 'inf':
            ty = self.ch(TYPES)
            if ('Vec' in ty or '[' in ty) and not cfg['loops']:
                ty = 'T1'
            if 'Vec' in ty or '[' in ty:
                cfg['loops'] -= 1
        elif base == 'ignore':
            ty = self.ch(['T1', 'u32', 'Option<T1>', 'Vec<T1>'])
        elif base == 'take':
            battrs = [self.arg('Take', self.ch(NUM))]
        if cfg['ge'] and ('[' in ty and base == 'inf' or 'Vec' in ty and False):
            ty = 'T1'
        n = self.ch([0, 0, 0, 1, 1, 2, 2, 3])
        ws = []
        for _ in range(n):
            w = self.ch(['complete', 'count', 'lcount', 'cond', 'verify', 'map', 'debug'])
            if w in ('verify', 'debug') and cfg['unnamed']:
                continue
            if w in ('count', 'lcount'):
                if not cfg['loops']:
                    continue
                cfg['loops'] -= 1
            ws.append(w)
        if base == 'parse' and ws and ws[-1] == 'debug':
            ws.pop()
        if cfg['ge'] and 'debug' in ws:
            ws = [w for w in ws if w != 'debug']
        if ("'b" in ty or 'PhantomData' in ty) and any(w == 'map' for w in ws):
            ws = [w for w in ws if w != 'map']
        if 'PhantomData' in ty:
            ws = [w for w in ws if w in ('complete', 'cond')]
        attrs = list(battrs)
        for w in reversed(ws):
            if w == 'count':
                a = self.arg('Count', self.ch(NUM))
            elif w == 'lcount':
                a = self.arg('LengthCount', self.ch(['pn', 'nom::number::streaming::be_u16', 'nom::number::complete::le_u8'] if not cfg['ge'] else ['nom::number::streaming::be_u16', 'nom::number::complete::le_u8']))
            elif w == 'cond':
                a = self.arg('Cond', self.ch(BOOL))
            else:
                a = WRAP[w].attr(name, ty, self.ch('sp'))
            attrs.insert(0, a)
            ty = WRAP[w].ty(ty)
        feats |= {'w:' + w for w in ws} | {'base:' + base, 'depth:%d' % len(ws)}
        for x, y in itertools.combinations(range(len(ws)), 2):
            feats.add('ww:%s>%s' % (ws[x], ws[y]))
        if self.p(.25):
            e = self.ch(['BigEndian', 'LittleEndian'])
            attrs.insert(self.r.randrange(len(attrs) + 1), A(e))
            feats.add('f:' + e)
        elif self.p(.12):
            attrs.insert(0, self.arg('SetEndian', self.ch(['eff_end()', 'e1()'])))
            feats.add('f:SetEndian')
        for _ in range(self.ch([0, 0, 0, 1, 1, 2, 3])):
            d = self.directive(cfg['inp'])
            if d.name not in ('PreExec', 'PostExec'):
                if not cfg['moves']:
                    continue
                if 'Align' in d.name:
                    if not cfg['aligns']:
                        continue
                    cfg['aligns'] -= 1
                cfg['moves'] -= 1
            feats.add('d:' + d.name)
            attrs.insert(self.r.randrange(len(attrs) + 1), d)
        return F('' if cfg['unnamed'] else name, ty, *attrs, split=self.p(.3))

    def fields(self, cfg, feats, first=True):
        n = self.ch([1, 1, 2, 2]) if cfg['big'] else 1
        out = []
        cfg['loops'] = 1
        cfg['moves'], cfg['aligns'] = 2, 1
        if first:
            out.append(F('' if cfg['unnamed'] else 'a', 'u8'))
        for k in range(n):
            f = self.field('f%d' % k, cfg, feats)
            if cfg['unnamed']:
                for a in f.attrs:
                    if a.arg:
                        a.arg = a.arg.replace('(a as', '(_0 as').replace('a as', '_0 as').replace('a ==', '_0 ==').replace('a >', '_0 >').replace('< a', '< _0')
                        if a.arg == 'a':
                            a.arg = '_0'
            out.append(f)
        return out

    def item(self, id):
        feats = set()
        top, kw = [], {}
        dv = self.ch(['Nom'] * 5 + ['NomBE', 'NomLE'])
        cfg = {'ge': self.p(.15), 'inp': 'i', 'unnamed': False, 'big': True}
        kind = self.ch(['named', 'named', 'named', 'tuple', 'enum', 'enum', 'enum'])
        feats |= {'dv:' + dv, 'k:' + kind}
        if dv == 'Nom':
            e = self.ch([None, None, None, 'LittleEndian', 'BigEndian', 'SetEndian'])
            if e:
                top.append(A(e, None if e != 'SetEndian' else self.ch(['eff_end()', 'e1()']), self.ch('sp')))
                feats.add('t:' + e)
        fixed = dv != 'Nom' or any(a.name in ('LittleEndian', 'BigEndian') for a in top)
        if cfg['ge']:
            top.append(A('GenericErrors'))
        if self.p(.3):
            top.append(A('Complete'))
        dbg = kind != 'tuple' and not cfg['ge'] and self.p(.2)
        if dbg:
            top.append(A('Debug'))
        if self.p(.25):
            top.append(A('Exact'))
        if self.p(.15):
            cfg['inp'] = self.ch(['inp', 'data'])
            top.append(self.arg('InputName', cfg['inp']))
        if self.p(.1):
            top.append(A('DebugDerive'))
        for _ in range(self.ch([0, 0, 0, 1, 2])):
            top.append(self.directive(cfg['inp'], field=False))
        self.r.shuffle(top)
        feats |= {'t:' + a.name for a in top}
        extra = []
        if self.p(.25):
            extra = self.ch([[('k', 'u8')], [('k', 'u8'), ('l', 'u8')], [('k', 'u16'), ('l', 'u8'), ('m', 'bool')]])
            feats.add('extra')
        gen = self.p(.12)
        if kind in ('named', 'tuple'):
            cfg['unnamed'] = kind == 'tuple'
            fs = self.fields(cfg, feats)
            if extra and not cfg['unnamed']:
                fs.append(F('x', extra[-1][1], A('Value', extra[-1][0], self.ch('sp'))))
            kw.update(fields=fs, shape='tuple' if kind == 'tuple' else 'named')
        else:
            vs = []
            cfg['big'] = False
            sels = self.ch([['0', '1', '_'], ['_', '3', 'x if x > 7'], ['0 | 2', '_', '1..=4'], ['5', 'x if x & 1 == 1'], ['0', '_ if b1()', '_']])
            for j, s in enumerate(sels):
                shp = 'named' if dbg else self.ch(['named', 'named', 'tuple', 'unit'])
                cfg['unnamed'] = shp == 'tuple'
                feats.add('v:' + shp)
                vat = [self.directive(cfg['inp'], field=False) for _ in range(self.ch([0, 0, 1]))]
                if shp == 'unit' and self.p(.5):
                    vat.append(A('Parse', 'pg' if cfg['ge'] else 'p1', self.ch('sp')))
                v = V('V%d' % j, s, [] if shp == 'unit' else self.fields(cfg, feats), shape='tuple' if shp == 'tuple' else 'named', attrs=vat, split=self.p(.3))
                v.selstyle = self.ch('sp')
                feats |= {'va:' + a.name for a in vat}
                vs.append(v)
            kw.update(kind='enum', sel='u8', variants=vs)
        pre = '#[derive(Nom)] %s pub struct In { x: T1, y: u16 } use core::marker::PhantomData;' % ('#[nom(GenericErrors)]' if cfg['ge'] else '')
        it = sitem(id, kw.pop('fields', []), derive=dv, top=top, extra=extra, pre_items=pre, split=self.p(.2), what='combination: ' + ', '.join(sorted(feats)), **kw)
        it.feats = feats
        if cfg['inp'] != 'i':
            for vs_ in [it.fields] + [v.fields for v in it.variants]:
                for f in vs_:
                    for a in f.attrs:
                        pass
        return it


def coverage(n, seed=7, want=None, pool=12):
    """n definitions, each chosen among `pool` candidates for the most feature pairs not seen yet"""
    g = Gen(seed)
    seen, out = set(), []
    k = 0
    while len(out) < n:
        best = None
        for _ in range(pool):
            k += 1
            it = g.item('x%d' % k)
            if want and not want(it.feats):
                continue
            ps = set(itertools.combinations(sorted(it.feats), 2)) - seen
            if best is None or len(ps) > best[0]:
                best = (len(ps), ps, it)
        if best is None:
            continue
        seen |= best[1]
        out.append(best[2])
    return out, len(seen)


# ------------------------------------------------------------------------------------ per property
DIRS = {'SkipBefore', 'SkipAfter', 'AlignBefore', 'AlignAfter', 'Move', 'MoveAbs'}
CODE = {'PreExec', 'PostExec', 'ErrorIf'}
ORDER = {'BigEndian', 'LittleEndian'}


def lists(it):
    yield it.top
    for f in it.fields:
        yield f.attrs
    for v in it.variants:
        yield v.attrs
        for f in v.fields:
            yield f.attrs


def drop(names):
    def f(it):
        for l in lists(it):
            l[:] = [a for a in l if a.name not in names]
    return f


def plain_fields(it):
    """every wrapped field becomes a plain one of an opaque type"""
    for fs in [it.fields] + [v.fields for v in it.variants]:
        for k, f in enumerate(fs):
            if k and f.name != 'x' and any(a.name not in DIRS | CODE | ORDER | {'SetEndian'} for a in f.attrs):
                f.attrs = [a for a in f.attrs if a.name in DIRS | CODE | ORDER | {'SetEndian'}]
                f.ty = 'T1'


def no_extra(it):
    it.extra = []
    it.special = bool(it.sel)
    for fs in [it.fields]:
        fs[:] = [f for f in fs if f.name != 'x']


def no_ge(it):
    drop({'GenericErrors'})(it)
    it.err, it.has_err = None, False


def as_struct(it):
    v = [v for v in it.variants if v.fields][:1]
    it.kind, it.sel, it.variants = 'struct', None, []
    it.special = bool(it.extra)
    it.shape, it.fields = (v[0].shape, v[0].fields) if v else ('unit', [])


PLAN = {
    'C05': (lambda f: f & {'f:BigEndian', 'f:LittleEndian', 't:BigEndian', 't:LittleEndian', 'dv:NomBE', 'dv:NomLE'}, drop(ORDER), 36),
    'C06': (lambda f: f & {'f:SetEndian', 't:SetEndian'}, drop({'SetEndian'}), 36),
    'C07': (lambda f: any(x.startswith('ww:') for x in f), plain_fields, 36),
    'C08': (lambda f: f & {'w:complete', 't:Complete'}, drop({'Complete'}), 36),
    'C09': (lambda f: f & {'d:PreExec', 'd:PostExec', 'd:ErrorIf', 't:PreExec', 't:PostExec', 'va:PreExec', 'va:PostExec'}, drop(CODE), 36),
    'C10': (lambda f: any(x[2:] in DIRS for x in f), drop(DIRS), 36),
    'C11': (lambda f: 't:Exact' in f, drop({'Exact'}), 36),
    'C12': (lambda f: 'k:enum' in f, as_struct, 36),
    'C14': (lambda f: 'extra' in f, no_extra, 36),
    'C15': (lambda f: 't:GenericErrors' in f, no_ge, 36),
    'C21': (lambda f: f & {'w:debug', 't:Debug', 't:DebugDerive'}, drop({'Debug', 'DebugDerive'}), 36),
}


def items_for(prop, tier):
    want, strip, n = PLAN[prop]
    its, pairs = coverage(n if tier == 'quick' else 10 * n, seed=int(prop[1:]), want=lambda f: bool(want(f)), pool=6)
    for k, it in enumerate(its):
        it.opts.setdefault('sa', {})['budget'] = 12 if tier == 'quick' else 90
        it.entries = [('le',), ('be',), ('parse',)][k % 3] if tier == 'quick' else ('parse', 'be', 'le')
        c = copy.deepcopy(it)
        c.id = it.id + 'c'
        strip(c)
        it.controls = [c]
    return its, pairs


def check(res, prop, tier, only=None):
    from .check import lockstep_family
    its, pairs = items_for(prop, tier)
    if only:
        its = [i for i in its if only in i.id]
    res.cov['feature_pairs_in_combinations'] = pairs
    return lockstep_family(res, 'w-%s-cx' % prop.lower(), its)
