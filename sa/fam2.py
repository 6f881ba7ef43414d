"""Families C11-C15, C17, C21: item-level guarantees of derived parsers."""
import itertools

from . import check as K
from . import libfam
from .families import typed, FAMILIES, family, pick, hash_pick, sitem, stack, BASES, ERASE, mined
from .gen import A, F, V, Item

U = [V('P', None), V('Q', None), V('R', None, disc='9')]
EX = A('Exact')


def ev(*at, extra=()):
    return [V('P', '0', [F('a', 'T1'), F('b', 'T2')], attrs=at), V('Q', '1', [F('', 'T3')], shape='tuple', attrs=at), V('R', '2', attrs=at),
            V('U', '3', attrs=[A('Parse', 'p1')]), V('D', '_', [F('x', 'T2')])] + list(extra)


def suit(body, top):
    """the body, adapted to what its item attributes allow: Debug needs named fields, GenericErrors needs parsers of any error type"""
    names = {a.name for a in top}
    b = dict(body)
    if 'Debug' in names:
        if b.get('shape') == 'tuple':
            return None
        if b.get('variants') and b.get('kind') == 'enum':
            b['variants'] = [v for v in b['variants'] if v.shape != 'tuple' or not v.fields]
    if 'GenericErrors' in names and b.get('kind') == 'enum':
        b['variants'] = [V(v.name, v.sel, v.fields, shape=v.shape, attrs=[A('Parse', 'pg') if a.name == 'Parse' and a.arg == 'p1' else a for a in v.attrs]) for v in b['variants']]
    return b


# ---------------------------------------------------------------------------------------------- C11
def c11_items(big):
    pre, post = lambda s: A('PreExec', s), lambda s: A('PostExec', s)
    bodies = {
        'n1': dict(fields=[F('a', 'T1')]), 'n3': dict(fields=[F('a', 'T1'), F('b', 'T2'), F('c', 'u16')]),
        't2': dict(fields=[F('', 'T1'), F('', 'T2')], shape='tuple'), 'u': dict(fields=[]), 'b0': dict(fields=[], shape='brace'),
        'cnt': dict(fields=[F('a', 'u8'), F('v', 'Vec<T1>', A('Count', 'a'))]), 'vec': dict(fields=[F('v', 'Vec<T1>')]),
        'opt': dict(fields=[F('v', 'T2'), F('o', 'Option<T1>')]), 'skip': dict(fields=[F('a', 'T1', A('SkipAfter', 'n1()')), F('b', 'T2')]),
        'al': dict(fields=[F('a', 'T1'), F('b', 'T2', A('AlignAfter', '4'))]), 'mv': dict(fields=[F('a', 'T1'), F('b', 'T2', A('Move', 'd1()'))]),
        'e': dict(kind='enum', sel='u8', variants=ev()), 'e2': dict(kind='enum', sel='u8', variants=ev()[:2]),
        'f': dict(kind='fieldless', repr='u16', variants=U), 'f8': dict(kind='fieldless', repr='i8', variants=U),
    }
    tops = {
        '': [EX], 'le': [EX, A('LittleEndian')], 'cm': [EX, A('Complete')], 'cm2': [A('Complete'), EX], 'ge': [EX, A('GenericErrors')],
        'dbg': [EX, A('DebugDerive')] if False else [A('Debug'), EX], 'pq': [EX, post('eff_i(i);')], 'qp': [post('eff_i(i);'), EX],
        'p': [pre('eff_i(i);'), EX, post('eff_a();')], 'chg': [EX, post('let i = &i[i.len()..];')], 'chg2': [post('let i = &i[i.len()..];'), EX],
        'in': [A('InputName', 'inp'), EX], 'sk': [A('PreExec', 'eff_a();'), A('PreExec', 'let i = &i[i.len()..];'), EX],
    }
    items = []
    for bn, b in bodies.items():
        for tn, t in tops.items():
            c = suit(b, t)
            if c is None or b.get('kind') == 'fieldless' and tn == 'dbg':
                continue
            items.append(Item('x_%s_%s' % (bn, tn), top=t, what='Exact (%s) on %s' % (', '.join(a.text() for a in t), bn), **c))
        if b.get('kind') == 'fieldless':
            continue
        items.append(Item('xa_%s' % bn, top=[EX], extra=[('n', 'u8'), ('m', 'u8')], what='Exact with ExtraArgs on ' + bn, **b))
        items.append(Item('no_%s' % bn, what='without Exact: ' + bn, **b))
    items += [
        Item('gen', [F('a', 'T'), F('b', 'T1')], top=[EX], generics='<T>', inst='<T2>', opts={'subst': {r'\bT\b': 'T2'}}, what='Exact on a generic struct'),
        sitem('life', [F('a', "&'b [u8]", A('Take', 'n1()')), F('t', "TB<'b>")], top=[EX], what='Exact on a struct with a lifetime'),
        Item('nbe', [F('a', 'u16')], top=[EX], derive='NomBE', what='Exact with NomBE'),
        Item('nle', [F('a', 'u16')], top=[EX], derive='NomLE', what='Exact with NomLE'),
        Item('se', [F('a', 'u16'), F('b', 'T1')], top=[EX, A('SetEndian', 'e1()')], what='Exact with SetEndian'),
        Item('nest', [F('a', 'In'), F('b', 'T1')], pre_items='#[derive(Nom)] #[nom(Exact)] pub struct In { p: T1, q: T2 }', what='nested Exact type'),
        Item('two', [F('a', 'T1')], top=[EX, EX], what='Exact twice'),
    ]
    return items


@family('C11')
def c11(res, tier, only=None):
    K.lockstep_family(res, 'w-c11', pick(c11_items(tier == 'thorough'), only), opts=ERASE)


# ---------------------------------------------------------------------------------------------- C12
def c12_items(big):
    items = []
    SELMOD = 'pub const KA: u8 = 4; pub const KB: u8 = 9; #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Kind { A, B, C(u8), D { x: u8 } }'
    fld = [[F('a', 'T1')], [F('a', 'T2'), F('b', 'T1')], [F('', 'T3')], [], [F('q', 'u16')], [F('', 'T1'), F('', 'T2')], [F('z', 'Vec<T1>', A('Count', 'n1()'))]]

    def mk(id, sel, pats, what, **kw):
        vs = []
        for k, p in enumerate(pats):
            f = fld[k % len(fld)]
            vs.append(V('V%d' % k, p, f, shape='tuple' if f and not f[0].name else 'named'))
        items.append(Item(id, kind='enum', sel=sel, variants=vs, what=what, pre_items=SELMOD, **kw))

    # the wildcard at every position, with overlapping patterns before and after it
    base = {1: ['0'], 2: ['0', '1'], 3: ['0..=4', '3', '3..=9'], 4: ['1', 'x if x > 200', 'y if y % 2 == 0', 'z if z > 100'],
            5: ['0', 'x if x & 1 == 1', '3', 'x if b1()', '0..=255 if b2()'], 6: ['5', '4', '3', '2', '1', '0']}
    for n, ps in base.items():
        mk('n%d' % n, 'u8', ps, '%d variants without wildcard' % n)
        for pos in range(n + 1):
            q = list(ps)
            q.insert(pos, '_')
            mk('w%d_%d' % (n, pos), 'u8', q, '%d variants, wildcard at position %d' % (n + 1, pos))
    for p in itertools.permutations(['x if x > 200', 'x if x > 100', '250', '_']):
        if big or hash_pick(p, 2):
            mk('perm_' + ''.join(str('abcd'['x if x > 200|x if x > 100|250|_'.split('|').index(x)]) for x in p), 'u8', list(p), 'overlapping selectors in the order ' + ', '.join(p))
    mk('w_only', 'u8', ['_'], 'only a wildcard')
    sizes = sorted({7, 9, 12, 16} | {x + d for x in mined()['ints'] if 2 <= x < 40 for d in (0, 1)}) if not big else list(range(7, 34))
    for n in sizes:
        mk('many%d' % n, 'u8', ['x if x == n%d(0)' % k if False else str(k * 3) for k in range(n)] + (['_'] if n % 2 else []), '%d variants' % n)
    mk('manyw', 'u8', ['_'] + ['%d..=%d' % (k, 255 - k) for k in range(9, 0, -1)], 'many overlapping ranges after a wildcard')
    for k, (sel, ps) in enumerate([
        ('u8', ['0 | 2 | 4', '1..=3', 'KA', 'KB', '_']), ('u8', ['KA', '0..=9', 'KB']), ('u16', ['0x1234', '0..=0xff', '0xff..=0x1000']), ('i8', ['-1', '-128..=-2', '0', '_']),
        ('i32', ['-5', '5', 'x if x < 0', '_']), ('bool', ['true', 'false']), ('bool', ['false', '_']), ('bool', ['_', 'true']), ('char', ["'a'", "'b'..='z'"]),
        ('(u8, u8)', ['(0, _)', '(_, 0)', '(x, y) if x == y', '_']), ('(bool, u8)', ['(true, 1)', '(false, _)', '(true, _)']), ('Kind', ['Kind::A', 'Kind::C(3)', 'Kind::C(_)', 'Kind::D { x: 1 }', '_']),
        ('Kind', ['Kind::B', 'Kind::D { .. }']), ('Kind', ['_', 'Kind::B', 'Kind::C(n) if n > 4', 'Kind::C(_)']), ('Option<u8>', ['None', 'Some(0)', 'Some(x) if x > 3', '_']), ('u64', ['0xffff_ffff_ffff_ffff', '1', '_']),
        ('u128', ['1', '_']), ('usize', ['0', '1']), ('&Kind', ['Kind::A', 'Kind::B', '_']), ('&u8', ['0', '1', '&x if x > 9']), ('super::opq::T1', ['T1 { x: 0 }', 'T1 { x: 1 }', '_']),
        ('u8', ['_ if b1()', '0', '_ if b2()', '_']), ('u8', ['x', '0']), ('u8', ['x @ 1..=5', 'x @ (7 | 9)']), ('u8', ['u8::MAX', 'u8::MIN', '_']), ('u8', ['b\'a\'', 'b\'b\'']), ('i64', ['i64::MIN', '-1', '0'])]):
        mk('pat%d' % k, sel, ps, 'selector %s with patterns %s' % (sel, ', '.join(ps)))
    for k, st in enumerate('sp'):
        for pos in range(2):
            vs = [V('A', '_', [F('a', 'T1')]), V('B', 'x if x > 9', [F('b', 'T2')], attrs=[A('PreExec', 'eff_a();')]), V('C', '3 | 4', attrs=[A('Parse', 'p1')]), V('D', '20', [F('', 'T1')], shape='tuple')]
            for v in vs:
                v.selstyle = st
                v.selpos = 1 if v.attrs and pos else 0
                v.split = bool(pos)
            items.append(Item('st%d%d' % (k, pos), kind='enum', sel='u8', variants=vs, what='selector syntax'))
    W = lambda: [V('A', '_', [F('a', 'T1')]), V('B', 'x if x > 9', [F('b', 'T2')]), V('C', '20', [F('', 'T1')], shape='tuple'), V('E', '3')]
    for nm, top in (('le', [A('LittleEndian')]), ('cm', [A('Complete')]), ('ge', [A('GenericErrors')]), ('ex', [EX]), ('dbg', [A('Debug')]), ('se', [A('SetEndian', 'eff_end()')]), ('in', [A('InputName', 'inp')]),
                    ('pre', [A('PreExec', 'eff_a();')]), ('post', [A('PostExec', 'eff_i(i);')])):
        items.append(Item('top_' + nm, top=top, what='selector enum with ' + top[0].text(), **suit(dict(kind='enum', sel='u8', variants=W()), top)))
        items.append(Item('topn_' + nm, top=top, what='selector enum without wildcard, with ' + top[0].text(), **suit(dict(kind='enum', sel='u8', variants=W()[1:]), top)))
    items += [
        Item('usesel', kind='enum', sel='u8', variants=[V('P', '0', [F('v', 'u8', A('Value', 'selector'))]), V('Q', 'x if x > 5', [F('v', 'T1', A('Parse', '{ |i| px(i, x) }'))]), V('R', 'y', [F('n', 'Vec<T1>', A('Count', 'y'))])],
             what='pattern bindings used by the fields'),
        Item('xa', kind='enum', sel='u8', extra=[('k', 'u8'), ('l', 'u8')], variants=[V('P', 'x if x == k', [F('v', 'u8', A('Value', 'l'))]), V('Q', 'x if x == l', [F('a', 'T1')]), V('R', '_')], what='guards over extra arguments'),
        Item('gen', kind='enum', sel='u8', generics='<T>', inst='<T2>', opts={'subst': {r'\bT\b': 'T2'}}, variants=[V('P', '0', [F('a', 'T'), F('b', 'T1')]), V('Q', '1', [F('', 'T')], shape='tuple'), V('R', '_')], what='generic enum'),
        Item('alunit', kind='enum', sel='u8', variants=[V('P', '0'), V('Q', '1'), V('R', '_'), V('S', '7', attrs=[A('Parse', 'p2')])], what='all-unit selector enum'),
        Item('disc', kind='enum', sel='u8', variants=[V('P', '0', disc='7'), V('Q', '7', disc='0'), V('R', '3')], what='discriminants do not matter'),
        Item('unitp', kind='enum', sel='u8', variants=[V('P', '0', attrs=[A('Parse', 'p1')]), V('Q', '1', attrs=[A('Parse', '|i| p2(i)', 'p')]), V('R', '_', attrs=[A('Parse', 'pg')])], what='Parse on unit variants'),
        Item('empty', kind='enum', sel='u8', variants=[V('P', '0', [], shape='brace'), V('Q', '1', [], shape='tuple'), V('R', '2')], what='variants with no fields'),
        sitem('life', [], kind='enum', sel='u8', variants=[V('P', '0', [F('a', "&'b [u8]", A('Take', 'n1()'))]), V('Q', '_', [F('', "TB<'b>")], shape='tuple')], what='enum with a lifetime'),
        Item('attrs', kind='enum', sel='u8', variants=[
            V('P', '0', [F('a', 'u8'), F('v', 'Vec<T1>', A('Count', 'a')), F('o', 'Option<T2>', A('Cond', 'a == 1'))]),
            V('Q', '1', [F('', 'T1', A('Map', 'f1')), F('', 'T1', A('SkipBefore', 'n1()')), F('', 'u32', A('AlignAfter', '4'))], shape='tuple'),
            V('R', '_', [F('x', 'T1', A('ErrorIf', 'b1()')), F('y', 'T1', A('MoveAbs', 'n2()'))])], what='field attributes in variants'),
        Item('nest', kind='enum', sel='u8', variants=[V('P', '0', [F('a', 'In', A('Parse', '|i| In::parse_le(i, 3)'))]), V('Q', '_', [F('', 'T1')], shape='tuple')],
             pre_items='#[derive(Nom)] #[nom(Selector = "u8")] pub enum In { #[nom(Selector = "_")] A(T1), #[nom(Selector = "3")] B { x: T2 } }', what='nested selector enums'),
    ]
    return items


@family('C12')
def c12(res, tier, only=None):
    K.lockstep_family(res, 'w-c12', pick(c12_items(tier == 'thorough'), only), opts=ERASE)


# ---------------------------------------------------------------------------------------------- C13
def c13_items(big):
    items = []
    R = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1)}
    for r, (lo, hi) in R.items():
        sets = {
            'impl': [None, None, None], 'one': [None], 'expl': ['3', '1', '2'], 'gap': [None, '10', None, None, '100', None], 'max': [str(hi), '0'], 'maxp': ['%d' % (hi - 1), None, '0', None],
            'hex': ['0x10', '0x7f', None if False else '0x2'], 'desc': ['9', '8', '7', '6', '5', '4', '3', '2', '1', '0'], 'expr': ['1 << 3', '5 + 1', None], 'chr': ['b\'a\' as %s' % r, 'K as %s' % r],
        }
        if lo < 0:
            sets['neg'] = ['-1', None, None]
            sets['min'] = [str(lo), None, '-1', None]
            sets['mix'] = ['-5', '5', '-6', '6']
        else:
            sets['top'] = [str(hi), str(hi // 2 + 1), str(hi // 2)]
        for sn, ds in sets.items():
            vs = [V('V%d' % k, None, disc=d) for k, d in enumerate(ds)]
            for dv, top in (('Nom', []), ('Nom', [A('LittleEndian')]), ('NomLE', []), ('Nom', [A('Complete')]), ('NomBE', [])):
                if not big and (dv, top) != ('Nom', []) and not hash_pick((r, sn, dv, len(top)), 4):
                    continue
                items.append(Item('%s_%s_%s%s' % (r, sn, dv, ''.join(a.name[0] for a in top)), kind='fieldless', repr=r, derive=dv, top=top, variants=vs, pre_items='const K: u8 = 77;',
                                  what='repr %s, discriminants %s' % (r, ds)))
    for n in sorted({1, 2, 4, 5, 8, 16, 33} | {x for x in mined()['ints'] if 2 <= x <= 130} | {x + 1 for x in mined()['ints'] if 2 <= x <= 130}) if not big else list(range(1, 40)) + [64, 65, 127, 128, 129, 255, 256]:
        items.append(Item('n%d' % n, kind='fieldless', repr='u8' if n <= 256 else 'u16', variants=[V('V%d' % k, None) for k in range(n)], what='%d variants' % n))
        items.append(Item('nr%d' % n, kind='fieldless', repr='i16', variants=[V('V%d' % k, None, disc=str(n - 2 * k)) for k in range(n)], what='%d variants, descending by two' % n))
    for nm, top in (('ge', [A('GenericErrors')]), ('ex', [EX]), ('pre', [A('PreExec', 'eff_i(i);')]), ('post', [A('PostExec', 'eff_v(&enum_def);')]), ('in', [A('InputName', 'inp')]), ('dbg', [A('Debug')]), ('be', [A('BigEndian')])):
        for r in ('u8', 'u16', 'i32'):
            items.append(Item('t_%s_%s' % (nm, r), kind='fieldless', repr=r, top=top, variants=[V('A', None, disc='5'), V('B', None), V('C', None, disc='1')], what='fieldless enum with ' + top[0].text()))
    names = ['selector', 'r#type', 'Ok', 'Err', 'Some', 'None', 'Switch', 'Error', 'Parser']
    items.append(Item('names', kind='fieldless', repr='u8', variants=[V(n, None) for n in names], what='variants with special names'))
    items.append(Item('copy', kind='fieldless', repr='u16', rust_derives='Clone, Copy, PartialEq, Eq, Debug', variants=U, what='together with other derives'))
    for k, n in enumerate(('Selector', 'Error', 'IResult', 'Endianness')):
        items.append(Item('nm%d' % k, kind='fieldless', repr='u16', name=n, imports='use nom_derive::{Nom, Parse}; use super::opq::*;', variants=U, what='fieldless enum called ' + n))
    return items


@family('C13')
def c13(res, tier, only=None):
    K.lockstep_family(res, 'w-c13', pick(c13_items(tier == 'thorough'), only))


# ---------------------------------------------------------------------------------------------- C14
def c14_items(big):
    items = []
    args = {
        '1': [('k', 'u8')], '2': [('k', 'u8'), ('l', 'u8')], '3': [('k', 'u8'), ('l', 'u8'), ('m', 'u8')], 'mix': [('k', 'u8'), ('l', 'u16'), ('m', 'u8'), ('n', 'usize')], 'mut': [('mut k', 'u8'), ('l', 'u8')],
        'ty': [('k', 'u8'), ('l', 'u8'), ('en', 'nom::number::Endianness'), ('t', "&'static [u8]"), ('o', 'Option<u8>')], 'names': [('k', 'u8'), ('l', 'u8'), ('r#type', 'u8'), ('x', 'u8'), ('selector2', 'u8')],
        'ref': [('k', 'u8'), ('l', 'u8'), ('r', '&u16')], 'seven': [(c, 'u8') for c in 'klmnopq'],
    }
    for an, ex in args.items():
        names = [n.replace('mut ', '') for n, t in ex if t == 'u8']
        uses = [F('f%d' % j, 'T1', A('Parse', '{ |i| px(i, %s) }' % n)) for j, n in enumerate(names)] + [F('z', 'T2'), F('c', 'Vec<T1>', A('Count', 'k'))]
        tuses = [F('', 'T1', A('Parse', '{ |i| px(i, %s) }' % n)) for n in names] + [F('', 'u16')]
        for dv, top in (('Nom', []), ('NomLE', []), ('NomBE', []), ('Nom', [A('LittleEndian')]), ('Nom', [A('BigEndian')]), ('Nom', [A('GenericErrors')]), ('Nom', [A('Complete')]), ('Nom', [EX]), ('Nom', [A('SetEndian', 'e1()')])):
            t = dv + ''.join(a.name[0] for a in top)
            ge = top and top[0].name == 'GenericErrors'
            us = [F('f%d' % j, 'u8', A('Value', n)) for j, n in enumerate(names)] + [F('z', 'T2'), F('c', 'Vec<T1>', A('Count', 'k'))] if ge else uses
            tu = [F('', 'u8', A('Value', n)) for n in names] + [F('', 'u16')] if ge else tuses
            items.append(Item('s_%s_%s' % (an, t), us, derive=dv, top=top, extra=ex, what='struct with ExtraArgs %s (%s)' % (ex, t)))
            if big or hash_pick((an, t), 2):
                items.append(Item('t_%s_%s' % (an, t), tu, shape='tuple', derive=dv, top=top, extra=ex, what='tuple struct with ExtraArgs %s (%s)' % (ex, t)))
                items.append(Item('e_%s_%s' % (an, t), kind='enum', sel='u8', derive=dv, top=top, extra=ex, variants=[V('P', '0', us), V('Q', 'x if x == k', tu, shape='tuple'), V('R', '_')], what='enum with ExtraArgs %s (%s)' % (ex, t)))
        items.append(Item('u_' + an, [], extra=ex, what='unit struct with ExtraArgs'))
        items.append(Item('v_' + an, [F('v', 'u8', A('Value', names[-1])), F('w', 'u8', A('Value', names[0]))], extra=ex, what='extra arguments as values'))
    for dv, top in (('Nom', []), ('NomLE', []), ('NomBE', []), ('Nom', [A('LittleEndian')]), ('Nom', [A('BigEndian')]), ('Nom', [A('GenericErrors')]), ('Nom', [A('Complete')]), ('Nom', [A('Debug')])):
        t = dv + ''.join(a.name[0] for a in top) + ('d' if top and top[0].name == 'Debug' else '')
        items += [
            Item('p_%s' % t, [F('a', 'T1'), F('b', 'TP'), F('c', 'u32')], derive=dv, top=top, what='plain struct (%s)' % t),
            None if 'd' == t[-1] else Item('pt_%s' % t, [F('', 'T1'), F('', 'TP')], shape='tuple', derive=dv, top=top, what='plain tuple struct (%s)' % t),
            Item('pe_%s' % t, kind='enum', sel='u16', derive=dv, top=top, variants=[V('P', '0', [F('a', 'T1')]), V('Q', '_', [F('', 'u16'), F('', 'TP')], shape='tuple')], what='selector enum (%s)' % t),
            Item('pu_%s' % t, [], derive=dv, top=top, what='unit struct (%s)' % t),
            Item('pg_%s' % t, [F('a', 'T'), F('b', 'U')], derive=dv, top=top, generics='<T, U>', inst='<T1, T2>', opts={'subst': {r'\bT\b': 'T1', r'\bU\b': 'T2'}}, what='generic struct (%s)' % t),
            sitem('pl_%s' % t, [F('a', "&'b [u8]", A('Take', 'n1()')), F('b', 'u16')], derive=dv, top=top, what='struct with a lifetime (%s)' % t),
            Item('pn_%s' % t, [F('a', 'T1'), F('b', 'u16')], derive=dv, top=top + [A('InputName', 'inp')], what='InputName (%s)' % t),
            Item('pq_%s' % t, kind='enum', sel='u16', extra=[('k', 'u16')], derive=dv, top=top, variants=[V('P', 'x if x == k', [F('v', 'u16', A('Value', 'selector'))]), V('Q', '_', [F('', 'u16', A('Value', 'k'))], shape='tuple')],
                 what='selector and an extra argument of the same type (%s)' % t),
        ]
        items = [x for x in items if x]
        if t[-1] == 'd':
            items = [x for x in items if x.id not in ('pe_' + t, 'pq_' + t)]
        if not top or top[0].name != 'Debug':
            items.append(Item('pf_%s' % t, kind='fieldless', repr='u32', derive=dv, top=top, variants=U, what='fieldless enum (%s)' % t))
    items.append(Item('nestx', [F('a', 'In', A('Parse', '|i| In::parse_le(i, 3, 4)')), F('b', 'T1')], pre_items='#[derive(Nom)] #[nom(ExtraArgs(k: u8, l: u8))] pub struct In { #[nom(Value = "l")] p: u8, #[nom(Value(k))] q: u8 }', what='calling a derived parser with arguments'))
    items.append(Item('gx', [F('a', 'T'), F('v', 'u8', A('Value', 'l'))], generics='<T>', inst='<T1>', extra=[('k', 'u8'), ('l', 'u8')], opts={'subst': {r'\bT\b': 'T1'}}, what='generic struct with ExtraArgs'))
    items.append(sitem('lx', [F('a', "&'b [u8]", A('Take', 'k')), F('v', 'u8', A('Value', 'l'))], extra=[('k', 'u8'), ('l', 'u8')], what='struct with a lifetime and ExtraArgs'))
    return items


def c14_raw():
    items = []
    for v, g, w, I, E in libfam.VARIANTS[1:]:
        items.append(libfam.Raw('man_' + v, libfam.sig('super::opq::TP', I, E, g, w), libfam.call('super::opq::TP', I, E), lambda e, I=I, E=E: '<super::opq::TP as Parse<%s, %s>>::parse(i)' % (I, E), what='type with a manual parse only'))
        # big and little-endian given, parse defaulted to nothing
        items.append(libfam.Raw('man3_' + v, libfam.sig('super::opq::T1', I, E, g, w), libfam.call('super::opq::T1', I, E), lambda e, I=I, E=E: '<super::opq::T1 as Parse<%s, %s>>::%s(i)' % (I, E, libfam.ENTRY[e]), what='type with three manual entry points'))
        items.append(libfam.Raw('mang_' + v, libfam.sig('M<X>', I, E, libfam.addgen(g, 'X'), libfam.addwhere(w, 'X: Parse<%s, %s>' % (I, E))), libfam.call('M<X>', I, E), lambda e, I=I, E=E: 'match <X as Parse<%s, %s>>::parse(i) { Ok((i, x)) => Ok((i, M(x))), Err(e) => Err(e) }' % (I, E),
                                what='generic type with a manual parse only',
                                items="pub struct M<X>(pub X); impl<I: InputSlice, E: ParseError<I>, X: Parse<I, E>> Parse<I, E> for M<X> { fn parse(i: I) -> IResult<I, Self, E> { match X::parse(i) { Ok((i, x)) => Ok((i, M(x))), Err(e) => Err(e) } } }"))
    return items


@family('C14')
def c14(res, tier, only=None):
    K.lockstep_family(res, 'w-c14', pick(c14_items(tier == 'thorough'), only), elsewhere_opts=None)
    K.lockstep_family(res, 'w-c14m', pick(c14_raw(), only), opts={'mode': 'lib'})


# ---------------------------------------------------------------------------------------------- C15
def c15_items(big):
    items = []
    GE = A('GenericErrors')
    fl = {
        'inf': ('T1', []), 'prim': ('u32', []), 'opt': ('Option<T1>', []), 'vec': ('Vec<T1>', []), 'cnt': ('Vec<T1>', [A('Count', 'n1()')]), 'lcnt': ('Vec<T1>', [A('LengthCount', 'pn')]), 'cond': ('Option<T1>', [A('Cond', 'b1()')]),
        'ver': ('T1', [A('Verify', 'b1()')]), 'map': ('T1', [A('Map', 'f1')]), 'cmp': ('T1', [A('Complete')]), 'par': ('T1', [A('Parse', 'pg')]), 'into': ('T1', [A('Into'), A('Parse', 'pe2')]), 'intoc': ('T1', [A('Complete'), A('Into'), A('Parse', 'pe2')]),
        'eif': ('T1', [A('ErrorIf', 'b1()')]), 'skb': ('T1', [A('SkipBefore', 'n1()')]), 'ska': ('T1', [A('SkipAfter', '3')]), 'alb': ('T1', [A('AlignBefore', '4')]), 'ala': ('T1', [A('AlignAfter', '8')]), 'mv': ('T1', [A('Move', 'd1()')]), 'ma': ('T1', [A('MoveAbs', 'n2()')]),
        'val': ('T1', [A('Value', 'val1()')]), 'ign': ('T1', [A('Ignore')]), 'cc': ('Option<Vec<T1>>', [A('Cond', 'b1()'), A('Count', 'n1()')]), 'vm': ('T1', [A('Verify', 'b1()'), A('Map', 'f1'), A('Complete')]), 'arr': ('[T1; 3]', []),
        'le': ('T1', [A('LittleEndian')]), 'dbgless': ('u8', []),
    }
    for k, (t, at) in fl.items():
        f3 = [F('a', 'T2'), F('v', t, *at), F('z', 'T3')]
        for ge in (True, False):
            if ge and k in ('into', 'intoc', 'arr'):     # these need more of the error type than a ParseError
                continue
            top = [GE] if ge else []
            g = 'g' if ge else 'd'
            items.append(Item('%s_%s' % (g, k), f3, top=top, what='errors of a field with %s%s' % (', '.join(x.text() for x in at) or 'no attribute', ', generic errors' if ge else '')))
            if big or hash_pick((k, g), 2):
                items.append(Item('%st_%s' % (g, k), [F('', f.ty, *f.attrs) for f in f3], shape='tuple', top=top, what='errors in a tuple struct, ' + k)) if k not in ('ver', 'vm') else None
                items.append(Item('%sc_%s' % (g, k), f3, top=top + [A('Complete')], what='errors in a Complete struct, ' + k))
                items.append(Item('%se_%s' % (g, k), kind='enum', sel='u8', top=top, variants=[V('P', '0', f3), V('Q', '1', [F('y', 'T1')]), V('R', '2')], what='errors in a variant, ' + k))
            if big or hash_pick((k, g, 'x'), 3):
                items.append(Item('%sx_%s' % (g, k), f3, top=top + [EX], extra=[('k', 'u8')], what='errors with Exact and ExtraArgs, ' + k))
    for n in (1, 2, 4, 6, 9):
        items.append(Item('pos%d' % n, [F('f%d' % k, 'T1') for k in range(n)], top=[GE], what='errors of each of %d fields' % n))
        items.append(Item('posd%d' % n, [F('f%d' % k, 'T1') for k in range(n)], what='errors of each of %d fields, default error type' % n))
    for ge in (True, False):
        top = [GE] if ge else []
        g = 'g' if ge else 'd'
        items += [
            Item(g + '_fl', kind='fieldless', repr='u16', top=top, variants=U, what='errors of a fieldless enum'),
            Item(g + '_flc', kind='fieldless', repr='u16', top=top + [A('Complete')], variants=U, what='errors of a fieldless enum with Complete'),
            Item(g + '_flx', kind='fieldless', repr='u16', top=top + [EX], variants=U, what='errors of a fieldless enum with Exact'),
            Item(g + '_sw', kind='enum', sel='u8', top=top, variants=[V('P', '0', [F('a', 'T1')])], what='Switch error'),
            Item(g + '_swx', kind='enum', sel='u8', top=top + [EX], extra=[('k', 'u8')], variants=[V('P', '0', [F('a', 'T1')]), V('Q', 'x if x == k')], what='Switch error with extra arguments'),
            Item(g + '_up', kind='enum', sel='u8', top=top, variants=[V('P', '0', attrs=[A('Parse', 'pg')]), V('Q', '_', attrs=[A('Parse', 'pg')])], what='errors of the parser of a unit variant'),
            Item(g + '_gen', [F('a', 'T'), F('b', 'T1')], top=top, generics='<T>', inst='<T2>', opts={'subst': {r'\bT\b': 'T2'}}, what='errors in a generic struct'),
            Item(g + '_nest', [F('a', 'In'), F('b', 'T1')], top=top, pre_items='#[derive(Nom)] %s pub struct In { p: T1, q: T2 }' % ('#[nom(GenericErrors)]' if ge else ''), what='errors of nested derived types'),
            Item(g + '_ne', [F('a', 'Ine', A('Parse', '|i| Ine::parse(i, 3)')), F('b', 'T1')], what='errors of nested selector enums',
                 pre_items='#[derive(Nom)] #[nom(Selector = "u8"%s)] pub enum Ine { #[nom(Selector = "0")] A(T1), #[nom(Selector = "3")] B { x: T2 } }' % (', GenericErrors' if ge else '')),
            Item(g + '_be', [F('a', 'u16'), F('b', 'T1')], derive='NomLE', top=top, what='errors with NomLE'),
            Item(g + '_se', [F('a', 'T1'), F('b', 'T2', A('SetEndian', 'e1()')), F('c', 'T3')], top=top, what='errors with SetEndian'),
            Item(g + '_in', [F('a', 'T1', A('ErrorIf', 'b1()')), F('b', 'T2', A('Move', '-1'))], top=top + [A('InputName', 'inp'), EX], what='errors with InputName'),
            sitem(g + '_life', [F('a', "&'b [u8]", A('Take', 'n1()')), F('t', "TB<'b>"), F('g', "&'b [u8]", A('Tag', 'tg()'))], top=top, what='errors of borrowed fields'),
        ]
    return items


@family('C15')
def c15(res, tier, only=None):
    K.lockstep_family(res, 'w-c15', pick(c15_items(tier == 'thorough'), only), opts=ERASE)


# ---------------------------------------------------------------------------------------------- C21
def c21_items(big):
    items = []
    D, DD = A('Debug'), A('DebugDerive')
    ws = ['complete', 'count', 'lcount', 'cond', 'verify', 'map']
    n = 0
    for base in BASES:
        for r in (0, 1, 2):
            for p in itertools.product(ws, repeat=r):
                if r == 2 and not (big or base in ('inf', 'parse') and hash_pick(p + (base,), 4)):
                    continue
                for pos in range(r + 1):
                    n += 1
                    at, ty = stack('v', p, base, 'sp'[n % 2], extra=[D], pos=pos)
                    items.append(sitem('d_%s_%s_%d' % (base, '_'.join(p), pos), [F('a', 'u8'), F('v', ty, *at), F('z', 'T2')], what='Debug at position %d of %s over %s' % (pos, '/'.join(p), base)))
                at, ty = stack('v', p, base, 's')
                items.append(sitem('t_%s_%s' % (base, '_'.join(p)), [F('a', 'u8'), F('v', ty, *at), F('z', 'T2')], top=[D], what='Debug on the struct, %s over %s' % ('/'.join(p), base)))
                if r < 2:
                    items.append(sitem('n_%s_%s' % (base, '_'.join(p)), [F('a', 'u8'), F('v', ty, *at), F('z', 'T2')], what='no Debug, no output: %s over %s' % ('/'.join(p), base)))
    EV = [V('P', '0', [F('a', 'T1'), F('b', 'T2')]), V('R', '2'), V('U', '3', attrs=[A('Parse', 'p1')]), V('D', '_', [F('x', 'T2')])]
    bodies = {
        's': dict(fields=[F('a', 'T1'), F('b', 'T2'), F('c', 'u16')]), 'dir': dict(fields=[F('a', 'T1', A('SkipBefore', 'n1()'), A('PreExec', 'eff_a();')), F('b', 'T2', A('AlignAfter', '4'), A('ErrorIf', 'b1()'), A('PostExec', 'eff_i(i);'))]),
        'mv': dict(fields=[F('a', 'T1', A('Move', 'd1()')), F('b', 'T2', A('MoveAbs', 'n2()'))]), 'e': dict(kind='enum', sel='u8', variants=EV), 'en': dict(kind='enum', sel='u8', variants=EV[:2]),
        'ed': dict(kind='enum', sel='u8', variants=[V('P', '0', [F('a', 'T1', D), F('b', 'T2')]), V('R', '2'), V('D', '_', [F('x', 'T2', D)])]), 'fd': dict(fields=[F('a', 'T1', D), F('b', 'T2'), F('c', 'u16', D)]),
        'set': dict(fields=[F('a', 'T1'), F('b', 'T2', A('SetEndian', 'eff_end()')), F('c', 'u16')]), 'own': dict(fields=[F('a', 'T1', A('LittleEndian')), F('b', 'T2', A('BigEndian')), F('c', 'u16')]),
        'cont': dict(fields=[F('a', 'Option<T1>'), F('b', 'Vec<T2>'), F('c', '[u8; 4]')]), 'u': dict(fields=[]), 'x': dict(fields=[F('a', 'T1'), F('v', 'u8', A('Value', 'l'))], extra=[('k', 'u8'), ('l', 'u8')]),
        'ce': dict(fields=[F('a', 'T1', A('Complete')), F('b', 'T2')]), 'phi': dict(fields=[F('a', 'T1'), F('p', 'PhantomData<T1>'), F('b', 'T2')], pre_items='use core::marker::PhantomData;'),
    }
    tops = {'d': [D], 'dd': [DD], 'ddd': [DD, D], 'dle': [D, A('LittleEndian')], 'cd': [A('Complete'), D], 'dc': [D, A('Complete')], 'dx': [D, EX], 'ddx': [EX, DD], 'dpre': [A('PreExec', 'eff_a();'), D, A('PostExec', 'eff_b();')], 'ddge': [DD, A('GenericErrors')],
            'ddc': [DD, A('Complete')], 'dse': [D, A('SetEndian', 'e1()')], 'no': [], 'nole': [A('LittleEndian')], 'din': [D, A('InputName', 'inp')]}
    for bn, b in bodies.items():
        for tn, t in tops.items():
            if tn == 'ddge' and bn in ('ed', 'fd', 'cont') or tn == 'din' and bn == 'dir':
                continue
            items.append(Item('b_%s_%s' % (bn, tn), top=t, what='%s on %s' % (', '.join(a.text() for a in t) or 'no Debug', bn), **suit(b, t)))
    for r in ('u8', 'i32'):
        for tn in ('d', 'dd', 'dle', 'ddd', 'no', 'ddx'):
            items.append(Item('f_%s_%s' % (r, tn), kind='fieldless', repr=r, top=tops[tn], variants=U, what='%s on a fieldless enum' % (', '.join(a.text() for a in tops[tn]) or 'no Debug')))
    for dv in ('NomBE', 'NomLE'):
        items.append(Item('dv_' + dv, [F('a', 'T1'), F('b', 'u16')], derive=dv, top=[D], what='Debug with ' + dv))
    items += typed('ty', 'Debug on a struct of concrete types', big, top=[D], **({} if big else {'entries': ('parse',)}))
    return items


@family('C21')
def c21(res, tier, only=None):
    K.lockstep_family(res, 'w-c21', pick(c21_items(tier == 'thorough'), only))
    lib = libfam.prim_items() + libfam.cont_items(True) + libfam.ld_items(True)
    lib = [x for x in lib if '_c' in x.id or '_s' in x.id] if tier != 'thorough' else lib
    K.lockstep_family(res, 'w-c21l', pick(lib, only), opq='', opts={'mode': 'lib'})
