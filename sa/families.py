"""The witness families: which definitions are analysed for which property, and how the verdict is reached."""
import itertools
import os
import re

from . import gen, mine
from .gen import A, F, V, Item
from . import check as K

FAMILIES, LEVELS, RULES, EXPLAIN, FLOORS, MANIFEST_EXTRA = {}, {}, {}, {}, {}, {}
# a check that decides (far) fewer obligations than this has not done its work and gives no answer
FLOORS.update({p: {'quick': n, 'thorough': n} for p, n in dict(
    C01=100, C02=180, C03=35, C04=180, C05=500, C06=130, C07=600, C08=400, C09=280, C10=380, C11=330, C12=170, C13=330, C14=380, C15=270,
    C16=1200, C17=480, C18=1400, C19=3500, C20=8000, C21=800, C22=280).items()})
NOT_APPLICABLE = {
    'C23': 'time and allocation are quantitative run-time facts; no sound static cost bound for generic nom code is in reach, and operation counts along MIR paths would judge how the code is written rather than what it costs',
}
ASSUMPTIONS = [
    'rustc (nightly 1.101) type-checks, instantiates and lowers to MIR correctly',
    'nom 8 number leaves (be_u*/le_u* streaming), core/alloc slice, integer, Vec and range operations behave as documented '
    '(modelled in sa/models.py)',
    'opaque sub-parsers return as remainder a suffix of the input they were given',
    'opaque sub-parsers and attribute expressions are functions of their arguments (effects are modelled by the traced eff_* family)',
]


def family(prop):
    """register a check; where features can interact, it is followed by the combinations that use this property's"""
    def d(f):
        def g(res, tier, only=None):
            from . import cross
            f(res, tier, only)
            if prop in cross.PLAN:
                cross.check(res, prop, tier, only)
        FAMILIES[prop] = g
        return g
    return d


def pick(items, only):
    return [i for i in items if only is None or only in i.id]


_mined = None


def mined():
    global _mined
    if _mined is None:
        _mined = mine.mine()
    return _mined


def ty_f(ty):
    return ty


# ---------------------------------------------------------------------------------------------- stacks
class W:
    """a wrapper attribute: how to write it, and the field type it gives around an inner type"""

    def __init__(self, name, attr, ty):
        self.name, self.attr, self.ty = name, attr, ty


WRAP = {
    'complete': W('complete', lambda n, t, st: A('Complete'), lambda t: t),
    'debug': W('debug', lambda n, t, st: A('Debug'), lambda t: t),
    'count': W('count', lambda n, t, st: A('Count', 'n1()', st), lambda t: 'Vec<%s>' % t),
    'lcount': W('lcount', lambda n, t, st: A('LengthCount', 'pn', st), lambda t: 'Vec<%s>' % t),
    'cond': W('cond', lambda n, t, st: A('Cond', 'b1()', st), lambda t: 'Option<%s>' % t),
    'verify': W('verify', lambda n, t, st: A('Verify', 'vf::<%s>(%s)' % (t, n), st), lambda t: t),
    'map': W('map', lambda n, t, st: A('Map', 'fs' if "&'b [u8]" == t else 'fm::<%s>' % t, st), lambda t: t),
}
# Debug needs its operand to be a plain function (nom::error::dbg_dmp takes Fn)
BASES = {
    'inf': ([], 'T1'),
    'parse': ([A('Parse', 'p1')], 'T1'),
    'take': ([A('Take', 'n2()')], "&'b [u8]"),
    'tag': ([A('Tag', 'tg()')], "&'b [u8]"),
    'value': ([A('Value', 'val1()')], 'T1'),
    'ignore': ([A('Ignore')], 'T1'),
}


def stack(name, wraps, base='inf', st='s', extra=(), pos=0):
    """(attrs, type): wraps outermost first"""
    battrs, ty = BASES[base]
    attrs = list(battrs)
    for w in reversed(wraps):
        attrs.insert(0, WRAP[w].attr(name, ty, st))
        ty = WRAP[w].ty(ty)
    attrs[pos:pos] = list(extra)
    return attrs, ty


def sitem(id, fields, **kw):
    """struct item that copes with borrowed fields"""
    if any("'b" in f.ty for f in fields) or any("'b" in f.ty for v in kw.get('variants', ()) for f in v.fields):
        kw.setdefault('generics', "<'b>")
        kw.setdefault('inst', "<'a>")
        kw.setdefault('opts', {})['subst'] = {"'b": "'a"}
    return Item(id, fields, **kw)


PRIMS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'f32', 'f64']
TYPES = PRIMS + ['String', '[u8; 4]', '[u16; 2]', '[T1; 3]', 'Option<u8>', 'Option<T1>', 'Vec<u8>', 'Vec<u16>']


def typed(pfx, what, big, derive='Nom', top=(), wraps=('complete', 'count', 'lcount', 'cond', 'verify', 'map'), **kw):
    """structs whose fields have the types a macro (or the library) might treat specially, under each attribute and,
    for bytes and words, under each pair"""
    out, n = [], 0

    def put(name, fs, w):
        out.append(sitem('%s_%s' % (pfx, name), fs, derive=derive, top=list(top), imports='use nom_derive::*; use nom::*; use super::opq::*;', what='%s: %s' % (what, w), **kw))
    for k, t in enumerate(TYPES if big else ['u8', 'i8', 'u16', 'u64', 'f32', 'String', '[u8; 4]', 'Option<u8>', 'Vec<u8>']):
        fs = []
        for j, w in enumerate(((),) + tuple((x,) for x in wraps)):
            BASES['_'] = ([], t)
            at, ty = stack('v%d' % j, w, '_', 'sp'[(j + k) % 2])
            fs.append(F('v%d' % j, ty, *at))
            if len(fs) == 4 or j == len(wraps):
                put('t%d_%d' % (k, j), fs, 'fields of %s under %s' % (t, ', '.join(wraps)))
                fs = []
    for t in ('u8', 'u16', 'String', '[u8; 4]', 'T1') if big else ('u8',):
        fs = []
        ps = list(itertools.product(wraps, repeat=2))
        for j, w in enumerate(ps):
            BASES['_'] = ([], t)
            at, ty = stack('v%d' % j, w, '_', 'sp'[j % 2])
            fs.append(F('v%d' % j, ty, *at))
            if len(fs) == 4 or j == len(ps) - 1:
                put('p%s_%d' % (re.sub(r'\W', '', t), j), fs, 'fields of %s under pairs of %s' % (t, ', '.join(wraps)))
                fs = []
    del BASES['_']
    return out


ERASE = {'erase_endian': True}


# ---------------------------------------------------------------------------------------------- C04
@family('C04')
def c04(res, tier, only=None):
    items = []
    big = tier == 'thorough'
    sizes = set(range(1, 13)) | ({16, 20, 24, 32, 33} if not big else set(range(13, 41)) | {64, 65})
    for n in mined()['ints']:
        if 2 <= n <= 130:
            sizes |= {n - 1, n, n + 1} if big or n < 40 else {n}
    for n in sorted(sizes):
        items.append(Item('named%d' % n, [F('f%d' % k, 'T1') for k in range(n)], what='struct of %d same-typed named fields' % n))
        items.append(Item('tuple%d' % n, [F('', 'T1') for k in range(n)], shape='tuple', what='tuple struct of %d same-typed fields' % n))
    items += [
        Item('unit', [], what='unit struct'),
        Item('brace', [], shape='brace', what='empty braced struct'),
        Item('tuple0', [], shape='tuple', what='empty tuple struct'),
        Item('mixed', [F('a', 'u8'), F('b', 'T1'), F('c', 'u32'), F('d', 'Option<T2>'), F('e', 'Vec<T3>'), F('g', '[T1; 3]'),
                       F('h', 'f64'), F('k', 'T2')], what='fields of mixed types'),
        Item('mixedt', [F('', 'u16'), F('', 'T2'), F('', 'T1'), F('', 'u16')], shape='tuple', what='tuple struct, mixed types'),
        Item('ph', [F('a', 'T1'), F('p', 'PhantomData<T2>'), F('b', 'T1')], imports='use nom_derive::*; use nom::*; use super::opq::*; use core::marker::PhantomData;',
             what='PhantomData field in the middle'),
        Item('gen1', [F('a', 'T'), F('b', 'T'), F('c', 'T1')], generics='<T>', inst='<T2>', opts={'subst': {r'\bT\b': 'T2'}}, what='generic struct'),
        Item('gen2', [F('a', 'T'), F('b', 'U'), F('c', 'T')], generics='<T, U>', inst='<T1, T3>', opts={'subst': {r'\bT\b': 'T1', r'\bU\b': 'T3'}},
             what='generic struct, two parameters'),
        Item('gen3', [F('a', 'T'), F('b', 'T1')], generics='<T: Clone>', where='where T: PartialEq', inst='<T2>', opts={'subst': {r'\bT\b': 'T2'}},
             what='generic struct with bounds and where clause'),
        Item('gent', [F('', 'T'), F('', 'T1'), F('', 'T')], shape='tuple', generics='<T>', inst='<T2>', opts={'subst': {r'\bT\b': 'T2'}}, what='generic tuple struct'),
        sitem('life', [F('a', "&'b [u8]", A('Take', 'n1()')), F('t', "TB<'b>"), F('z', 'T1')], what='struct with a lifetime parameter'),
        Item('cg', [F('a', '[T1; N]'), F('b', 'T1')], generics='<const N: usize>', inst='<2>', opts={'subst': {r'\bN\b': '2'}}, what='const generic struct'),
        Item('lifegen', [F('a', "&'b [u8]", A('Take', 'n1()')), F('t', 'T'), F('z', 'T1')], generics="<'b, T>", inst="<'a, T2>",
             opts={'subst': {"'b": "'a", r'\bT\b': 'T2'}}, what='lifetime and type parameters'),
        Item('nest', [F('a', 'T1'), F('b', 'Inner'), F('c', 'T1')], pre_items='#[derive(Nom)] pub struct Inner { p: T1, q: T2 }', what='field of another derived type'),
        Item('rec', [F('a', 'T1'), F('b', 'Option<Inner>'), F('c', 'Vec<Inner>')], pre_items='#[derive(Nom)] pub struct Inner { p: T1, q: T2 }',
             what='containers of another derived type'),
        Item('attrs', [F('a', 'Vec<T1>', A('Count', 'n1()')), F('b', 'Option<T2>', A('Cond', 'b1()')), F('c', 'T1', A('Map', 'f1')),
                       F('d', 'T1', A('Parse', 'p1')), F('e', 'T1', A('Value', 'val1()')), F('f', 'T1', A('Verify', 'vf::<T1>(f)'))], what='fields with attributes'),
        Item('vis', [F('a', 'T1'), F('b', 'T1')], pre_items='', rust_derives='Debug, PartialEq', what='together with other derives'),
        Item('shadow', [F('a', 'T1'), F('b', 'T1', A('Value', 'a.clone()')), F('c', 'Vec<T2>', A('Count', 'a.x'))], what='fields used in later attributes'),
    ]
    names = [n for n in mined()['fields'] if n not in ('i', 'orig_i', '__i__', 'None')]
    # several names per definition: the parse order and the destination of each value are both visible
    for k in range(0, len(names), 3):
        ch = names[k:k + 3]
        items.append(Item('fn%d' % k, [F(n, 'T1') for n in ch], what='fields called ' + ', '.join(ch)))
    raw = ['r#type', 'r#match', 'r#fn', 'r#struct', 'r#move', 'r#in', 'r#loop', 'r#ref', 'r#impl', 'r#use', 'r#enum', 'r#let', 'r#async', 'r#try', 'r#dyn']
    items.append(Item('raw', [F(n, 'T1') for n in raw], what='raw identifiers as field names'))
    items.append(Item('raw2', [F('r#foo', 'T1'), F('r#type', 'T1', A('Count', 'n1()') if False else A('Map', 'f1')), F('bar', 'T2', A('Verify', 'vf::<T1>(&r#type)'))],
                      what='raw identifiers as field names, used in attributes'))
    items.append(Item('uni', [F('é', 'T1'), F('ñandu', 'T1'), F('_u', 'T1'), F('__', 'T1'), F('A', 'T1'), F('aB', 'T1'), F('x1', 'T1'), F('_0', 'T1'), F('_1', 'T1')],
                      what='unusual field names'))
    # names nom and this crate use themselves, as the names of the user's types
    theirs = ['Parser', 'IResult', 'Error', 'Endianness', 'Needed', 'Input', 'ErrorKind']
    tn = [t for t in mined()['types'] if t not in ('Option', 'Vec', 'PhantomData', 'String', 'Parse', 'Default', 'Debug', 'Into', 'NomErr')]
    for k, n in enumerate(theirs + tn):
        if big or k < len(theirs) or k % 4 == 0:
            items.append(Item('tn%d' % k, [F('a', n), F('b', 'T1'), F('c', n)],
                              pre_items='pub use super::opq::T1 as %s;' % n, imports='use nom_derive::{Nom, Parse}; use super::opq::*;', what='field type called %s' % n))
    for k, n in enumerate(theirs + ['Selector', 'Big', 'Little'] + (tn if big else [])):
        items.append(Item('sn%d' % k, [F('a', 'T1'), F('b', 'T2')], name=n, imports='use nom_derive::{Nom, Parse}; use super::opq::*;', what='struct called %s' % n))
    # enums and their variants
    for n in (1, 2, 3, 5, 8):
        items.append(Item('ev%d' % n, kind='enum', sel='u8', variants=[
            V('P', '0', [F('f%d' % k, 'T1') for k in range(n)]), V('Q', '1', [F('', 'T1') for k in range(n)], shape='tuple'), V('R', '2')],
            what='enum variants with %d fields' % n))
    items.append(Item('evn', kind='enum', sel='u8', variants=[
        V('P', '0', [F('struct_def', 'T1'), F('r#type', 'T1'), F('enum_def', 'T1')]),
        V('Q', '1', [F('a', 'Vec<T1>', A('Count', 'n1()')), F('b', 'T1'), F('c', 'T1', A('Value', 'b.clone()'))])], what='variant fields with special names'))
    K.lockstep_family(res, 'w-c04', pick(items, only), opts=ERASE)


# ---------------------------------------------------------------------------------------------- C05
STACKS = [(), ('complete',), ('count',), ('lcount',), ('cond',), ('verify',), ('map',), ('count', 'count'), ('cond', 'count'),
          ('count', 'verify'), ('map', 'complete'), ('complete', 'cond', 'count', 'map'), ('verify', 'lcount', 'complete')]
STACKS_Q = STACKS
OBJ = [('Nom', None), ('Nom', 'BigEndian'), ('Nom', 'LittleEndian'), ('NomBE', None), ('NomBE', 'BigEndian'),
       ('NomLE', None), ('NomLE', 'LittleEndian')]


@family('C05')
def c05(res, tier, only=None):
    big = tier == 'thorough'
    items = []
    stacks = list(STACKS)
    stacks.append(('debug',))
    if big:
        ws = ['complete', 'count', 'lcount', 'cond', 'verify', 'map']
        stacks += [p for p in itertools.product(ws, repeat=2) if p not in stacks]
    for oi, (dv, oa) in enumerate(OBJ):
        top = [A(oa)] if oa else []
        for si, ws in enumerate(stacks):
            fs = []
            for k, fa in enumerate((None, 'BigEndian', 'LittleEndian')):
                n = 'f%d' % k
                at, ty = stack(n, ws, extra=[A(fa)] if fa else [], pos=(si + k) % (len(ws) + 1) if fa else 0)
                fs.append(F(n, ty, *at, split=(si + oi) % 2 == 1))
            what = 'byte order of %s%s, stack %s, with and without a field attribute' % (dv, '+' + oa if oa else '', '/'.join(ws) or 'none')
            items.append(Item('s%d_%d' % (oi, si), fs, derive=dv, top=top, what=what + ' (struct)'))
            if big or (si + oi) % 3 == 0:
                items.append(Item('v%d_%d' % (oi, si), kind='enum', sel='u8', derive=dv, top=top, what=what + ' (variant)',
                                  variants=[V('P', '0', fs), V('Q', '_', [F('z', 'T2'), F('y', 'T1', A('LittleEndian'))])]))
        items.append(Item('fl%d' % oi, kind='fieldless', repr='u32', derive=dv, top=top, variants=[V('P', None), V('Q', None, disc='7')],
                          what='byte order of a fieldless enum'))
        items.append(Item('fc%d' % oi, kind='fieldless', repr='i16', derive=dv, top=top + [A('Complete')], variants=[V('P', None), V('Q', None, disc='-7')],
                          what='byte order of a fieldless enum with Complete'))
        # no leaking from one field to the next
        for c in itertools.product((None, 'BigEndian', 'LittleEndian'), repeat=3):
            if big or hash(c) is None or (oi, c) in SAMPLE3:
                items.append(Item('l%d_%s' % (oi, ''.join((x or 'N')[0] for x in c)),
                                  [F('f%d' % k, 'T%d' % (k + 1), *([A(x)] if x else [])) for k, x in enumerate(c)], derive=dv, top=top,
                                  what='byte order attributes %s on three consecutive fields' % (c,)))
        items.append(Item('t%d' % oi, [F('', 'u16'), F('', 'u32', A('LittleEndian')), F('', 'u64', A('BigEndian')), F('', 'T1')], shape='tuple',
                          derive=dv, top=top, what='byte order in tuple structs'))
        items.append(Item('cont%d' % oi, [F('a', 'Option<T1>'), F('b', 'Vec<T2>', A('LittleEndian')), F('c', '[T3; 2]', A('BigEndian')), F('d', '[u16; 4]')],
                          derive=dv, top=top, what='byte order of inferred containers'))
        items.append(Item('n%d' % oi, [F('a', 'In'), F('b', 'In', A('LittleEndian')), F('c', 'In', A('BigEndian'))],
                          pre_items='#[derive(Nom)] pub struct In { x: T1, y: Vec<T2> }', derive=dv, top=top, what='byte order passed to nested derived types'))
        items.append(Item('m%d' % oi, [F('a', 'T1', A('PreExec', 'eff_a();'), A('LittleEndian')), F('b', 'T2', A('AlignAfter', '4'), A('BigEndian')),
                                       F('c', 'T3', A('SkipBefore', '2'))], derive=dv, top=top, what='byte order attribute after other attributes'))
        items.append(Item('g%d' % oi, [F('a', 'T1'), F('b', 'T2', A('LittleEndian'))], derive=dv, top=top + [A('GenericErrors')], what='byte order with GenericErrors'))
        items.append(Item('x%d' % oi, [F('a', 'T1'), F('b', 'T2', A('LittleEndian')), F('c', 'T3', A('BigEndian'))], derive=dv, top=top, extra=[('k', 'u8')],
                          what='byte order with ExtraArgs'))
    for n, w in enumerate(itertools.product(['complete', 'count', 'lcount', 'cond', 'verify', 'map', 'debug'], repeat=2)):
        for pos in range(3) if big else (n % 3, (n + 1) % 3):
            for dv, fa in (('Nom', 'LittleEndian'), ('NomLE', 'BigEndian')):
                at, ty = stack('v', w, extra=[A(fa)], pos=pos)
                items.append(sitem('w%s%d_%d' % (dv, n, pos), [F('a', 'T1'), F('v', ty, *at), F('z', 'T3')], derive=dv, entries=('parse', 'be', 'le') if big else ('be',),
                                   what='%s at position %d of %s (%s)' % (fa, pos, '/'.join(w), dv)))
    # the order of the entry point (and of the item) reaches the innermost parser through any two wrappers
    pairs = list(itertools.product(['complete', 'count', 'lcount', 'cond', 'verify', 'map', 'debug'], repeat=2))
    if big:
        pairs += list(itertools.product(['complete', 'count', 'lcount', 'cond', 'verify', 'map'], repeat=3))
    for n in range(0, len(pairs), 4):
        fs = []
        for k, w in enumerate(pairs[n:n + 4]):
            at, ty = stack('v%d' % k, w)
            fs.append(F('v%d' % k, ty, *at, split=(n + k) % 2 == 1))
        for dv in ('Nom', 'NomLE', 'NomBE') if big else ('Nom', ('NomLE', 'NomBE')[n // 4 % 2]):
            items.append(sitem('e%s%d' % (dv, n), fs, derive=dv, entries=('parse', 'be', 'le') if dv == 'Nom' or big else ('le', 'be')[n // 4 % 2:][:1],
                               what='byte order of %s through %s' % (dv, ', '.join('/'.join(w) for w in pairs[n:n + 4]))))
    items += typed('tyn', 'byte order of concrete types', big)
    items += typed('tyl', 'byte order of concrete types', big, derive='NomLE', **({} if big else {'entries': ('be',)}))
    items.append(Item('into', [F('a', 'T2', A('Into'), A('LittleEndian'), A('Parse', 'pin::<T1>'))],
                      pre_items="pub fn pin<'a, T>(i: &'a [u8]) -> nom::IResult<&'a [u8], T> { loop {} }", what='Into with Parse'))
    K.lockstep_family(res, 'w-c05', pick(items, only), opts={}, elsewhere_opts=ERASE)


SAMPLE3 = {(oi, c) for oi in range(7) for n, c in enumerate(itertools.product((None, 'BigEndian', 'LittleEndian'), repeat=3)) if (n + oi) % 3 == 0}


# ---------------------------------------------------------------------------------------------- C06
@family('C06')
def c06(res, tier, only=None):
    big = tier == 'thorough'
    items = []
    SE = lambda st='s', e='eff_end()': A('SetEndian', e, st)
    for k, st in enumerate('sp'):
        for pos in range(4):
            for sp in (False, True):
                fs = [F('f%d' % n, 'T1', *([A('PreExec', 'eff_a();'), SE(st), A('PostExec', 'eff_b();')] if n == pos else [])) for n in range(4)]
                if pos == 3 or sp:
                    fs.append(F('z', 'u32'))
                items.append(Item('p%d%d%d' % (k, pos, sp), fs, derive='Nom', split=sp, what='SetEndian on field %d' % pos))
        items.append(Item('two%d' % k, [F('a', 'T1'), F('b', 'T2', SE(st)), F('c', 'T3'), F('d', 'T1', SE(st, 'e2()')), F('e', 'T2')], what='a later SetEndian replaces the first'))
        items.append(Item('item%d' % k, [F('a', 'T1'), F('b', 'u16'), F('c', 'T3')], top=[SE(st)], what='SetEndian on the struct'))
        items.append(Item('itemf%d' % k, [F('a', 'T1'), F('b', 'u16', SE(st, 'e2()')), F('c', 'T3')], top=[SE(st)], what='SetEndian on the struct and on a field'))
        items.append(Item('itemx%d' % k, [F('a', 'T1'), F('b', 'u16'), F('c', 'T3')], top=[SE(st, 'en')], extra=[('en', 'nom::number::Endianness')], what='SetEndian from an extra argument'))
        items.append(Item('own%d' % k, [F('a', 'T1', SE(st)), F('b', 'T2', A('BigEndian')), F('c', 'T3', A('LittleEndian')), F('d', 'T1')], what='own byte order beats SetEndian'))
        items.append(Item('owni%d' % k, [F('a', 'T1'), F('b', 'T2', A('BigEndian')), F('c', 'T3', A('LittleEndian')), F('d', 'T1')], top=[SE(st)],
                          what='own byte order beats the SetEndian of the item'))
    items += [
        Item('conste', [F('a', 'u32'), F('b', 'u32', A('SetEndian', 'nom::number::Endianness::Big', 'p')), F('c', 'u16'),
                        F('d', 'u32', A('SetEndian', 'nom::number::Endianness::Little', 'p')), F('e', 'u16')], what='SetEndian with constants'),
        Item('native', [F('a', 'u32', A('SetEndian', 'nom::number::Endianness::Native', 'p')), F('b', 'u16')], what='SetEndian with Native'),
        Item('dep', [F('a', 'u8'), F('b', 'T1', A('SetEndian', 'if a == 1 { nom::number::Endianness::Big } else { nom::number::Endianness::Little }', 'p')), F('c', 'T2')],
             what='SetEndian computed from an earlier field'),
        Item('obj', [F('a', 'T1'), F('b', 'T2', SE()), F('c', 'T3')], top=[A('LittleEndian')], what='field SetEndian in a LittleEndian struct'),
        Item('objb', [F('a', 'T1'), F('b', 'T2', SE()), F('c', 'T3')], top=[A('BigEndian')], what='field SetEndian in a BigEndian struct'),
        Item('dbe', [F('a', 'T1'), F('b', 'T2', SE()), F('c', 'T3')], derive='NomBE', what='field SetEndian with NomBE'),
        Item('dle', [F('a', 'T1'), F('b', 'T2', SE()), F('c', 'T3')], derive='NomLE', what='field SetEndian with NomLE'),
        Item('tup', [F('', 'T1'), F('', 'T2', SE()), F('', 'T3')], shape='tuple', what='SetEndian in a tuple struct'),
        Item('en1', kind='enum', sel='u8', top=[SE()], variants=[V('P', '0', [F('a', 'T1'), F('b', 'T2')]), V('Q', '_', [F('', 'u16')], shape='tuple')], what='SetEndian on an enum'),
        Item('en2', kind='enum', sel='u8', variants=[V('P', '0', [F('a', 'T1'), F('b', 'T2', SE()), F('c', 'T3')]), V('Q', '1', [F('a', 'T1'), F('b', 'T2')]),
                                                     V('R', '_', [F('', 'u16'), F('', 'u32', SE('s', 'e2()')), F('', 'T1')], shape='tuple')],
             what='SetEndian on a field of one variant only'),
        Item('cnt', [F('a', 'T1', SE()), F('b', 'Option<T1>'), F('c', 'Vec<T2>'), F('d', '[T1; 2]')], what='containers after SetEndian'),
        Item('skip', [F('a', 'T1', SE(), A('SkipBefore', '1'), A('AlignAfter', '4')), F('b', 'T1')], what='SetEndian together with directives'),
        Item('ge', [F('a', 'T1'), F('b', 'T2', SE()), F('c', 'T3')], top=[A('GenericErrors')], what='SetEndian with GenericErrors'),
        Item('cmp', [F('a', 'T1'), F('b', 'T2', SE()), F('c', 'T3')], top=[A('Complete')], what='SetEndian in a Complete struct'),
        Item('parse', [F('a', 'T1', SE(), A('Parse', 'p1')), F('b', 'T2')], what='SetEndian on a field with its own parser'),
        Item('last', [F('a', 'T1'), F('b', 'T1', SE()), F('p', 'T1', A('Parse', 'p1')), F('v', 'T1', A('Value', 'val1()')), F('c', 'T2')], what='SetEndian survives fields with their own parsers'),
        Item('n', [F('a', 'In', SE()), F('b', 'In')], pre_items='#[derive(Nom)] pub struct In { x: T1, y: u16 }', what='SetEndian and nested derived types'),
    ]
    stacks = list(STACKS[1:])
    if big:
        ws = ['complete', 'count', 'lcount', 'cond', 'verify', 'map']
        stacks += [p for p in itertools.product(ws, repeat=2) if p not in stacks]
    for si, ws in enumerate(stacks):
        a1, t1 = stack('f1', ws, extra=[SE('sp'[si % 2])], pos=si % (len(ws) + 1))
        a2, t2 = stack('f2', ws)
        a0, t0 = stack('f0', ws)
        items.append(Item('st%d' % si, [F('f0', t0, *a0), F('f1', t1, *a1), F('f2', t2, *a2)], what='SetEndian and the stack ' + '/'.join(ws)))
        items.append(Item('sti%d' % si, [F('f0', t0, *a0), F('f2', t2, *a2)], top=[SE()], what='SetEndian on the item and the stack ' + '/'.join(ws)))
    pairs = list(itertools.product(['complete', 'count', 'lcount', 'cond', 'verify', 'map', 'debug'], repeat=2))
    for n in range(0, len(pairs), 3):
        fs = [F('a', 'T1', SE('sp'[n % 2]))]
        for k, w in enumerate(pairs[n:n + 3]):
            at, ty = stack('v%d' % k, w)
            fs.append(F('v%d' % k, ty, *at, split=(n + k) % 2 == 1))
        items.append(sitem('pp%d' % n, fs, what='SetEndian reaches the fields after it through ' + ', '.join('/'.join(w) for w in pairs[n:n + 3])))
    K.lockstep_family(res, 'w-c06', pick(items, only), opts={})


# ---------------------------------------------------------------------------------------------- C07
NUMS = ['n1()', '3', 'nb()', 'nh()', 'n1() + 1', 'nb() & 3', 'n1() | 1', 'n1() << 1', 'if b1() { n1() } else { 2 }', 'a', 'a & 0x0f', 'a as u16 + 1',
        '{ n2() }', '(n1(), 4).1', 'match a { 0 => n1(), _ => 7 }', 'usize::MAX', 'di()', '(a)', '"abc".len()', '[1u8, 2].len()', 'nb() ^ nb()', 'a >> 1',
        'core::cmp::min(n1(), 16)', 'nh() % 7', 'unsafe_free::k(a)']
CONDS = ['b1()', 'a == 1', 'b1() && b2()', 'b1() || b2()', '!b1()', 'if b1() { true } else { b2() }', 'matches!(a, 1 | 2)', 'a < 3', '1 == a', '{ b2() }',
         'a & 1 == 0', 'true', 'false', 'vf(&a)']
SELFMOD = "pub mod unsafe_free { pub fn k(x: u8) -> u16 { loop {} } } pub const K1: &[u8] = b\"kk\"; pub const K2: [u8; 3] = [1, 2, 3];"


@family('C07')
def c07(res, tier, only=None):
    big = tier == 'thorough'
    items = []
    kw = {'pre_items': SELFMOD}
    for k, n in enumerate(NUMS):
        for st in 'sp':
            if not big and st == 's' and k % 2 and k > 6:
                continue
            items.append(Item('cnt%s%d' % (st, k), [F('a', 'u8'), F('v', 'Vec<T1>', A('Count', n, st)), F('z', 'T2')], what='Count(%s)' % n, **kw))
            items.append(sitem('take%s%d' % (st, k), [F('a', 'u8'), F('v', "&'b [u8]", A('Take', n, st)), F('z', 'T2')], what='Take(%s)' % n, **kw))
    for k, c in enumerate(CONDS):
        for st in 'sp':
            items.append(Item('cond%s%d' % (st, k), [F('a', 'u8'), F('v', 'Option<T1>', A('If' if k % 3 == 2 else 'Cond', c, st)), F('z', 'T2')], what='Cond(%s)' % c, **kw))
    for k, c in enumerate(['1 == *v', '*v != 0', '*v == a', 'vf::<u8>(v)', '{ let q = *v; vf::<u8>(&q) }', 'b1()', '(*v & 0x0f) == a', '0 < *v && *v < 8', 'matches!(v, 1 | 2)', '!vf::<u8>(v)',
                           'if a == 0 { *v == 0 } else { true }', 'true', '"abc".len() == *v as usize', "b'x' == *v", '-1 != *v as i8', '[1u8, 2].contains(v) || b1()']):
        for st in 'sp':
            if 'contains' in c:
                continue
            items.append(Item('ver%s%d' % (st, k), [F('a', 'u8'), F('v', 'u8', A('Verify', c, st)), F('z', 'T2')], what='Verify(%s)' % c, **kw))
    for k, (m, p, t) in enumerate([('f1', None, 'T1'), ('|x: T1| f1(x)', None, 'T1'), ('|x| f2(x)', 'p1', 'T2'), ('f2', 'p1', 'T2'), ('f3', 'p2', 'T3'), ('|x: u16| fu(x) as u32', 'nom::number::streaming::be_u16', 'u32'),
                                   ('|x: u16| 1 + (x as u32)', 'nom::number::streaming::be_u16', 'u32'), ('{ f1 }', None, 'T1'), ('super::opq::f1', None, 'T1'),
                                   ('|x: T1| { let y = f1(x); f1(y) }', None, 'T1'), ('fm::<T1>', 'pg', 'T1'), ('if b1() { f1 } else { f1b }', None, 'T1')]):
        for st in 'sp':
            at = [A('Map', m, st)] + ([A('Parse', p, st)] if p else [])
            items.append(Item('map%s%d' % (st, k), [F('a', 'u8'), F('v', t, *at), F('z', 'T2')], what='Map(%s)' % m,
                              pre_items='pub fn f1b(x: T1) -> T1 { loop {} }'))
    for k, p in enumerate(['p1', 'pg', '{ |i| px(i, a) }', 'super::opq::p1', 'nom::combinator::map(p1, f1)', 'T1::parse', '<T1 as Parse<_, _>>::parse_le', 'if b1() { p1 } else { p1b }',
                           'nom::sequence::preceded(p2, p1)', 'match a { 0 => p1, _ => p1b }', '(p1)', '{ p1 }', 'mk(a)', '|i| px(i, a)']):
        for st in 'sp':
            items.append(Item('parse%s%d' % (st, k), [F('a', 'u8'), F('v', 'T1', A('Parse', p, st)), F('z', 'T2')], what='Parse(%s)' % p, opts={'sa': {}},
                              pre_items="pub fn p1b<'a>(i: &'a [u8]) -> nom::IResult<&'a [u8], T1> { super::opq::px(i, 9) }"
                                        "pub fn mk<'a>(k: u8) -> impl Fn(&'a [u8]) -> nom::IResult<&'a [u8], T1> { move |i| super::opq::px(i, k) }"))
    for k, t in enumerate(['tg()', 'b"abc"', '&[1u8, 2]', 'K1', 'K2', 'b"\\x01"', 'super::opq::tg()', 'if b1() { tg() } else { K1 }', '[7u8]']):
        for st in 'sp':
            items.append(sitem('tag%s%d' % (st, k), [F('a', 'u8'), F('v', "&'b [u8]", A('Tag', t, st)), F('z', 'T2')], what='Tag(%s)' % t, **kw))
    for k, (v, t) in enumerate([('val1()', 'T1'), ('val2()', 'u32'), ('7', 'u32'), ('a', 'u8'), ('a as u32 + 1', 'u32'), ('if a == 0 { val1() } else { val1() }', 'T1'), ('(a, 1)', 'Tup'),
                                ('None', 'Option<T1>'), ('{ val1() }', 'T1'), ('a == 1', 'bool'), ('Some(val1())', 'Option<T1>'), ('i.len()', 'usize'), ('T1 { x: a }', 'T1')]):
        for st in 'sp':
            items.append(Item('val%s%d' % (st, k), [F('a', 'u8'), F('v', t, A('Value', v, st)), F('z', 'T2')], what='Value(%s)' % v, pre_items='pub type Tup = (u8, u8);'))
    for k, p in enumerate(['pn', 'pn2', 'nom::number::streaming::be_u8', 'nom::combinator::map(nom::number::streaming::be_u16, |x: u16| x as usize)', 'u16::parse_le', 'if b1() { pn } else { pn }']):
        for st in 'sp':
            items.append(Item('lc%s%d' % (st, k), [F('a', 'u8'), F('v', 'Vec<T1>', A('LengthCount', p, st)), F('z', 'T2')], what='LengthCount(%s)' % p))
    for k, (t, imp) in enumerate([('T1', ''), ('Option<T1>', ''), ('Vec<T1>', ''), ('PhantomData<T1>', 'use core::marker::PhantomData;'), ('u32', ''), ('[u8; 4]', ''), ('String', ''), ('bool', '')]):
        for al in ('Ignore', 'Default'):
            items.append(Item('ign%s%d' % (al[0], k), [F('a', 'T1'), F('v', t, A(al)), F('z', 'T2')], what='%s on %s' % (al, t), pre_items=imp))
    items.append(Item('phan', [F('a', 'T1'), F('v', 'PhantomData<T1>'), F('z', 'T2')], pre_items='use core::marker::PhantomData;', what='PhantomData'))
    for k, (t, at) in enumerate([('T2', [A('Into'), A('Parse', 'p1')]), ('T2', [A('Into'), A('Map', 'f1'), A('Parse', 'p1')]), ('T2', [A('Map', 'fm::<T2>'), A('Into'), A('Parse', 'p1')]),
                                 ('T1', [A('Into'), A('Parse', 'pe2')]), ('T1', [A('Into'), A('Complete'), A('Parse', 'pe2')]), ('T1', [A('Complete'), A('Into'), A('Parse', 'pe2')]),
                                 ('T2', [A('Into'), A('Verify', 'vf::<T1>(v)'), A('Parse', 'p1')]), ('T2', [A('Verify', 'vf::<T2>(v)'), A('Into'), A('Parse', 'p1')]),
                                 ('Vec<T2>', [A('Count', 'n1()'), A('Into'), A('Parse', 'p1')]), ('Option<T2>', [A('Cond', 'b1()'), A('Into'), A('Parse', 'p1')])]):
        items.append(Item('into%d' % k, [F('a', 'u8'), F('v', t, *at), F('z', 'T2')], what='Into: ' + ', '.join(x.text() for x in at)))
    ws = ['complete', 'count', 'lcount', 'cond', 'verify', 'map', 'debug']
    n = 0
    for base in BASES:
        for r in (1, 2, 3):
            for p in itertools.product(ws, repeat=r):
                if base in ('ignore', 'value', 'tag') and r > 1:
                    continue
                if r == 3 and not (big and base in ('inf', 'parse') or base == 'inf' and hash_pick(p, 16)):
                    continue
                if r == 2 and base not in ('inf',) and not big and not hash_pick(p + (base,), 3):
                    continue
                if p.count('debug') > 1:
                    continue
                st = 'sp'[n % 2]
                n += 1
                at, ty = stack('v', p, base, st)
                items.append(sitem('st_%s_%s' % (base, '_'.join(p)), [F('a', 'u8'), F('v', ty, *at, split=n % 3 == 0), F('z', 'T2')],
                                   what='nesting %s over %s' % ('/'.join(p), base)))
    items += typed('ty', 'attributes on concrete types', big)
    items.append(Item('multi', [F('a', 'u8'), F('v', 'Vec<T1>', A('Count', 'a'), A('Verify', 'vf::<T1>(v)')), F('w', 'Option<T1>', A('Cond', 'a == 2'), A('Map', 'f1')), F('z', 'Vec<Vec<u16>>', A('Count', '2'), A('LengthCount', 'pn2'))],
                      what='several fields with attributes'))
    items.append(Item('var', kind='enum', sel='u8', variants=[
        V('P', '0', [F('a', 'u8'), F('v', 'Vec<T1>', A('Count', 'a & 3', 'p')), F('o', 'Option<T1>', A('If', 'a == 0'))]),
        V('Q', '1', [F('', 'Vec<T1>', A('LengthCount', 'pn')), F('', 'T1', A('Map', 'f1')), F('', 'Option<Vec<T1>>', A('Cond', 'b1()'), A('Count', 'n1()'))], shape='tuple'),
        V('R', '_', [F('x', 'T1', A('Verify', '1 == x.x', 'p')), F('y', 'T1', A('Default'))])], what='attributes in enum variants'))
    K.lockstep_family(res, 'w-c07', pick(items, only), opts=dict(ERASE, no_context=True))


def hash_pick(x, m):
    import zlib
    return zlib.crc32(repr(x).encode()) % m == 0


# ---------------------------------------------------------------------------------------------- C08
@family('C08')
def c08(res, tier, only=None):
    big = tier == 'thorough'
    C = A('Complete')
    T = lambda *a: [F('a', 'T1'), F('b', 'T2', *a), F('c', 'T3')]
    EV = lambda *a: [V('P', '0', [F('a', 'T1'), F('b', 'T2', *a)]), V('Q', '1', [F('', 'T3', *a), F('', 'T1')], shape='tuple'), V('R', '2'),
                     V('U', '3', attrs=[A('Parse', 'p1')]), V('D', '_', [F('x', 'T2')])]
    items = []
    for k, m in enumerate(itertools.product((0, 1), repeat=3)):
        items.append(Item('f%d' % k, [F('f%d' % j, 'T1', *([C] if x else [])) for j, x in enumerate(m)], what='Complete on fields %s' % (m,)))
        items.append(Item('t%d' % k, [F('', 'T1', *([C] if x else [])) for j, x in enumerate(m)], shape='tuple', what='Complete on tuple fields %s' % (m,)))
    items += [
        Item('top', T(), top=[C], what='Complete on the struct'),
        Item('topt', [F('', 'T1'), F('', 'u16'), F('', 'T3')], shape='tuple', top=[C], what='Complete on a tuple struct'),
        Item('topx', T(C), top=[C], what='Complete on the struct and on a field'),
        Item('topu', [], top=[C], what='Complete on a unit struct'),
        Item('tope', kind='enum', sel='u8', top=[C], variants=EV(), what='Complete on an enum'),
        Item('topf', kind='enum', sel='u8', variants=EV(C), what='Complete on fields of variants'),
        Item('noe', kind='enum', sel='u8', variants=EV(), what='enum without Complete'),
        Item('ge', T(), top=[C, A('GenericErrors')], what='Complete with GenericErrors'),
        Item('geg', T(C), top=[A('GenericErrors')], what='Complete on a field with GenericErrors'),
        Item('gee', kind='enum', sel='u8', top=[C, A('GenericErrors')], variants=EV()[:2] + EV()[4:], what='Complete on an enum with GenericErrors'),
        Item('dbg', T(), top=[C, A('Debug')], what='Complete and Debug on the struct'),
        Item('be', T(), top=[C, A('LittleEndian')], what='Complete and LittleEndian'),
        Item('se', T(), top=[C, A('SetEndian', 'e1()')], what='Complete and SetEndian'),
        Item('sef', T(A('SetEndian', 'e1()'), C), what='Complete and SetEndian on a field'),
        Item('xa', T(), top=[C], extra=[('n', 'u8')], what='Complete with ExtraArgs'),
        Item('dir', [F('a', 'T1', C, A('SkipBefore', 'n1()')), F('b', 'T2', C, A('AlignAfter', '4')), F('c', 'T3')], what='Complete does not touch directives'),
        Item('dirt', [F('a', 'T1', A('SkipBefore', 'n1()')), F('b', 'T2', A('MoveAbs', 'n2()')), F('c', 'T3', A('SkipAfter', '3'))], top=[C], what='Complete on the struct and directives'),
        Item('cont', [F('a', 'Option<T1>'), F('b', '(T1)' if False else 'u32', C), F('c', 'u16')], what='Complete among containers'),
        Item('gen', [F('a', 'T'), F('b', 'T', C), F('c', 'T1')], generics='<T>', inst='<T2>', opts={'subst': {r'\bT\b': 'T2'}}, what='Complete in a generic struct'),
        Item('nest', [F('a', 'In'), F('b', 'In', C), F('c', 'T1')], pre_items='#[derive(Nom)] pub struct In { p: T1, q: T2 }', what='Complete around a nested derived type'),
        Item('nest2', [F('a', 'In'), F('b', 'T1')], pre_items='#[derive(Nom)] #[nom(Complete)] pub struct In { p: T1, q: T2 }', what='nested Complete type in a streaming struct'),
        Item('pre', [F('a', 'T1', A('PreExec', 'eff_a();'), C, A('PostExec', 'eff_b();')), F('b', 'T2')], what='Complete with PreExec/PostExec'),
        Item('inpn', [F('a', 'T1', C), F('b', 'T2')], top=[A('InputName', 'inp')], what='Complete with InputName'),
    ]
    for n in (1, 2, 3, 7, 12):
        items.append(Item('n%d' % n, [F('f%d' % k, 'T1') for k in range(n)], top=[C], what='Complete on a struct of %d fields' % n))
    for r in ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'] if big else ['u8', 'u16', 'i32']:
        items.append(Item('fl_' + r, kind='fieldless', repr=r, top=[C], variants=[V('P', None), V('Q', None), V('R', None, disc='9')], what='Complete on a fieldless enum (%s)' % r))
        items.append(Item('fn_' + r, kind='fieldless', repr=r, variants=[V('P', None), V('Q', None), V('R', None, disc='9')], what='fieldless enum without Complete (%s)' % r))
    items.append(Item('flg', kind='fieldless', repr='u16', top=[C, A('GenericErrors')], variants=[V('P', None)], what='Complete on a fieldless enum with GenericErrors'))
    ws = ['count', 'lcount', 'cond', 'verify', 'map', 'complete']
    for base in BASES:
        for w in [()] + [(x,) for x in ws] + ([p for p in itertools.product(ws, repeat=2)] if big else [('count', 'cond'), ('cond', 'lcount'), ('map', 'verify')]):
            for pos in range(len(w) + 1):
                at, ty = stack('v', w, base, 's', extra=[C], pos=pos)
                items.append(sitem('s_%s_%s_%d' % (base, '_'.join(w), pos), [F('a', 'T1'), F('v', ty, *at), F('z', 'T2')], what='Complete at position %d of %s over %s' % (pos, '/'.join(w), base)))
                if big or len(w) and base in ('inf', 'take', 'parse', 'tag'):
                    items.append(sitem('tx_%s_%s_%d' % (base, '_'.join(w), pos), [F('a', 'T1'), F('v', ty, *at), F('z', 'T2')], top=[C], what='Complete on a struct and at position %d of %s over %s' % (pos, '/'.join(w), base),
                                       entries=('parse', 'be', 'le') if big else ('le',)))
            at, ty = stack('v', w, base, 's')
            items.append(sitem('tp_%s_%s' % (base, '_'.join(w)), [F('a', 'T1'), F('v', ty, *at), F('z', 'T2')], top=[C], what='Complete on a struct with %s over %s' % ('/'.join(w), base)))
    items += typed('ty', 'Complete on a struct of concrete types', big, top=[C], **({} if big else {'entries': ('le',)}))
    K.lockstep_family(res, 'w-c08', pick(items, only), opts=ERASE)


# ---------------------------------------------------------------------------------------------- C09
@family('C09')
def c09(res, tier, only=None):
    big = tier == 'thorough'
    items = []
    pre = lambda s, st='s': A('PreExec', s, st)
    post = lambda s, st='s': A('PostExec', s, st)
    eif = lambda s='eff_bool()', st='s': A('ErrorIf', s, st)
    abc = ['eff_a();', 'eff_b();', 'eff_c();']
    # every mixed sequence of up to 3 (4) directives on a field, followed by another field
    alph = {'p': lambda k: pre(abc[k % 3], 'sp'[k % 2]), 'q': lambda k: post(abc[k % 3], 'ps'[k % 2]), 'e': lambda k: eif('eff_bool()', 'sp'[k % 2])}
    n = 0
    for r in (1, 2, 3) + ((4,) if big else ()):
        for seq in itertools.product('pqe', repeat=r):
            n += 1
            at = [alph[c](k) for k, c in enumerate(seq)]
            items.append(Item('s_' + ''.join(seq), [F('a', 'T1'), F('b', 'T2', *at, split=n % 2 == 0), F('c', 'T3', pre('eff_v(&b);'))], what='directives %s on a field' % ', '.join(x.text() for x in at)))
            if r <= 2 or big:
                items.append(Item('f_' + ''.join(seq), [F('b', 'T2', *at), F('c', 'T3')], what='directives %s on the first field' % ', '.join(x.text() for x in at)))
                items.append(Item('l_' + ''.join(seq), [F('a', 'T1'), F('b', 'T2', *at)], what='directives %s on the last field' % ', '.join(x.text() for x in at)))
                items.append(Item('w_' + ''.join(seq), [F('a', 'T1'), F('b', 'Vec<T2>', *(at + [A('Count', 'n1()')]))], what='directives %s on a Count field' % ', '.join(x.text() for x in at)))
                items.append(Item('m_' + ''.join(seq), [F('a', 'T1'), F('b', 'T2', *(at[:1] + [A('Map', 'fm::<T2>')] + at[1:]))], what='directives %s around Map' % ', '.join(x.text() for x in at)))
    # on the item; on unit, tuple, generic, fieldless ones; on variants
    tl = [x for x in itertools.product('pq', repeat=1)] + [x for x in itertools.product('pq', repeat=2)] + ([x for x in itertools.product('pq', repeat=3)] if big else [('p', 'q', 'p'), ('q', 'p', 'q')])
    EV = lambda at=(): [V('P', '0', [F('a', 'T1'), F('b', 'T2')], attrs=at), V('Q', '1', [F('', 'T3')], shape='tuple', attrs=at), V('R', '2', attrs=at), V('D', '_', [F('x', 'T2')])]
    for seq in tl:
        at = [alph[c](k) for k, c in enumerate(seq)]
        w = 'directives %s on ' % ', '.join(x.text() for x in at)
        s = ''.join(seq)
        items += [
            Item('ts_' + s, [F('a', 'T1'), F('b', 'T2', pre('eff_c();'))], top=at, what=w + 'a struct'),
            Item('tt_' + s, [F('', 'T1'), F('', 'T2')], shape='tuple', top=at, what=w + 'a tuple struct'),
            Item('tu_' + s, [], top=at, what=w + 'a unit struct'),
            Item('te_' + s, kind='enum', sel='u8', top=at, variants=EV(), what=w + 'an enum'),
            Item('tf_' + s, kind='fieldless', repr='u16', top=at, variants=[V('P', None), V('Q', None, disc='5')], what=w + 'a fieldless enum'),
            Item('tg_' + s, [F('a', 'T1'), F('b', 'T2')], top=at + [A('GenericErrors')], what=w + 'a struct with GenericErrors'),
            Item('tx_' + s, [F('a', 'T1'), F('b', 'T2')], top=at, extra=[('n', 'u8')], what=w + 'a struct with ExtraArgs'),
        ]
    for seq in list(itertools.product('pqe', repeat=1)) + list(itertools.product('pqe', repeat=2)):
        at = [alph[c](k) for k, c in enumerate(seq)]
        items.append(Item('v_' + ''.join(seq), kind='enum', sel='u8', variants=EV(at), what='directives %s on enum variants' % ', '.join(x.text() for x in at)))
    items += [
        Item('stm', [F('a', 'T1', pre('let x = eff_n();')), F('b', 'Vec<T2>', A('Count', 'x')), F('c', 'T3', post('let y = eff_x();', 'p')), F('d', 'T1', A('Parse', '{ |i| px(i, y) }'))], what='PreExec/PostExec that bind variables'),
        Item('inp', [F('a', 'T1', pre('eff_i(i);')), F('b', 'T2', post('eff_i(i);')), F('c', 'T3', pre('eff_i(i);', 'p'), post('eff_i(i);', 'p'))], what='input seen by PreExec and PostExec'),
        Item('inpt', [F('a', 'T1'), F('b', 'T2')], top=[pre('eff_i(i);'), post('eff_i(i);'), post('eff_v(&struct_def);', 'p')], what='input seen by item-level PreExec and PostExec'),
        Item('inpo', [F('a', 'T1', pre('eff_i(orig_i);')), F('b', 'T2', post('eff_i(orig_i);'))], top=[post('eff_i(orig_i);')], what='original input'),
        Item('inpe', kind='enum', sel='u8', variants=EV(), top=[pre('eff_i(i);'), post('eff_i(i);'), post('eff_v(&enum_def);', 'p')], what='input seen by item-level directives of an enum'),
        Item('inpf', kind='fieldless', repr='u16', variants=[V('P', None), V('Q', None)], top=[pre('eff_i(i);'), post('eff_i(i);')], what='input seen by item-level directives of a fieldless enum'),
        Item('inpv', kind='enum', sel='u8', variants=EV([pre('eff_i(i);'), post('eff_i(i);')]), what='input seen by directives on variants'),
        Item('selv', kind='enum', sel='u8', variants=EV([pre('eff_v(&selector);')]), top=[pre('eff_v(&selector);')], what='selector seen by directives'),
        Item('chg', [F('a', 'T1', pre('let i = &i[i.len()..];')), F('b', 'T2')], what='PreExec that changes the input'),
        Item('chgp', [F('a', 'T1', post('let i = &i[i.len()..];')), F('b', 'T2')], what='PostExec that changes the input'),
        Item('chgt', [F('a', 'T1'), F('b', 'T2')], top=[pre('let i = &i[i.len()..];')], what='item-level PreExec that changes the input'),
        Item('chgtp', [F('a', 'T1'), F('b', 'T2')], top=[post('let i = &i[i.len()..];')], what='item-level PostExec that changes the input'),
        Item('eif1', [F('a', 'u8'), F('b', 'T2', eif('a == 0')), F('c', 'T3', eif('a > 5 || b1()', 'p'))], what='ErrorIf on earlier fields'),
        Item('eif2', [F('a', 'u8', eif('i.is_empty()')), F('b', 'T2')], what='ErrorIf on the input'),
        Item('eif3', [F('a', 'u8', eif('i.len() != 4', 'p')), F('b', 'T2')], what='ErrorIf on the input length'),
        Item('eif4', [F('a', 'u8'), F('b', 'T2', eif('1 == a', 'p'), eif('!b1()'), eif('a & 1 == 1'))], what='several ErrorIf'),
        Item('eifv', kind='enum', sel='u8', variants=[V('P', '0', [F('a', 'u8'), F('b', 'T2', eif('a == 0'))]), V('Q', '_', [F('', 'T1', eif())], shape='tuple')], what='ErrorIf in variants'),
        Item('eifg', [F('a', 'u8'), F('b', 'T2', eif('a == 0'))], top=[A('GenericErrors')], what='ErrorIf with GenericErrors'),
        Item('eifn', [F('a', 'u8'), F('b', 'T2', eif('a == 0'))], top=[A('InputName', 'inp')], what='ErrorIf with InputName'),
        Item('inpn', [F('a', 'T1', pre('eff_i(inp);'), post('eff_i(orig_inp);'))], top=[A('InputName', 'inp'), pre('eff_i(inp);'), post('eff_i(inp);')], what='InputName'),
        Item('inpnf', kind='fieldless', repr='u16', variants=[V('P', None), V('Q', None)], top=[A('InputName', 'inp'), pre('eff_i(inp);'), post('eff_i(inp);')], what='InputName on a fieldless enum'),
        Item('inpne', kind='enum', sel='u8', variants=EV([pre('eff_i(inp);')]), top=[A('InputName', 'inp'), pre('eff_i(inp);'), post('eff_i(inp);')], what='InputName on an enum'),
        Item('ign', [F('a', 'T1', pre('eff_a();'), A('Ignore'), post('eff_b();')), F('b', 'T2', pre('eff_a();'), A('Value', 'val1()' if False else 'T2 { x: eff_x() }'), post('eff_b();'))], what='directives on fields that parse nothing'),
        Item('ph', [F('a', 'T1', pre('eff_a();')), F('p', 'PhantomData<T1>', pre('eff_b();'), post('eff_c();'))], pre_items='use core::marker::PhantomData;', what='directives on PhantomData'),
        Item('mix', [F('a', 'T1', pre('eff_a();'), A('SkipBefore', '2'), pre('eff_i(i);'), eif('eff_bool()'), A('AlignAfter', '4'), post('eff_i(i);'))], what='directives in order of appearance'),
        Item('mixp', [F('a', 'T1', post('eff_i(i);'), A('SkipAfter', '2'), post('eff_i(i);'), A('SkipBefore', '1'), pre('eff_i(i);'))], what='directives in order of appearance, post'),
        Item('exact', [F('a', 'T1', post('eff_a();'))], top=[post('eff_i(i);'), A('Exact'), post('eff_b();')], what='PostExec around Exact'),
        Item('verify', [F('a', 'T1', pre('eff_a();'), A('Verify', 'vf::<T1>(a)'), post('eff_b();')), F('b', 'T2')], what='PostExec does not run when Verify fails'),
        Item('cond', [F('a', 'Option<T1>', pre('eff_a();'), A('Cond', 'b1()'), post('eff_b();')), F('b', 'T2')], what='directives on a Cond field'),
        Item('unitp', kind='enum', sel='u8', variants=[V('P', '0', attrs=[pre('eff_a();'), A('Parse', 'p1'), post('eff_b();')]), V('Q', '_')], what='directives and Parse on a unit variant'),
        Item('vfld', kind='enum', sel='u8', variants=[V('P', '0', [F('a', 'T1', pre('eff_a();'), post('eff_i(i);')), F('b', 'T1', eif())], attrs=[pre('eff_b();'), post('eff_c();')]),
                                                      V('Q', '_', [F('', 'T1', post('eff_a();'))], shape='tuple', attrs=[post('eff_c();')])], what='directives on variants and their fields'),
    ]
    K.lockstep_family(res, 'w-c09', pick(items, only), opts=ERASE)


# ---------------------------------------------------------------------------------------------- C10
@family('C10')
def c10(res, tier, only=None):
    big = tier == 'thorough'
    items = []
    AL = ['1', '2', '4', '8', '3', '16', 'n1()', 'nb()', 'a', 'a & 3', '1 << 3', 'n1() | 1', 'if b1() { 4 } else { 2 }', '2 + 2', 'nh()', '4u64', 'i32::MAX', 'offset', 'align', '4096']
    SK = ['0', '1', '7', 'n1()', 'nb()', 'a', 'a & 7', 'n1() + n2()' if False else 'n1()', 'usize::MAX', 'nb() | 1', 'if b1() { 4 } else { 2 }', 'nh() >> 2', 'skip', '3u32', 'i.len()']
    MV = ['0', '1', '-1', '4', '-4', 'd1()', 'nb()', 'di()', 'a', 'a as isize - 4', '-(a as isize)', 'isize::MIN', 'isize::MAX', 'isize::MIN + 1', 'if b1() { d1() } else { -1 }', 'pos', 'start', 'offset', 'new_offset',
          'a as i8 as isize', '2 - 3', 'n1()', '0x7fff_ffff', '-2i32']
    MA = ['0', '1', '16', 'n1()', 'nb()', 'a', 'a & 7', 'usize::MAX', 'nh() | 1', 'if b1() { 4 } else { 2 }', 'offset', 'orig_i.len()', '3u8', 'start']
    ints = [str(x) for x in mined()['ints'] if x > 16]
    for nm, args in (('AlignBefore', AL + ints), ('AlignAfter', AL + ints), ('SkipBefore', SK + ints), ('SkipAfter', SK + ints), ('Move', MV + ints), ('MoveAbs', MA + ints)):
        for k, x in enumerate(args):
            vf = x if re.match(r'^(offset|align|skip|pos|start|new_offset|offset_u)$', x) else None
            pre = [F('a', 'u8')] + ([F(vf, 'u16')] if vf else [])
            for st in 'sp' if big else 'sp'[k % 2]:
                items.append(Item('%s%s%d' % (nm, st, k), pre + [F('v', 'T1', A(nm, x, st)), F('z', 'T2')], what='%s(%s)' % (nm, x)))
            if k < 5 or big:
                items.append(Item('%s_first%d' % (nm, k), [F('a', 'u8' if False else 'T1', A(nm, x.replace('a', 'n1()', 1) if x == 'a' else x)), F('z', 'T2')] if 'a' not in x.replace('isize', '').replace('as', '').replace('MAX', '') else pre + [F('v', 'T1'), F('w', 'T2', A(nm, x))],
                                  what='%s(%s) at the edge' % (nm, x)))
        D = A(nm, 'n1()' if nm != 'Move' else 'd1()')
        items += [
            Item(nm + '_t', [F('', 'T1'), F('', 'T2', D), F('', 'T3')], shape='tuple', what=nm + ' in a tuple struct'),
            Item(nm + '_in', [F('a', 'T1'), F('b', 'T2', D)], top=[A('InputName', 'inp')], what=nm + ' with InputName'),
            Item(nm + '_ge', [F('a', 'T1'), F('b', 'T2', D)], top=[A('GenericErrors')], what=nm + ' with GenericErrors'),
            Item(nm + '_cm', [F('a', 'T1'), F('b', 'T2', D)], top=[A('Complete')], what=nm + ' in a Complete struct'),
            Item(nm + '_ev', kind='enum', sel='u8', variants=[V('P', '0', [F('a', 'T1', D), F('b', 'T2')]), V('Q', '_', [F('', 'T1'), F('', 'T2', D)], shape='tuple')], what=nm + ' in variants'),
            Item(nm + '_cnt', [F('a', 'T1'), F('b', 'Vec<T2>', D, A('Count', '2')), F('c', 'T3')], what=nm + ' with Count', opts={}),
            Item(nm + '_val', [F('a', 'T1'), F('b', 'usize', D, A('Value', 'i.len()')), F('c', 'T3')], what=nm + ' seen by Value'),
            Item(nm + '_last', [F('a', 'T1', D)], what=nm + ' on an only field'),
            Item(nm + '_pre', [F('a', 'T1', A('PreExec', 'eff_i(i);'), D, A('PostExec', 'eff_i(i);')), F('b', 'T2', A('PreExec', 'eff_i(i);'))], what=nm + ' and what PreExec/PostExec see'),
            Item(nm + '_map', [F('a', 'T1', A('Map', 'f1'), D), F('b', 'T2')], what=nm + ' after Map'),
        ]
    ds = {'AB': A('AlignBefore', '4'), 'AA': A('AlignAfter', '8'), 'SB': A('SkipBefore', 'n1()'), 'SA': A('SkipAfter', 'nb()'), 'MV': A('Move', 'd1()'), 'MA': A('MoveAbs', 'n2()'), 'SZ': A('SkipBefore', '3'), 'MN': A('Move', '-2')}
    for p in itertools.product(ds, repeat=2):
        if big or not (set(p) & {'SZ', 'MN'}):
            items.append(Item('p_' + '_'.join(p), [F('a', 'T1'), F('b', 'T2', ds[p[0]], ds[p[1]]), F('c', 'T3')], what='%s then %s' % (ds[p[0]].text(), ds[p[1]].text())))
        if big or hash_pick(p, 4):
            items.append(Item('q_' + '_'.join(p), [F('a', 'T1', ds[p[0]]), F('b', 'T2', ds[p[1]])], what='%s on a field, %s on the next' % (ds[p[0]].text(), ds[p[1]].text())))
    if big:
        for p in itertools.product(['AB', 'SB', 'MV', 'MA'], repeat=3):
            if hash_pick(p, 3):
                items.append(Item('r_' + '_'.join(p), [F('a', 'T1', *[ds[x] for x in p])], what='three directives: ' + ', '.join(ds[x].text() for x in p)))
    K.lockstep_family(res, 'w-c10', pick(items, only), opts=ERASE)


DEFAULT_CFG, NOALLOC_CFG = K.DEFAULT, K.NOALLOC
from . import libfam  # noqa: E402,F401
from . import fam2  # noqa: E402,F401
from . import fam3  # noqa: E402,F401
from . import fam4  # noqa: E402,F401
from . import fam5  # noqa: E402,F401
from . import fam6  # noqa: E402,F401
from . import fam7  # noqa: E402,F401
