"""Families decided by the type checker: what must be refused (C16), what must compile in a bare user crate (C19),
what the borrow checker must refuse (C20)."""
import itertools
import re

from . import build
from . import check as K
from . import families as Fm
from .families import family

PRE = '''    #![allow(warnings)]
    use nom_derive::*;
    use nom::IResult;
    #[derive(Debug, PartialEq, Eq, Clone, Nom)] pub struct W { pub w: u8 }
    pub fn pw<'a>(i: &'a [u8]) -> IResult<&'a [u8], W> { loop {} }
    pub fn pn<'a>(i: &'a [u8]) -> IResult<&'a [u8], u8> { loop {} }
'''


class Wit:
    """one module that must (not) compile"""

    def __init__(self, id, body, what, pre=PRE):
        self.id, self.body, self.what, self.pre = id, body, what, pre

    def text(self):
        return 'pub mod %s {\n%s%s\n}\n' % (self.id, self.pre, self.body)


class Pair:
    """bad must be refused, good (the same without the offending element) must be accepted"""

    def __init__(self, id, bad, good, what, pre=PRE):
        self.id, self.what = id, what
        self.bad = Wit(id, bad, what, pre)
        self.good = None if good is None else Wit(id, good, what, pre)


def survivors(crate, wits, toml, header='', **kw):
    """which modules compile in the end? returns (compiled ids, {id: errors})"""
    left = list(wits)
    errors = {}
    fresh = True
    for rnd in range(12):
        src = header + ''.join(w.text() for w in left)
        ok, msgs, _, err = build.check_crate(crate, src, toml, dump=False, fresh=fresh, **kw)
        fresh = False
        if ok:
            return [w.id for w in left], errors
        bad = build.errors_by_module(msgs, crate, src)
        if None in bad or not bad:
            raise build.BuildError('the crates under test do not compile:\n' + ('\n'.join(sum(bad.values(), [])) or err)[-3000:])
        errors.update(bad)
        n = len(left)
        left = [w for w in left if w.id not in bad]
        if len(left) == n:
            raise build.BuildError('cannot attribute compile errors: %r' % list(bad))
    raise build.BuildError('too many rounds of compile errors')


def refuse(res, crate, pairs, cfg=K.DEFAULT, header=''):
    ids = [p.id for p in pairs]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1][:5]
    goods = {}
    for p in pairs:
        if p.good is not None:
            goods.setdefault(p.good.body, p.good)
    okg, errg = survivors(crate + '-good', list(goods.values()), cfg.toml(crate + '-good'), header)
    byid = {p.id: p for p in pairs}
    twin = {p.id: goods[p.good.body].id if p.good else None for p in pairs}
    for w in goods.values():
        if w.id in errg:
            res.violation(w.id + '_twin', 'a valid definition is refused (%s, without the offending element)' % w.what,
                          w.body + '\n' + '\n'.join(errg[w.id])[:3000])
    okb, errb = survivors(crate, [p.bad for p in pairs], cfg.toml(crate), header)
    for i in okb:
        res.violation(i, 'compiles although it must be refused: ' + byid[i].what, byid[i].bad.body)
    res.add('refused', len(errb))
    res.add('twins_accepted', len(okg))
    res.add('obligations', len(pairs) + len(goods))
    for p in pairs[::max(1, len(pairs) // 5)]:
        m = errb.get(p.id, ['(compiles)'])[0].strip().splitlines()
        res.samples.append({'witness': p.id, 'definition': p.bad.body, 'refused_with': m[0][:200], 'twin': p.good and p.good.body})


# ---------------------------------------------------------------------------------------------- C16
def n(*attrs):
    a = [x for x in attrs if x]
    return '#[nom(%s)] ' % ', '.join(a) if a else ''


def split(*attrs):
    return ''.join('#[nom(%s)] ' % a for a in attrs if a)


ITEMS = {
    'st': lambda a, d='Nom': '#[derive(%s)] %spub struct X { pub a: u32, pub b: W }' % (d, a),
    'tu': lambda a, d='Nom': '#[derive(%s)] %spub struct X(pub u32, pub W);' % (d, a),
    'ge': lambda a, d='Nom': '#[derive(%s)] %spub struct X<T> { pub a: u32, pub b: T }' % (d, a),
    'se': lambda a, d='Nom': '#[derive(%s)] #[nom(Selector = "u8")] %spub enum X { #[nom(Selector = "1")] A(u32), #[nom(Selector = "2")] B { b: W } }' % (d, a),
    'un': lambda a, d='Nom': '#[derive(%s)] #[nom(Selector = "u8")] %spub enum X { #[nom(Selector = "1")] A, #[nom(Selector = "_")] B(u16) }' % (d, a),
}
FIELDLESS = lambda a, d='Nom': '#[derive(%s)] #[repr(u16)] %spub enum X { A = 1, B = 2 }' % (d, a)

# a field in each place a field can be
PLACES = {
    'st': lambda f: '#[derive(Nom)] pub struct X<\'b> { pub z: u8, %s, pub y: &\'b PH }' % f,
}


def place(k, attrs, ty, more=''):
    """a definition with one field of type ty carrying attrs"""
    lt = "<'b>" if "'b" in ty else ''
    if k == 'st':
        return "#[derive(Nom)] %spub struct X%s { pub z: u8, %spub f: %s }" % (more, lt, attrs, ty)
    if k == 'fst':
        return "#[derive(Nom)] %spub struct X%s { %spub f: %s, pub z: u8 }" % (more, lt, attrs, ty)
    if k == 'tu':
        return "#[derive(Nom)] %spub struct X%s(pub u8, %spub %s);" % (more, lt, attrs, ty)
    if k == 'ev':
        return "#[derive(Nom)] %s#[nom(Selector = \"u8\")] pub enum X%s { #[nom(Selector = \"1\")] A { z: u8, %sf: %s }, #[nom(Selector = \"2\")] B(u8) }" % (more, lt, attrs, ty)
    if k == 'et':
        return "#[derive(Nom)] %s#[nom(Selector = \"u8\")] pub enum X%s { #[nom(Selector = \"2\")] B(u8), #[nom(Selector = \"1\")] A(%s%s) }" % (more, lt, attrs, ty)
    if k == 'gen':
        l = "'b, " if lt else ''
        return "#[derive(Nom)] %spub struct X<%sT> { pub z: T, %spub f: %s }" % (more, l, attrs, ty)
    raise KeyError(k)


ALLP = ('st', 'fst', 'tu', 'ev', 'et', 'gen')
BO = {'b': 'BigEndian', 'l': 'LittleEndian', 's': 'SetEndian = "nom::number::Endianness::Big"'}

# attribute -> (an argument that works, field type, other attributes it needs)
FIELD_ATTRS = {
    'AlignAfter': ('4', 'u32'), 'AlignBefore': ('4', 'u32'), 'Cond': ('true', 'Option<u32>'), 'If': ('true', 'Option<u32>'),
    'Count': ('3', 'Vec<u32>'), 'ErrorIf': ('1 == 2', 'u32'), 'LengthCount': ('pn', 'Vec<u32>'), 'Map': ('|x: u8| x as u32', 'u32'),
    'Move': ('1', 'u32'), 'MoveAbs': ('1', 'u32'), 'Parse': ('pw', 'W'), 'PostExec': ('let _ = 1;', 'u32'), 'PreExec': ('let _ = 1;', 'u32'),
    'SetEndian': ('nom::number::Endianness::Big', 'u32'), 'SkipAfter': ('1', 'u32'), 'SkipBefore': ('1', 'u32'), 'Tag': ('b"x"', "&'b [u8]"),
    'Take': ('3', "&'b [u8]"), 'Value': ('1', 'u32'),
}
NO_ARG = {'BigEndian': 'u32', 'LittleEndian': 'u32', 'Complete': 'u32', 'Ignore': 'u32', 'Default': 'u32', 'Into': 'u32'}
ONLY_TOP = {'DebugDerive': 'DebugDerive', 'Exact': 'Exact', 'ExtraArgs': 'ExtraArgs(q: u8)', 'GenericErrors': 'GenericErrors', 'InputName': 'InputName(inp)'}
ONLY_FIELD = ('AlignAfter', 'AlignBefore', 'Cond', 'If', 'Count', 'ErrorIf', 'LengthCount', 'Map', 'Move', 'MoveAbs', 'Parse',
              'SkipAfter', 'SkipBefore', 'Tag', 'Take', 'Value')


def nv(name, arg):
    return '%s = "%s"' % (name, arg.replace('"', '\\"'))


def refused():
    out = []

    def add(id, bad, good, what):
        id = re.sub(r'\W', '_', id)
        while any(p.id == id for p in out[-400:]):
            id += 'x'
        out.append(Pair(id, bad, good, what))
    # --- byte orders
    kinds = dict(ITEMS, fl=FIELDLESS)
    for k, f in kinds.items():
        combos = [c for r in (2, 3) for c in itertools.permutations('bls', r)]
        for c in combos:
            if k == 'fl' and 's' in c:
                continue
            for sp in (n, split):
                if len(c) == 3 and sp is split and c != ('b', 'l', 's'):
                    continue
                add('bo_item_%s_%s_%s' % (k, ''.join(c), sp.__name__), f(sp(*[BO[x] for x in c])), f(''), 'conflicting byte orders on the item')
        for d, x in (('NomBE', 'l'), ('NomLE', 'b'), ('NomBE', 's'), ('NomLE', 's')):
            if k == 'fl' and x == 's':
                continue
            add('bo_derive_%s_%s_%s' % (k, d, x), f(n(BO[x]), d), f('', d), 'item byte order contradicts the derive macro')
            for y in 'bls':
                if y != x and not (k == 'fl' and y == 's') and (d, x, y) in (('NomBE', 'l', 'b'), ('NomLE', 'b', 'l')):
                    add('bo_derive2_%s_%s_%s%s' % (k, d, x, y), f(n(BO[x], BO[y]), d), f(n(BO[y]), d), 'item byte orders contradict each other and the derive macro')
    for k in ALLP:
        for c in itertools.permutations('bls', 2):
            for sp in (n, split):
                add('bo_field_%s_%s_%s' % (k, ''.join(c), sp.__name__), place(k, sp(*[BO[x] for x in c]), 'u32'), place(k, n(BO[c[0]]), 'u32'),
                    'conflicting byte orders on a field')
        add('bo_field_%s_bls' % k, place(k, n(*BO.values()), 'u32'), place(k, '', 'u32'), 'three byte orders on a field')
        for ty, at in (('W', 'Parse = "pw"'), ('Vec<u32>', 'Count = "3"'), ('Option<u32>', 'Cond = "true"'), ("&'b [u8]", 'Take = "2"'), ('u32', 'Value = "1"'), ('u32', 'Ignore')):
            add('bo_fieldw_%s_%s' % (k, at.split()[0]), place(k, n(BO['b'], BO['l'], at), ty), place(k, n(at), ty), 'conflicting byte orders on a field with ' + at)
            add('bo_fieldx_%s_%s' % (k, at.split()[0]), place(k, n(at, BO['l']) + n(BO['b']), ty), place(k, n(at), ty), 'conflicting byte orders on a field with ' + at)
    # --- attributes at the wrong level
    for a, txt in ONLY_TOP.items():
        for k in ALLP:
            add('lv_field_%s_%s' % (k, a), place(k, n(txt), 'u32'), place(k, '', 'u32'), '%s on a field' % a)
            add('lv_field2_%s_%s' % (k, a), place(k, n('BigEndian', txt), 'u32'), place(k, n('BigEndian'), 'u32'), '%s on a field' % a)
    for a in ONLY_FIELD:
        arg, ty = FIELD_ATTRS[a]
        for k, f in kinds.items():
            add('lv_item_%s_%s' % (k, a), f(n(nv(a, arg))), f(''), '%s on an item' % a)
        add('lv_item_p_%s' % a, ITEMS['st'](n('Complete', '%s(%s)' % (a, arg))), ITEMS['st'](n('Complete')), '%s on an item' % a)
    for a in ('Ignore', 'Default', 'Into'):
        for k, f in kinds.items():
            add('lv_item_%s_%s' % (k, a), f(n(a)), f(''), '%s on an item' % a)
    for k, f in kinds.items():
        add('lv_item_%s_Verify' % k, f(n('Verify = "true"')), f(''), 'Verify on an item')
    for a, txt in ONLY_TOP.items():
        add('lv_variant_%s' % a, '#[derive(Nom)] #[nom(Selector = "u8")] pub enum X { #[nom(Selector = "1", %s)] A(u8), #[nom(Selector = "2")] B(u8) }' % txt,
            '#[derive(Nom)] #[nom(Selector = "u8")] pub enum X { #[nom(Selector = "1")] A(u8), #[nom(Selector = "2")] B(u8) }', '%s on a variant' % a)
    # --- unknown attributes
    for u in ('Foo', 'bigendian', 'Foo = "1"', 'Foo(1)', 'count = "3"', 'nom::Count = "3"', 'Endian = "Big"', 'Lenght = "3"'):
        t = re.sub(r'\W+', '_', u)
        for k, f in kinds.items():
            add('un_item_%s_%s' % (k, t), f(n(u)), f(''), 'unknown attribute ' + u)
        for k in ALLP:
            add('un_field_%s_%s' % (k, t), place(k, n(u), 'u32'), place(k, '', 'u32'), 'unknown attribute ' + u)
            add('un_field2_%s_%s' % (k, t), place(k, n('Count = "2"', u), 'Vec<u32>'), place(k, n('Count = "2"'), 'Vec<u32>'), 'unknown attribute ' + u)
        add('un_variant_%s' % t, '#[derive(Nom)] #[nom(Selector = "u8")] pub enum X { #[nom(Selector = "1", %s)] A(u8), #[nom(Selector = "2")] B(u8) }' % u,
            '#[derive(Nom)] #[nom(Selector = "u8")] pub enum X { #[nom(Selector = "1")] A(u8), #[nom(Selector = "2")] B(u8) }', 'unknown attribute on a variant ' + u)
    # --- missing and malformed arguments
    for a, (arg, ty) in FIELD_ATTRS.items():
        for k in ALLP:
            good = place(k, n(nv(a, arg)), ty)
            if a == 'Map':
                ty = 'u32'
                good = place(k, n(nv(a, arg), 'Parse = "pn"'), ty)
            post = ('Parse = "pn"',) if a == 'Map' else ()
            add('ar_%s_%s_none' % (a, k), place(k, n(a, *post), ty), good, '%s without argument' % a)
            if a not in ('PreExec', 'PostExec'):
                add('ar_%s_%s_empty' % (a, k), place(k, n(a + '()', *post), ty), good, '%s with empty argument' % a)
            add('ar_%s_%s_estr' % (a, k), place(k, n(a + ' = ""', *post), ty), good, '%s with empty argument' % a)
            add('ar_%s_%s_num' % (a, k), place(k, n(a + ' = 3', *post), ty), good, '%s with an argument that is no string' % a)
            add('ar_%s_%s_bad' % (a, k), place(k, n(nv(a, 'if +'), *post), ty), good, '%s with malformed argument' % a)
            add('ar_%s_%s_badp' % (a, k), place(k, n('%s(* * /)' % a, *post), ty), good, '%s with malformed argument' % a)
    for k in ALLP:
        good = place(k, n('Verify = "true"'), 'u32') if k not in ('tu', 'et') else None
        for m, t in (('none', 'Verify'), ('empty', 'Verify()'), ('estr', 'Verify = ""'), ('num', 'Verify = 1'), ('bad', 'Verify = "1 +"')):
            add('ar_Verify_%s_%s' % (k, m), place(k, n(t), 'u32'), good, 'Verify with a wrong argument')
    for k, f in ITEMS.items():
        for a, m in (('SetEndian', 'nom::number::Endianness::Big'), ('PreExec', 'let _ = 1;'), ('PostExec', 'let _ = 1;'), ('InputName', 'inp')):
            add('ar_item_%s_%s_none' % (k, a), f(n(a)), f(n(nv(a, m))), '%s without argument' % a)
            add('ar_item_%s_%s_estr' % (k, a), f(n(a + ' = ""')), f(n(nv(a, m))), '%s with empty argument' % a)
            add('ar_item_%s_%s_bad' % (k, a), f(n(nv(a, 'if +'))), f(n(nv(a, m))), '%s with malformed argument' % a)
        add('ar_item_%s_ExtraArgs_none' % k, f(n('ExtraArgs')), f(n('ExtraArgs(q: u8)')), 'ExtraArgs without argument')
        add('ar_item_%s_ExtraArgs_bad' % k, f(n('ExtraArgs(q)')), f(n('ExtraArgs(q: u8)')), 'ExtraArgs without type')
        add('ar_item_%s_ExtraArgs_str' % k, f(n('ExtraArgs = "q: u8"')), f(n('ExtraArgs(q: u8)')), 'ExtraArgs as a string')
        add('ar_item_%s_ExtraArgs_self' % k, f(n('ExtraArgs(&self)')), f(n('ExtraArgs(q: u8)')), 'ExtraArgs with self')
    for t in ('#[nom]', '#[nom = "Count"]', '#[nom("Count")]', '#[nom(1)]', '#[nom(Count = )]', '#[nom(BigEndian LittleEndian)]', '#[nom(Count < 3)]'):
        i = re.sub(r'\W+', '_', t)
        add('ml_field' + i, place('st', t + ' ', 'Vec<u32>'), place('st', n('Count = "3"'), 'Vec<u32>'), 'malformed attribute ' + t)
        add('ml_item' + i, ITEMS['st'](t + ' '), ITEMS['st'](''), 'malformed attribute ' + t)
    # --- types
    for k in ALLP:
        for a, arg in (('Cond', 'true'), ('If', 'true')):
            for m, ty in enumerate(('u32', 'W', 'Vec<u32>', '[u32; 2]', "&'b [u8]", '(u32, u8)', 'Result<u32, u8>', 'Box<Option<u32>>')):
                tw = {'Vec<u32>': 'Option<Vec<u32>>', "&'b [u8]": None, '(u32, u8)': None, 'Result<u32, u8>': None, 'Box<Option<u32>>': None}.get(ty, 'Option<%s>' % ty)
                for s, at in (('s', nv(a, arg)), ('p', '%s(%s)' % (a, arg))):
                    add('ty_%s_%s_%d%s' % (a, k, m, s), place(k, n(at), ty), tw and place(k, n(at), tw), '%s on %s' % (a, ty))
        for a, arg in (('Count', '3'), ('LengthCount', 'pn')):
            for m, ty in enumerate(('u32', 'W', 'Option<u32>', '[u32; 3]', "&'b [u8]", '(u32, u8)', 'Box<[u32]>', 'std::collections::VecDeque<u32>', 'Option<Vec<u32>>')):
                for s, at in (('s', nv(a, arg)), ('p', '%s(%s)' % (a, arg))):
                    add('ty_%s_%s_%d%s' % (a, k, m, s), place(k, n(at), ty), place(k, n(at), 'Vec<u32>'), '%s on %s' % (a, ty))
        for m, ty in enumerate(("&'b u32", "&'b [u8]", 'Box<u32>', 'bool', 'char', 'usize', 'isize', 'fn(u8) -> u8', '*const u8', 'std::rc::Rc<W>', 'NoParse',
                                'Vec<NoParse>', 'Option<NoParse>', '[NoParse; 2]', 'std::collections::HashMap<u8, u8>', 'Vec<&\'b [u8]>', "&'b mut [u8]", 'dyn Fn()',
                                'Vec<bool>', '[char; 2]', 'Option<usize>')):
            add('in_%s_%d' % (k, m), 'pub struct NoParse; ' + place(k, '', ty), 'pub struct NoParse; ' + place(k, '', 'u32'), 'no parser can be inferred for ' + ty)
        for m, (at, ty, tw) in enumerate((('Cond = "true"', 'Option<NoParse>', 'Option<W>'), ('Count = "2"', 'Vec<NoParse>', 'Vec<W>'), ('Complete', 'NoParse', 'W'),
                                          ('LengthCount = "pn"', 'Vec<bool>', 'Vec<W>'), ('BigEndian', 'NoParse', 'W'), ('SetEndian = "nom::number::Endianness::Big"', 'char', 'u32'))):
            add('in_%s_w%d' % (k, m), 'pub struct NoParse; ' + place(k, n(at), ty), 'pub struct NoParse; ' + place(k, n(at), tw), 'no parser can be inferred under ' + at)
        # the parser given does not give the type of the field
        for m, (at, ty, tw) in enumerate((('Parse = "pw"', 'u32', 'W'), ('Parse = "pn"', 'W', 'u8'), ('Take = "2"', 'u32', "&'b [u8]"), ('Tag = "b\\"x\\""', 'W', "&'b [u8]"),
                                          ('Value = "1"', 'W', 'u32'), ('Parse = "pn", Map = "|x| x"', 'W', 'u8'), ('Count = "2", Parse = "pn"', 'Vec<W>', 'Vec<u8>'),
                                          ('Cond = "true", Parse = "pn"', 'Option<W>', 'Option<u8>'))):
            add('mm_%s_%d' % (k, m), place(k, n(at), ty), place(k, n(at), tw), 'the field type is not what is parsed: ' + at)
    # --- enums
    var = {'unit': '%sA', 'tuple': '%sA(u8)', 'struct': '%sA { a: u8 }'}
    sel = lambda s: '#[nom(Selector = "%s")] ' % s
    for h in ('u8', 'u32', 'W2', "&'static str"):
        v = {'u8': ('1', '2', '3'), 'u32': ('1', '2', '3'), 'W2': ('W2(1)', 'W2(2)', 'W2(3)'), "&'static str": ('\\"a\\"', '\\"b\\"', '\\"c\\"')}[h]
        hid = re.sub(r'\W', '', h)
        for a, b, c in itertools.product(var, repeat=3):
            vs = [var[a], var[b].replace('A', 'B'), var[c].replace('A', 'C')]
            head = 'pub struct W2(pub u8);\n#[derive(Nom)] #[nom(Selector = "%s")] pub enum X { %%s }' % h
            good = head % ', '.join(x % sel(y) for x, y in zip(vs, v))
            if a == b == c == 'unit' or h == 'u8' or a != b != c != a:
                for miss in range(3):
                    add('en_nosel_%s_%s%s%s_%d' % (hid, a[0], b[0], c[0], miss),
                        head % ', '.join(x % (sel(y) if q != miss else '') for q, (x, y) in enumerate(zip(vs, v))), good, 'a variant without Selector')
            if not (a == b == c == 'unit') and h == 'u8':
                g2 = good
                add('en_noitem_%s%s%s' % (a[0], b[0], c[0]), g2.replace('#[nom(Selector = "u8")] pub', 'pub'), g2, 'a data enum without Selector')
                add('en_noitemr_%s%s%s' % (a[0], b[0], c[0]), g2.replace('#[nom(Selector = "u8")] pub', '#[repr(u8)] pub'), None, 'a data enum without Selector')
                add('en_none_%s%s%s' % (a[0], b[0], c[0]), '#[derive(Nom)] pub enum X { %s }' % ', '.join(x % '' for x in vs), g2, 'a data enum without Selector')
    for r in ('', '#[repr(C)] ', '#[repr(usize)] ', '#[repr(isize)] ', '#[allow(unused)] '):
        for d in ('Nom', 'NomBE', 'NomLE'):
            i = re.sub(r'\W+', '', r) or 'none'
            add('fl_%s_%s' % (i, d), '#[derive(%s)] %spub enum X { A = 1, B = 2 }' % (d, r), '#[derive(%s)] #[repr(u8)] pub enum X { A = 1, B = 2 }' % d, 'a fieldless enum with repr ' + (r or 'missing'))
            add('fl1_%s_%s' % (i, d), '#[derive(%s)] %spub enum X { A }' % (d, r) if 'repr' not in r or 'size' in r or '(C)' in r else '#[derive(%s)] pub enum X { A }' % d,
                '#[derive(%s)] #[repr(u8)] pub enum X { A }' % d, 'a fieldless enum with repr ' + (r or 'missing'))
    for d in ('Nom', 'NomBE', 'NomLE'):
        for b in ('pub union X { pub a: u32, pub b: u8 }', '#[repr(C)] pub union X { pub a: u32 }', '#[nom(Selector = "u8")] pub union X { pub a: u32 }'):
            add('un_%s_%d' % (d, len(b)), '#[derive(%s)] %s' % (d, b), None, 'a union')
    add('fl_extra', '#[derive(Nom)] #[repr(u8)] #[nom(ExtraArgs(q: u8))] pub enum X { A = 1 }', '#[derive(Nom)] #[repr(u8)] pub enum X { A = 1 }', 'ExtraArgs on a fieldless enum')
    return out


@family('C16')
def c16(res, tier, only=None):
    pairs = [p for p in refused() if only is None or only in p.id]
    refuse(res, 'w-c16', pairs)


Fm.LEVELS['C16'] = 'other'
Fm.RULES['C16'] = 'every module with one of the listed mistakes must get a compile error; the same module without the mistake must compile'
Fm.EXPLAIN['C16'] = ('compile-fail witnesses: one definition per mistake, place and spelling is expanded by the derive macro of the current tree and type-checked; '
                     'a definition that survives is a violation. Each has a twin without the offending element which must compile, so that refusals for an unrelated reason do not count.')
