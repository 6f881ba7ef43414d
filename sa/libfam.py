"""Families about the library itself (src/traits.rs, src/helpers.rs): generic roots, hand-written references."""
import re

from . import gen
from . import check as K
from .families import family, pick, NOALLOC_CFG as NOALLOC, DEFAULT_CFG as DEFAULT

IMP = ('use nom::{IResult, Err, Needed}; use nom::error::{ParseError, ErrorKind, FromExternalError}; use nom_derive::{Parse, InputSlice};')
ENTRY = {'parse': 'parse', 'be': 'parse_be', 'le': 'parse_le'}
BL = "&'a [u8]"


class Raw:
    """hand-written pair of functions: sig is everything after the name, im and rf map an entry to a body"""

    def __init__(self, id, sig, im, rf, entries=('parse', 'be', 'le'), what='', sa=None, items='', defn=''):
        self.id, self.sig, self.im, self.rf, self.entries = id, sig, im, rf, entries
        self.what, self.items, self.defn = what, items, defn
        self.controls = ()
        self.opts = {'sa': dict(sa or {})}

    def roots(self):
        return self.entries

    def derive_input(self):
        return '        ' + (self.defn or self.im(self.entries[0]))

    def emit(self, m):
        o = 'pub mod %s {\n    #![allow(warnings)]\n    %s\n    %s\n' % (m, IMP, self.items)
        for e in self.entries:
            o += '    pub fn im_%s_%s%s { %s }\n' % (m, e, self.sig, self.im(e))
            o += '    pub fn rf_%s_%s%s { %s }\n' % (m, e, self.sig, self.rf(e))
        return o + '}\n'


def call(ty, I, E):
    return lambda e: '<%s as Parse<%s, %s>>::%s(i)' % (ty, I, E, ENTRY[e])


def sig(ty, I, E, gens='', where=''):
    """signature with input type I and error type E"""
    return '%s(i: %s) -> IResult<%s, %s, %s> %s' % (gens, I, I, ty, E, where)


VARIANTS = [
    # name, generics, where, I, E
    ('g', '<I, E>', 'where I: InputSlice + Clone + PartialEq, E: ParseError<I>', 'I', 'E'),
    ('s', "<'a, E>", "where E: ParseError<&'a [u8]>", BL, 'E'),
    ('c', "<'a>", '', BL, "nom::error::Error<&'a [u8]>"),
]
PRIM = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16, 'f32': 4, 'f64': 8}


def addgen(g, *names):
    inner = g.strip('<>')
    parts = [x.strip() for x in inner.split(',') if x.strip()]
    lts = [x for x in parts if x.startswith("'")]
    return '<%s>' % ', '.join(lts + [x for x in parts if x not in lts] + list(names))


def addwhere(w, *bounds):
    return (w + ', ' if w else 'where ') + ', '.join(bounds)


# ---------------------------------------------------------------------------------------------- C01
def prim_ref(ty):
    bits = PRIM[ty] * 8

    def f(e):
        p = 'nom::number::streaming::%s_u%d(i)' % ('le' if e == 'le' else 'be', bits)
        x = 'x' if ty == 'u%d' % bits else 'x as %s' % ty if ty[0] == 'i' else '%s::from_bits(x)' % ty
        return 'match %s { Ok((r, x)) => Ok((r, %s)), Err(e) => Err(e) }' % (p, x)
    return f


def prim_items():
    items = []
    for ty in PRIM:
        for v, g, w, I, E in VARIANTS:
            items.append(Raw('%s_%s' % (ty, v), sig(ty, I, E, g, w), call(ty, I, E), prim_ref(ty), what='%s, input %s, error %s' % (ty, I, E),
                             defn='<%s as Parse<%s, %s>>' % (ty, I, E)))
    return items


@family('C01')
def c01(res, tier, only=None):
    items = pick(prim_items(), only)
    K.lockstep_family(res, 'w-c01', items, DEFAULT, opq='', opts={'mode': 'lib'})
    for it in items:
        it.id += '_na'
    K.lockstep_family(res, 'w-c01n', items, NOALLOC, opq='', opts={'mode': 'lib'})


# ---------------------------------------------------------------------------------------------- C02
def completed(call, i, I='_'):
    return ('(match %s { Err(Err::Incomplete(_)) => Err(Err::Error(ParseError::from_error_kind(%s.clone(), ErrorKind::Complete))), c => c })' % (call, i))


def elem(t, I, E, e, i='i'):
    return '<%s as Parse<%s, %s>>::%s(%s.clone())' % (t, I, E, ENTRY[e], i)


def cont_items(alloc):
    items = []
    for v, g, w, I, E in VARIANTS:
        for T in ('T', 'u16', 'LD') if v != 'g' else ('T', 'f64'):
            ty = T if T != 'LD' else "nom_derive::LengthDataU8<'a>"
            gg = addgen(g, 'T') if T == 'T' else g
            ww = addwhere(w, 'T: Parse<%s, %s>' % (I, E)) if T == 'T' else w
            nm = '%s_%s' % (v, T)
            items.append(Raw('opt_' + nm, sig('Option<%s>' % ty, I, E, gg, ww), call('Option<%s>' % ty, I, E),
                             lambda e, ty=ty, I=I, E=E: 'match %s { Ok((r, v)) => Ok((r, Some(v))), Err(Err::Error(_)) => Ok((i, None)), Err(Err::Incomplete(_)) => Ok((i, None)), Err(Err::Failure(f)) => Err(Err::Failure(f)) }' % elem(ty, I, E, e),
                             what='Option<%s>, input %s, error %s' % (ty, I, E)))
            if alloc:
                items.append(Raw('vec_' + nm, sig('Vec<%s>' % ty, I, E, gg, ww), call('Vec<%s>' % ty, I, E),
                                 lambda e, ty=ty, I=I, E=E: 'nom::Parser::parse(&mut nom::multi::many0(|x: %s| -> IResult<%s, %s, %s> { %s }), i)' % (I, I, ty, E, completed(elem(ty, I, E, e, 'x'), 'x')),
                                 what='Vec<%s>, input %s, error %s' % (ty, I, E)))
            for N in range(0, 5):
                g2, w2 = gg, ww
                if T == 'T' and not alloc:
                    w2 = addwhere(w2, 'T: Default + Copy')
                if T == 'LD' and not alloc:
                    continue
                if alloc:
                    if E == 'E':
                        w2 = addwhere(w2, 'E: FromExternalError<%s, Vec<%s>>' % (I, ty))
                body = lambda e, ty=ty, I=I, E=E, N=N: 'let o = i.clone();\n' + ''.join(
                    'let (i, v%d) = match %s { Ok(x) => x, Err(Err::Error(e)) => return Err(Err::Error(ParseError::append(o, ErrorKind::Count, e))), Err(e) => return Err(e) };\n'
                    % (k, completed(elem(ty, I, E, e), 'i')) for k in range(N)) + 'Ok((i, [%s]))' % ', '.join('v%d' % k for k in range(N))
                items.append(Raw('arr%d_%s' % (N, nm), sig('[%s; %d]' % (ty, N), I, E, g2, w2), call('[%s; %d]' % (ty, N), I, E), body,
                                 what='[%s; %d], input %s, error %s' % (ty, N, I, E), sa={'noloop': True, 'always_unroll': True}))
            if T == 'T' and alloc:
                gN = addgen(gg, 'const N: usize')
                wN = addwhere(ww, 'E: FromExternalError<%s, Vec<T>>' % I) if E == 'E' else ww
                items.append(Raw('arrN_' + nm, sig('[T; N]', I, E, gN, wN), call('[T; N]', I, E),
                                 lambda e, ty=ty, I=I, E=E: 'nom::Parser::parse(&mut nom::combinator::map_res(nom::multi::count(|x: %s| -> IResult<%s, T, %s> { %s }, N), <[T; N] as core::convert::TryFrom<Vec<T>>>::try_from), i)' % (I, I, E, completed(elem(ty, I, E, e, 'x'), 'x')),
                                 what='[T; N] for every N, input %s, error %s' % (I, E)))
        gg = addgen(g, 'T', 'U')
        ww = addwhere(w, 'T: Parse<%s, %s>' % (I, E), 'U: Parse<%s, %s>' % (I, E))
        pair = lambda e, I=I, E=E, a='T', b='U': ('let (i, a) = match <%s as Parse<%s, %s>>::%s(i) { Ok(x) => x, Err(e) => return Err(e) }; '
                                                 'let (i, b) = match <%s as Parse<%s, %s>>::%s(i) { Ok(x) => x, Err(e) => return Err(e) }; Ok((i, (a, b)))'
                                                 % (a, I, E, ENTRY[e], b, I, E, ENTRY[e]))
        items.append(Raw('pair_' + v, sig('(T, U)', I, E, gg, ww), call('(T, U)', I, E), pair, what='(T, U), input %s, error %s' % (I, E)))
        items.append(Raw('pairs_' + v, sig('(T, T)', I, E, addgen(g, 'T'), addwhere(w, 'T: Parse<%s, %s>' % (I, E))), call('(T, T)', I, E),
                         lambda e, p=pair: p(e, a='T', b='T'), what='(T, T), input %s, error %s' % (I, E)))
        items.append(Raw('pairc_' + v, sig('(u16, i32)', I, E, g, w), call('(u16, i32)', I, E), lambda e, p=pair: p(e, a='u16', b='i32'), what='(u16, i32), input %s' % I))
        # nesting
        for n, ty in (('oo', 'Option<Option<u16>>'), ('po', '(Option<u16>, u32)')) + ((('ov', 'Option<Vec<u16>>'), ('vo', 'Vec<(u8, u16)>')) if alloc else ()):
            m = re.match(r'^(Option|Vec)<(.*)>$', ty)
            if m and m.group(1) == 'Option':
                rf = lambda e, ty=m.group(2), I=I, E=E: 'match %s { Ok((r, v)) => Ok((r, Some(v))), Err(Err::Error(_)) => Ok((i, None)), Err(Err::Incomplete(_)) => Ok((i, None)), Err(Err::Failure(f)) => Err(Err::Failure(f)) }' % elem(ty, I, E, e)
            elif m:
                rf = lambda e, ty=m.group(2), I=I, E=E: 'nom::Parser::parse(&mut nom::multi::many0(|x: %s| -> IResult<%s, %s, %s> { %s }), i)' % (I, I, ty, E, completed(elem(ty, I, E, e, 'x'), 'x'))
            else:
                rf = lambda e, p=pair: p(e, a='Option<u16>', b='u32')
            items.append(Raw('nest_%s_%s' % (n, v), sig(ty, I, E, g, w), call(ty, I, E), rf, what='%s, input %s, error %s' % (ty, I, E)))
    return items


@family('C02')
def c02(res, tier, only=None):
    K.lockstep_family(res, 'w-c02', pick(cont_items(True), only), DEFAULT, opq='', opts={'mode': 'lib', 'no_context': True})
    items = pick(cont_items(False), only)
    for it in items:
        it.id += '_na'
    K.lockstep_family(res, 'w-c02n', items, NOALLOC, opq='', opts={'mode': 'lib', 'no_context': True})


# ---------------------------------------------------------------------------------------------- C03
def ld_items(alloc):
    items = []
    tk = 'if i.len() < n { Err(Err::Incomplete(Needed::Unknown)) } else { Ok((&i[n..], nom_derive::LengthData::new(&i[..n]))) }'
    for v, g, w, I, E in VARIANTS:
        gg = addgen(g, 'L')
        ww = addwhere(w, 'L: Parse<%s, %s> + nom::ToUsize' % (I, E))
        tail = tk if v != 'g' else 'match nom::bytes::streaming::take::<usize, I, E>(n)(i) { Ok((r, d)) => Ok((r, nom_derive::LengthData::new(d))), Err(e) => Err(e) }'
        items.append(Raw('ld_' + v, sig('nom_derive::LengthData<L, %s>' % I, I, E, gg, ww), call('nom_derive::LengthData<L, %s>' % I, I, E),
                         lambda e, I=I, E=E, t=tail: 'let (i, n) = match <L as Parse<%s, %s>>::%s(i) { Ok(x) => x, Err(e) => return Err(e) }; let n = n.to_usize(); %s' % (I, E, ENTRY[e], t),
                         what='LengthData<L, %s>, error %s' % (I, E)))
        if v == 'g':
            continue
        for b in (8, 16, 32, 64):
            items.append(Raw('ldu%d_%s' % (b, v), sig("nom_derive::LengthDataU%d<'a>" % b, I, E, g, w), call("nom_derive::LengthDataU%d<'a>" % b, I, E),
                             lambda e, b=b, t=tail: 'let (i, n) = match nom::number::streaming::%s_u%d(i) { Ok(x) => x, Err(e) => return Err(e) }; let n = n as usize; %s' % ('le' if e == 'le' else 'be', b, t),
                             what='LengthDataU%d, error %s' % (b, E)))
        if alloc:
            w2 = addwhere(w, "E: FromExternalError<&'a [u8], core::str::Utf8Error>") if E == 'E' else w
            items.append(Raw('str_' + v, sig('String', I, E, g, w2), call('String', I, E),
                             lambda e, E=E: 'let (i, n) = match nom::number::streaming::be_u32(i) { Ok(x) => x, Err(e) => return Err(e) }; let n = n as usize; '
                             'if i.len() < n { return Err(Err::Incomplete(Needed::Unknown)); } '
                             'match core::str::from_utf8(&i[..n]) { Ok(s) => Ok((&i[n..], String::from(s))), Err(x) => Err(Err::Error(FromExternalError::from_external_error(i, ErrorKind::MapRes, x))) }',
                             what='String, error %s' % E))
    return items


@family('C03')
def c03(res, tier, only=None):
    K.lockstep_family(res, 'w-c03', pick(ld_items(True), only), DEFAULT, opq='', opts={'mode': 'lib', 'no_context': True})
    items = pick(ld_items(False), only)
    for it in items:
        it.id += '_na'
    K.lockstep_family(res, 'w-c03n', items, NOALLOC, opq='', opts={'mode': 'lib', 'no_context': True})
