"""Witness generator: from an item description, emit (a) the derive input, (b) an independent
hand-expanded reference parser written from the documentation, (c) the shims that tie both to the
three entry points."""
import re

OPQ = r'''
#[allow(dead_code, unused_variables)]
pub mod opq {
    use nom::error::{ErrorKind, FromExternalError, ParseError};
    use nom::number::Endianness;
    use nom::IResult;
    use nom_derive::Parse;

    macro_rules! ty {
        ($($t:ident),*) => {$(
            #[derive(PartialEq, Eq, Debug, Clone, Default)]
            pub struct $t { pub x: u8 }
            impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for $t {
                fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { loop {} }
                fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { loop {} }
                fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { loop {} }
            }
        )*}
    }
    ty!(T1, T2, T3);
    /// only `parse` is defined
    #[derive(PartialEq, Eq, Debug, Clone, Default)]
    pub struct TP { pub x: u8 }
    impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for TP {
        fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { loop {} }
    }
    /// borrows from the input
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct TB<'b> { pub x: &'b [u8] }
    impl<'b, 'a: 'b, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for TB<'b> {
        fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { loop {} }
        fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { loop {} }
        fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { loop {} }
    }
    impl From<T1> for T2 { fn from(x: T1) -> T2 { loop {} } }

    /// an error type nothing is known about
    #[derive(Debug)]
    pub struct E1<'a> { pub x: &'a [u8] }
    impl<'a> ParseError<&'a [u8]> for E1<'a> {
        fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self { loop {} }
        fn append(i: &'a [u8], k: ErrorKind, o: Self) -> Self { loop {} }
        fn or(self, other: Self) -> Self { loop {} }
    }
    impl<'a, X> FromExternalError<&'a [u8], X> for E1<'a> {
        fn from_external_error(i: &'a [u8], k: ErrorKind, e: X) -> Self { loop {} }
    }
    #[derive(Debug)]
    pub struct E2<'a> { pub x: &'a [u8] }
    impl<'a> ParseError<&'a [u8]> for E2<'a> {
        fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self { loop {} }
        fn append(i: &'a [u8], k: ErrorKind, o: Self) -> Self { loop {} }
    }
    impl<'a> From<E2<'a>> for nom::error::Error<&'a [u8]> { fn from(e: E2<'a>) -> Self { loop {} } }
    impl<'a> From<E2<'a>> for E1<'a> { fn from(e: E2<'a>) -> Self { loop {} } }

    pub fn n1() -> usize { loop {} }
    pub fn n2() -> usize { loop {} }
    pub fn nb() -> u8 { loop {} }
    pub fn nh() -> u16 { loop {} }
    pub fn d1() -> isize { loop {} }
    pub fn d2() -> isize { loop {} }
    pub fn di() -> i32 { loop {} }
    pub fn b1() -> bool { loop {} }
    pub fn b2() -> bool { loop {} }
    pub fn e1() -> Endianness { loop {} }
    pub fn e2() -> Endianness { loop {} }
    pub fn vf<T: ?Sized>(x: &T) -> bool { loop {} }
    pub fn vg<T: ?Sized>(x: &T) -> bool { loop {} }
    pub fn fm<T>(x: T) -> T { loop {} }
    pub fn fm2<T>(x: T) -> T { loop {} }
    pub fn f1(x: T1) -> T1 { loop {} }
    pub fn f2(x: T1) -> T2 { loop {} }
    pub fn f3(x: T2) -> T3 { loop {} }
    pub fn fu(x: u16) -> u16 { loop {} }
    pub fn fv(x: Vec<T1>) -> Vec<T1> { loop {} }
    pub fn fs<'a>(x: &'a [u8]) -> &'a [u8] { loop {} }
    pub fn val1() -> T1 { loop {} }
    pub fn val2() -> u32 { loop {} }
    pub fn tg() -> &'static [u8] { loop {} }
    pub fn p1<'a>(i: &'a [u8]) -> IResult<&'a [u8], T1> { loop {} }
    pub fn p2<'a>(i: &'a [u8]) -> IResult<&'a [u8], T2> { loop {} }
    pub fn pg<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], T1, E> { loop {} }
    pub fn pe2<'a>(i: &'a [u8]) -> IResult<&'a [u8], T1, E2<'a>> { loop {} }
    pub fn pn<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], usize, E> { loop {} }
    pub fn pn2<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u16, E> { loop {} }
    pub fn px<'a>(i: &'a [u8], x: u8) -> IResult<&'a [u8], T1> { loop {} }
    pub fn px2<'a, X>(i: &'a [u8], x: &'a X) -> IResult<&'a [u8], T1> { loop {} }

    // calls recorded in the trace, in order
    pub fn eff_a() { loop {} }
    pub fn eff_b() { loop {} }
    pub fn eff_c() { loop {} }
    pub fn eff_i(i: &[u8]) { loop {} }
    pub fn eff_v<T: ?Sized>(x: &T) { loop {} }
    pub fn eff_n() -> usize { loop {} }
    pub fn eff_bool() -> bool { loop {} }
    pub fn eff_end() -> Endianness { loop {} }
    pub fn eff_x() -> u8 { loop {} }
    /// outcome left open by the specification (anything but a panic)
    pub fn unspecified() -> ! { loop {} }
}
'''

NOARG = {'BigEndian', 'LittleEndian', 'Complete', 'Debug', 'DebugDerive', 'Exact', 'GenericErrors', 'Ignore',
         'Default', 'Into'}
PRE = {'PreExec', 'AlignBefore', 'SkipBefore', 'Move', 'MoveAbs', 'ErrorIf', 'SetEndian'}
POST = {'PostExec', 'AlignAfter', 'SkipAfter', 'Exact'}
STMT = {'PreExec', 'PostExec'}


class A:
    """one nom attribute; style 's': Name = "arg", 'p': Name(arg)"""

    def __init__(self, name, arg=None, style='s'):
        self.name, self.arg, self.style = name, arg, style

    def text(self):
        if self.arg is None:
            return self.name
        if self.style == 's' and self.name != 'ExtraArgs':
            return '%s = "%s"' % (self.name, self.arg.replace('\\', '\\\\').replace('"', '\\"'))
        return '%s(%s)' % (self.name, self.arg)


def attrs_text(attrs, split, ind):
    if not attrs:
        return ''
    if split:
        return ''.join('%s#[nom(%s)]\n' % (ind, a.text()) for a in attrs)
    return '%s#[nom(%s)]\n' % (ind, ', '.join(a.text() for a in attrs))


class F:
    def __init__(self, name, ty, *attrs, split=False):
        self.name, self.ty, self.attrs, self.split = name, ty, list(attrs), split


class V:
    def __init__(self, name, sel, fields=(), shape='named', attrs=(), disc=None, split=False):
        self.name, self.sel, self.fields, self.shape = name, sel, list(fields), shape
        self.attrs, self.disc, self.split = list(attrs), disc, split
        if not self.fields and shape == 'named':
            self.shape = 'unit'


class Item:
    def __init__(self, id, fields=(), kind='struct', derive='Nom', top=(), shape='named', variants=(),
                 generics='', inst='', where='', sel=None, extra=(), err=None, repr=None, entries=('parse', 'be', 'le'),
                 debug=False, imports='use nom_derive::*; use nom::*; use super::opq::*;', pre_items='', opts=None,
                 split=False, what='', controls=(), name='X', rust_derives='', sel_mod='', anchors=()):
        self.__dict__.update(locals())
        self.fields, self.variants, self.top = list(fields), list(variants), list(top)
        self.opts = dict(opts or {})
        if not self.fields and kind == 'struct' and shape == 'named':
            self.shape = 'unit'
        if any(a.name == 'Debug' for a in self.top) or any(a.name == 'Debug' for f in self.fields for a in f.attrs) \
                or any(a.name == 'Debug' for v in self.variants for f in v.fields for a in f.attrs):
            self.opts.setdefault('sa', {})['allow_print'] = True
        if any(a.name == 'GenericErrors' for a in self.top) and err is None:
            self.err = 'E1'
        self.has_err = self.err is not None
        self.special = bool(self.sel) or bool(self.extra)

    # ------------------------------------------------------------------ derive input
    def etype(self, lt="'a"):
        if self.err == 'E1':
            return 'super::opq::E1<%s>' % lt
        return 'nom::error::Error<&%s [u8]>' % lt

    def derive_input(self):
        top = list(self.top)
        if self.sel:
            top.append(A('Selector', self.sel, 's'))
        if self.extra:
            top.append(A('ExtraArgs', ', '.join('%s: %s' % e for e in self.extra)))
        o = '    #[derive(%s)]\n' % ', '.join([self.derive] + ([self.rust_derives] if self.rust_derives else []))
        if self.repr:
            o += '    #[repr(%s)]\n' % self.repr
        o += attrs_text(top, self.split, '    ')
        if self.kind == 'struct':
            o += '    pub struct %s%s%s' % (self.name, self.generics,
                                            (' ' + self.where) if self.where and self.shape == 'named' else '')
            o += self.body(self.fields, self.shape, 'pub ', self.where if self.shape != 'named' else '', '    ')
            if self.shape not in ('named', 'brace'):
                o += ';\n'
            return o
        o += '    pub enum %s%s %s {\n' % (self.name, self.generics, self.where)
        for v in self.variants:
            va = list(v.attrs)
            if self.kind == 'enum' and v.sel is not None:
                va.insert(getattr(v, 'selpos', 0), A('Selector', v.sel, getattr(v, 'selstyle', 's')))
            o += attrs_text(va, v.split, '        ')
            o += '        ' + v.name + self.body(v.fields, v.shape, '', '', '        ').rstrip('\n')
            if v.disc is not None:
                o += ' = %s' % v.disc
            o += ',\n'
        return o + '    }\n'

    def body(self, fields, shape, vis, where, ind):
        if shape == 'unit':
            return ' ' + where if where else ''
        if shape == 'brace':
            return ' {}\n'
        if shape == 'tuple':
            return '(\n' + ''.join(attrs_text(f.attrs, f.split, ind + '    ') + '%s    %s%s,\n' % (ind, vis, f.ty)
                                   for f in fields) + ind + ')' + (' ' + where if where else '')
        return ' {\n' + ''.join(attrs_text(f.attrs, f.split, ind + '    ') + '%s    %s%s: %s,\n' % (ind, vis, f.name, f.ty)
                                for f in fields) + ind + '}\n'

    # ------------------------------------------------------------------ reference
    def object_endian(self, entry):
        for a in self.top:
            if a.name == 'BigEndian':
                return 'be'
            if a.name == 'LittleEndian':
                return 'le'
            if a.name == 'SetEndian':
                return 'rt'
        if self.derive == 'NomBE':
            return 'be'
        if self.derive == 'NomLE':
            return 'le'
        return 'be' if entry == 'parse' else entry

    def rexpr(self, f, attrs, ty, en, E=None):
        """Rust expression of type IResult, reading `i`"""
        E = E or self.etype()
        if attrs:
            a, rest = attrs[0], attrs[1:]
            n, arg = a.name, a.arg
            if n == 'Complete':
                return complete(self.rexpr(f, rest, ty, en, E), E)
            if n == 'Debug':
                return self.rexpr(f, rest, ty, en, E)
            if n in ('Cond', 'If'):
                x = self.rexpr(f, rest, peel(ty, 'Option'), en, E)
                return ('(if %s { match %s { Ok((__r, __v)) => Ok((__r, Some(__v))), Err(__e) => Err(__e) } } '
                        'else { Ok((i, None)) })' % (arg, x))
            if n == 'Count':
                x = self.rexpr(f, rest, peel(ty, 'Vec'), en, E)
                return 'nom::Parser::parse(&mut nom::multi::count(|i: &\'a [u8]| %s, (%s) as usize), i)' % (x, arg)
            if n == 'LengthCount':
                x = self.rexpr(f, rest, peel(ty, 'Vec'), en, E)
                return 'nom::Parser::parse(&mut nom::multi::length_count(%s, |i: &\'a [u8]| %s), i)' % (arg, x)
            if n == 'Map':
                x = self.rexpr(f, rest, ty, en, E)
                return '(match %s { Ok((__r, __v)) => Ok((__r, (%s)(__v))), Err(__e) => Err(__e) })' % (x, arg)
            if n == 'Into':
                x = self.rexpr(f, rest, ty, en, '_')
                return ('(match %s { Ok((__r, __v)) => Ok((__r, core::convert::Into::into(__v))), '
                        'Err(nom::Err::Error(__e)) => Err(nom::Err::Error(core::convert::Into::into(__e))), '
                        'Err(nom::Err::Failure(__e)) => Err(nom::Err::Failure(core::convert::Into::into(__e))), '
                        'Err(nom::Err::Incomplete(__n)) => Err(nom::Err::Incomplete(__n)) })' % x)
            if n == 'Verify':
                x = self.rexpr(f, rest, ty, en, E)
                return ('(match %s { Ok((__r, __v)) => { let __ok = { let %s = &__v; %s }; if __ok { Ok((__r, __v)) } '
                        'else { Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Verify))) } } '
                        'Err(__e) => Err(__e) })' % (x, f.name, arg))
            if n == 'Tag':
                return 'nom::bytes::streaming::tag::<_, &\'a [u8], %s>(&(%s)[..])(i)' % (E, arg)
            if n == 'Take':
                return ('{ let __n: usize = (%s) as usize; if i.len() < __n { '
                        'Err(nom::Err::Incomplete(nom::Needed::Unknown)) } else { Ok((&i[__n..], &i[..__n])) } }' % arg)
            if n == 'Value':
                return 'Ok((i, %s))' % arg
            if n == 'Parse':
                return 'nom::Parser::parse(&mut (%s), i)' % arg
            if n in ('Ignore', 'Default'):
                if ty.startswith('Option<'):
                    return 'Ok((i, None))'
                if ty.startswith('Vec<'):
                    return 'Ok((i, Vec::new()))'
                if ty.startswith('PhantomData'):
                    return 'Ok((i, core::marker::PhantomData))'
                return 'Ok((i, <%s as core::default::Default>::default()))' % self.subst(ty)
            return self.rexpr(f, rest, ty, en, E)
        if ty.startswith('PhantomData'):
            return 'Ok((i, core::marker::PhantomData))'
        call = '<%s as nom_derive::Parse<&\'a [u8], %s>>::parse_%%s(i)' % (self.subst(ty), E)
        if en == 'rt':
            return '(if __rf_en == nom::number::Endianness::Big { %s } else { %s })' % (call % 'be', call % 'le')
        return call % en

    def directives(self, attrs, which):
        o = ''
        for a in attrs:
            if a.name not in which:
                continue
            o += '            ' + directive(a) + '\n'
        return o

    def ref_fields(self, fields, en, shape):
        o = ''
        complete_all = any(a.name == 'Complete' for a in self.top)
        for k, f in enumerate(fields):
            nm = f.name if shape == 'named' else '_%d' % k
            fe = en
            for a in f.attrs:
                if a.name == 'BigEndian':
                    fe = 'be'
                elif a.name == 'LittleEndian':
                    fe = 'le'
                elif a.name == 'SetEndian':
                    fe = en = 'rt'
            o += self.directives(f.attrs, PRE)
            x = self.rexpr(F(nm, f.ty), f.attrs, f.ty, fe)
            if complete_all:
                x = complete(x, self.etype())
            o += '            let __p: nom::IResult<&\'a [u8], %s, %s> = %s;\n' % (self.subst(f.ty), self.etype(), x)
            o += '            let (i, %s) = match __p { Ok(__x) => __x, Err(__e) => return Err(__e) };\n' % nm
            o += self.directives(f.attrs, POST)
        return o

    def subst(self, ty):
        for a, b in self.opts.get('subst', {}).items():
            ty = re.sub(a, b, ty)
        return ty

    def build(self, path, fields, shape):
        if shape == 'unit':
            return path
        if shape == 'brace':
            return path + ' {}'
        if shape == 'tuple':
            return '%s(%s)' % (path, ', '.join('_%d' % k for k in range(len(fields))))
        return '%s { %s }' % (path, ', '.join(f.name for f in fields))

    def ref_body(self, entry):
        en = self.object_endian(entry)
        inp = next((a.arg for a in self.top if a.name == 'InputName'), 'i')
        fix = (lambda s: s)
        o = '            let i: &\'a [u8] = orig_i;\n'
        o += self.directives(self.top, PRE)
        if self.kind == 'struct':
            o += self.ref_fields(self.fields, en, self.shape)
            o += '            let struct_def = %s;\n' % self.build(self.name, self.fields, self.shape)
            o += self.directives(self.top, POST)
            o += '            Ok((i, struct_def))\n'
        elif self.kind == 'enum':
            o += '            let (i, enum_def) = match selector {\n'
            vs = [v for v in self.variants if v.sel != '_'] + [v for v in self.variants if v.sel == '_']
            for v in vs:
                o += '            %s => {\n' % v.sel
                o += self.directives(v.attrs, PRE)
                if v.shape == 'unit':
                    p = [a for a in v.attrs if a.name == 'Parse']
                    if p:
                        x = self.rexpr(F('_', '()'), p[:1], '()', en)
                        if any(a.name == 'Complete' for a in self.top):
                            x = complete(x, self.etype())
                        o += '            let __p: nom::IResult<&\'a [u8], _, %s> = %s;\n' % (self.etype(), x)
                        o += '            let (i, _) = match __p { Ok(__x) => __x, Err(__e) => return Err(__e) };\n'
                else:
                    o += self.ref_fields(v.fields, en, v.shape)
                o += self.directives(v.attrs, POST)
                o += '            (i, %s)\n            }\n' % self.build('%s::%s' % (self.name, v.name), v.fields, v.shape)
            if not any(v.sel == '_' for v in vs):
                o += ('            _ => return Err(nom::Err::Error(nom::error::make_error(i, '
                      'nom::error::ErrorKind::Switch))),\n')
            o += '            };\n'
            o += self.directives(self.top, POST)
            o += '            Ok((i, enum_def))\n'
        else:
            x = '<%s as nom_derive::Parse<&\'a [u8], %s>>::parse_%s(i)' % (self.repr, self.etype(), en)
            if en == 'rt':
                raise ValueError('SetEndian on fieldless enum')
            if any(a.name == 'Complete' for a in self.top):
                x = complete(x, self.etype())
            o += '            let __p: nom::IResult<&\'a [u8], %s, %s> = %s;\n' % (self.repr, self.etype(), x)
            o += '            let (i, __d) = match __p { Ok(__x) => __x, Err(__e) => return Err(__e) };\n'
            o += '            let enum_def = '
            prev = -1
            for v in self.variants:
                if v.disc is None:
                    prev = None if prev is None else prev + 1
                else:
                    prev = int(v.disc, 0) if re.match(r'^-?(0x)?[0-9a-f]+$', v.disc) else None
                d = '%s::%s as %s' % (self.name, v.name, self.repr) if prev is None else str(prev)
                o += 'if __d == %s { %s::%s } else ' % (d, self.name, v.name)
            o += ('{ return Err(nom::Err::Error(nom::error::make_error(orig_i, nom::error::ErrorKind::Switch))); };\n')
            o += self.directives(self.top, POST)
            o += '            Ok((i, enum_def))\n'
        o = self.subst(o)
        if inp != 'i':
            o = re.sub(r'\borig_i\b', 'orig_' + inp, o)
            o = re.sub(r'\bi\b', inp, o)
        return o

    def roots(self):
        return self.entries

    def emit(self, modname):
        inp = next((a.arg for a in self.top if a.name == 'InputName'), 'i')
        E = self.etype()
        args = "orig_%s: &'a [u8]" % inp
        call = 'orig_' + inp
        if self.sel:
            args += ', selector: %s' % self.sel
            call += ', selector'
        for n, t in self.extra:
            args += ', %s: %s' % (n, t)
            call += ', ' + n.replace('mut ', '')
        self_ty = self.name + self.inst
        o = 'pub mod %s {\n    #![allow(warnings)]\n    %s\n    %s\n' % (modname, self.imports, self.pre_items)
        o += self.derive_input()
        for e in self.entries:
            fn = {'parse': 'parse', 'be': 'parse_be', 'le': 'parse_le'}[e]
            ret = "nom::IResult<&'a [u8], %s, %s>" % (self_ty, E)
            if self.special:
                turbo = ''
                c = '%s::%s%s(%s)' % (self_ty.replace('<', '::<') if self.inst else self_ty, fn, turbo, call)
            else:
                c = "<%s as nom_derive::Parse<&'a [u8], %s>>::%s(%s)" % (self_ty, E, fn, call)
            o += "    pub fn im_%s_%s<'a>(%s) -> %s { %s }\n" % (modname, e, args, ret, c)
            o += "    pub fn rf_%s_%s<'a>(%s) -> %s {\n%s    }\n" % (modname, e, args, ret, self.ref_body(e))
        return o + '}\n'


def complete(x, E):
    return ('(match %s { Err(nom::Err::Incomplete(_)) => Err(nom::Err::Error(nom::error::ParseError::from_error_kind('
            'i, nom::error::ErrorKind::Complete))), __c => __c })' % x)


def peel(ty, outer):
    m = re.match(r'^%s\s*<(.*)>$' % outer, ty, re.S)
    if not m:
        raise ValueError('%s is not %s' % (ty, outer))
    return m.group(1).strip()


SKIP = ('let i = { let __k: usize = %s; if i.len() < __k { return Err(nom::Err::Incomplete(nom::Needed::Unknown)); } '
        '&i[__k..] };')


def directive(a):
    n, arg = a.name, a.arg
    if n in STMT:
        return arg
    if n == 'ErrorIf':
        return ('if %s { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Verify))); }' % arg)
    if n == 'Exact':
        return ('if !i.is_empty() { return Err(nom::Err::Error(nom::error::make_error(i, '
                'nom::error::ErrorKind::Verify))); }')
    if n == 'SetEndian':
        return 'let __rf_en: nom::number::Endianness = %s;' % arg
    if n in ('SkipBefore', 'SkipAfter'):
        return SKIP % ('(%s) as usize' % arg)
    if n in ('AlignBefore', 'AlignAfter'):
        return ('let i = { let __al: usize = (%s) as usize; if __al == 0 { super::opq::unspecified(); } '
                'let __off: usize = orig_i.len() - i.len(); let __r = __off %% __al; '
                'let __k: usize = if __r == 0 { 0 } else { __al - __r }; '
                'if i.len() < __k { return Err(nom::Err::Incomplete(nom::Needed::Unknown)); } &i[__k..] };' % arg)
    if n == 'Move':
        return ('let i = { let __d: isize = (%s) as isize; let __pos: usize = orig_i.len() - i.len(); '
                'let __t: i128 = __pos as i128 + __d as i128; '
                'if __t < 0 { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::TooLarge))); } '
                'if __t > orig_i.len() as i128 { return Err(nom::Err::Incomplete(nom::Needed::Unknown)); } '
                '&orig_i[__t as usize..] };' % arg)
    if n == 'MoveAbs':
        return ('let i = { let __t: usize = (%s) as usize; if __t > orig_i.len() { '
                'return Err(nom::Err::Incomplete(nom::Needed::Unknown)); } &orig_i[__t..] };' % arg)
    raise ValueError(n)
