"""No unsafe code, and borrows are seen by the borrow checker (C20)."""
import json
import os
import re

from . import build, fam5
from . import check as K
from . import families as Fm
from .families import family
from .fam4 import Pair, Wit, refuse, survivors

KW = re.compile(r'''(?P<c>//[^\n]*|/\*)|(?P<s>b?c?"(?:\\.|[^"\\])*")|(?P<r>b?c?r(?P<h>\#*)".*?"(?P=h))|(?P<l>b?'(?:\\[^']*|[^'\\\n])')|(?P<i>(?:r\#)?[A-Za-z_]\w*)|(?P<o>.)''', re.S)


def rust_tokens(text):
    """(kind, text, line): c comment, s string, i identifier, o other; block comments nest"""
    pos, line = 0, 1
    while pos < len(text):
        m = KW.match(text, pos)
        k = m.lastgroup if m.lastgroup != 'h' else 'r'
        k = 'r' if m.group('r') is not None else k
        t = m.group(0)
        if k == 'c' and t == '/*':
            d, p = 1, pos + 2
            while d and p < len(text):
                if text.startswith('/*', p):
                    d, p = d + 1, p + 2
                elif text.startswith('*/', p):
                    d, p = d - 1, p + 2
                else:
                    p += 1
            t = text[pos:p]
        yield k, t, line
        line += t.count('\n')
        pos += len(t)


def sources():
    for root in ('src', 'nom-derive-impl/src'):
        for d, _, fs in sorted(os.walk(os.path.join(build.REPO, root))):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    yield os.path.join(d, f)


UNSAFE_TEXT = re.compile(r'(^|[^\w])unsafe\s*(\{|fn\b|impl\b|extern\b|trait\b|$)')


def unsafe_tokens(res):
    """the keyword anywhere in the sources (also in code the macro quotes, and under cfgs that are off here)"""
    n = 0
    for p in sources():
        rel = os.path.relpath(p, build.REPO)
        macro = rel.startswith('nom-derive-impl')
        n += 1
        for k, t, line in rust_tokens(open(p).read()):
            if k == 'i' and t == 'unsafe':
                res.violation('token_%s_%d' % (re.sub(r'\W', '_', rel), line), 'the keyword unsafe is used in %s:%d' % (rel, line), open(p).read().split('\n')[line - 1])
            if macro and k in 'sr' and UNSAFE_TEXT.search(t.strip('br#"')):
                res.violation('text_%s_%d' % (re.sub(r'\W', '_', rel), line), 'text with unsafe code in the macro crate, %s:%d' % (rel, line), t[:300])
    res.add('source_files_scanned', n)
    return n


def unsafe_facts(res, tier):
    """what the compiler sees after expansion, in the library, the macro crate and derived code"""
    build.driver_path()
    defs = fam5.definitions(tier)
    n = 0
    for scope in fam5.SCOPES:
        if scope.name not in ('std', 'alloc', 'bare'):
            continue
        crate = 'w-c20-' + scope.name
        wits = []
        for id, it in defs if scope.name == 'std' else defs[::9]:
            m = fam5.module(it, scope, id)
            if m is not None:
                wits.append(Wit(id, m, it.what or id, pre=''))
        me = crate.replace('-', '_')
        ok, errs = survivors(crate, wits, scope.toml(crate), scope.header(), facts='nom_derive,nom_derive_impl,' + me, outdir='out-c20-' + scope.name)
        for c in ('nom_derive', 'nom_derive_impl', me):
            d = json.load(open(os.path.join(build.BUILD, 'out-c20-' + scope.name, 'facts_%s.json' % c)))
            n += len(d['bodies'])
            res.cov.setdefault('bodies', {})['%s (%s)' % (c, scope.name)] = len(d['bodies'])
            for u in d['unsafe']:
                key = re.sub(r'\W', '_', '%s_%s' % (c, u['at'].rsplit('/', 1)[-1]))
                what = '%s in %s' % (u['what'], {'nom_derive': 'the library', 'nom_derive_impl': 'the macro crate'}.get(c, 'derived code'))
                det = json.dumps(u)
                if c == me:
                    src = open(os.path.join(build.BUILD, crate, 'src', 'lib.rs')).read().split('\n')
                    ln = int(u['at'].rsplit(':', 1)[1])
                    mod = [l for l in src[:ln] if re.match(r'pub mod \w+ \{', l)]
                    det += '\n' + (mod[-1] if mod else '') + '\n' + '\n'.join(src[max(0, ln - 3):ln + 8])
                res.violation(key, what, det)
        res.add('derived_definitions_scanned', len(ok))
    return n


PRE = '''    #![allow(warnings)]
    use nom_derive::*;
    use nom::IResult;
    use std::marker::PhantomData;
    pub fn g<T: ?Sized>(x: &T) {}
    pub static S: [u8; 9] = [0; 9];
    pub type Er<'e> = nom::error::Error<&'e [u8]>;
    #[derive(Debug, PartialEq, Nom)] pub struct In<'b> { #[nom(Take = "2")] pub s: &'b [u8] }
    #[derive(Debug, PartialEq)] pub struct Hand<'b> { pub s: &'b [u8] }
    impl<'b, 'a: 'b, E: nom::error::ParseError<&'a [u8]>> Parse<&'a [u8], E> for Hand<'b> {
        fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { Ok((i, Hand { s: i })) }
    }
    pub fn two<'a>(i: &'a [u8]) -> IResult<&'a [u8], &'a [u8]> { Ok((i, i)) }
    pub fn okv(x: &&[u8]) -> bool { true }
    pub fn id<'a>(i: &'a [u8]) -> &'a [u8] { i }
'''
# name -> (definition, type with the lifetime written L)
BORROW = {
    'take': ('#[derive(Nom)] pub struct X<\'b> { #[nom(Take = "2")] pub s: &\'b [u8] }', "X<L>"),
    'takebe': ('#[derive(NomBE)] pub struct X<\'b> { pub k: u16, #[nom(Take = "k")] pub s: &\'b [u8], pub z: u8 }', "X<L>"),
    'tag': ('#[derive(Nom)] pub struct X<\'b> { #[nom(Tag(b"ab"))] pub s: &\'b [u8] }', "X<L>"),
    'tuple': ('#[derive(Nom)] pub struct X<\'b>(pub u8, #[nom(Take = "2")] pub &\'b [u8]);', "X<L>"),
    'twolt': ('#[derive(Nom)] pub struct X<\'b, \'c> { #[nom(Take = "2")] pub s: &\'b [u8], #[nom(Take = "2")] pub t: &\'c [u8] }', "X<L, L>"),
    'nested': ('#[derive(Nom)] pub struct X<\'b> { pub a: In<\'b>, pub z: u8 }', "X<L>"),
    'hand': ('#[derive(Nom)] pub struct X<\'b> { pub a: Hand<\'b>, pub z: u8 }', "X<L>"),
    'opt': ('#[derive(Nom)] pub struct X<\'b> { pub a: Option<In<\'b>> }', "X<L>"),
    'vec': ('#[derive(Nom)] pub struct X<\'b> { pub a: Vec<In<\'b>> }', "X<L>"),
    'count': ('#[derive(Nom)] pub struct X<\'b> { #[nom(Count = "2")] pub a: Vec<In<\'b>> }', "X<L>"),
    'lcount': ('#[derive(Nom)] pub struct X<\'b> { #[nom(LengthCount = "nom::number::streaming::be_u8")] pub a: Vec<Hand<\'b>> }', "X<L>"),
    'arr': ('#[derive(Nom)] pub struct X<\'b> { pub a: [In<\'b>; 2] }', "X<L>"),
    'cond': ('#[derive(Nom)] pub struct X<\'b> { pub k: u8, #[nom(Cond = "k > 1", Take = "2")] pub a: Option<&\'b [u8]> }', "X<L>"),
    'map': ('#[derive(Nom)] pub struct X<\'b> { #[nom(Map = "id", Take = "2")] pub a: &\'b [u8] }', "X<L>"),
    'parse': ('#[derive(Nom)] pub struct X<\'b> { #[nom(Parse = "two")] pub a: &\'b [u8] }', "X<L>"),
    'closure': ('#[derive(Nom)] pub struct X<\'b> { #[nom(Parse = "|i| two(i)")] pub a: &\'b [u8] }', "X<L>"),
    'value': ('#[derive(Nom)] pub struct X<\'b> { pub k: u8, #[nom(Value = "i")] pub a: &\'b [u8] }', "X<L>"),
    'orig': ('#[derive(Nom)] pub struct X<\'b> { pub k: u8, #[nom(Value = "orig_i")] pub a: &\'b [u8] }', "X<L>"),
    'post': ('#[derive(Nom)] pub struct X<\'b> { #[nom(PostExec = "let k = two(i)?.1;")] pub k: u8, #[nom(Value = "k")] pub a: &\'b [u8] }'.replace('PostExec = "let k', 'PostExec = "let q').replace('"k"', '"q"'), "X<L>"),
    'complete': ('#[derive(Nom)] #[nom(Complete, Exact)] pub struct X<\'b> { #[nom(Complete, Verify = "okv(a)", Take = "2")] pub a: &\'b [u8] }', "X<L>"),
    'debug': ('#[derive(Nom)] #[nom(Debug)] pub struct X<\'b> { #[nom(Take = "2")] pub a: &\'b [u8] }', "X<L>"),
    'skip': ('#[derive(Nom)] #[nom(InputName(inp))] pub struct X<\'b> { #[nom(SkipBefore = "1", AlignAfter = "4", Take = "2")] pub a: &\'b [u8], #[nom(Move = "-1", LittleEndian)] pub z: u16 }', "X<L>"),
    'gen': ('#[derive(Nom)] pub struct X<T> { pub t: T }', "X<In<L>>"),
    'gen2': ('#[derive(Nom)] pub struct X<\'b, T> { #[nom(Take = "2")] pub s: &\'b [u8], pub t: T }', "X<L, u8>"),
    'gen3': ('#[derive(Nom)] pub struct X<\'b, T> { #[nom(Take = "2")] pub s: &\'b [u8], pub t: T }', "X<L, In<L>>"),
    'gener': ('#[derive(Nom)] #[nom(GenericErrors)] pub struct X<\'b> { #[nom(Take = "2")] pub s: &\'b [u8] }', "X<L>"),
    'whr': ('#[derive(Nom)] pub struct X<\'b, T> where T: Clone { #[nom(Take = "2")] pub s: &\'b [u8], pub t: T }', "X<L, u8>"),
    'phantom': ('#[derive(Nom)] pub struct X<\'b> { pub p: PhantomData<&\'b u8>, pub z: u8 }', "X<L>"),
    'ignore': ('#[derive(Nom)] pub struct X<\'b> { #[nom(Ignore)] pub p: Option<&\'b [u8]>, pub s: In<\'b> }', "X<L>"),
    'sel': ('#[derive(Nom)] #[nom(Selector = "u8")] pub enum X<\'b> { #[nom(Selector = "0")] A(#[nom(Take = "2")] &\'b [u8]), #[nom(Selector = "_")] B { z: u8, b: In<\'b> } }', "X<L>"),
    'selu': ('#[derive(Nom)] #[nom(Selector = "u8")] pub enum X<\'b> { #[nom(Selector = "0")] A(Hand<\'b>), #[nom(Selector = "1")] U, #[nom(Selector = "_", Parse = "two")] C(&\'b [u8]) }'.replace('C(&', 'C(#[nom(Parse = "two")] &').replace(', Parse = "two")] C', ')] C'), "X<L>"),
    'selg': ('#[derive(Nom)] #[nom(Selector = "u8", GenericErrors)] pub enum X<\'b> { #[nom(Selector = "0")] A(#[nom(Take = "2")] &\'b [u8]), #[nom(Selector = "_")] B(u8) }', "X<L>"),
    'args': ('#[derive(Nom)] #[nom(ExtraArgs(q: u8))] pub struct X<\'b> { #[nom(Take = "q")] pub s: &\'b [u8] }', "X<L>"),
}
SPECIAL = {'sel': ', 1', 'selu': ', 1', 'selg': ', 1', 'args': ', 1'}
# library types: no definition
LIB = {
    'ld8': "LengthDataU8<L>", 'ld16': "LengthDataU16<L>", 'ld32': "LengthDataU32<L>", 'ld64': "LengthDataU64<L>", 'ldg': "LengthData<u16, &L [u8]>",
    'arr': '[In<L>; 2]', 'opt': 'Option<In<L>>', 'vec': 'Vec<In<L>>', 'tup': '(In<L>, u8)', 'tup2': '(Hand<L>, In<L>)', 'in': 'In<L>', 'hand': 'Hand<L>', 'optld': 'Option<LengthDataU8<L>>',
    'vecld': 'Vec<LengthDataU16<L>>', 'arrld': '[LengthDataU8<L>; 3]',
}


def lt(ty, l):
    return re.sub(r'&L\b', '&' + l, re.sub(r'\bL\b', l, ty))


def borrow_pairs():
    out = []

    def programs(id, pre, ty, call):
        c = lambda i: call % i
        T = lambda l: lt(ty, l)
        progs = {
            'ret': ("pub fn f() -> Option<%s> { let v = vec![0u8; 9]; let (_, x) = %s.ok()?; Some(x) }" % (T("'static"), c('&v[..]')),
                    "pub fn f() -> Option<%s> { let (_, x) = %s.ok()?; Some(x) }" % (T("'static"), c('&S[..]')), 'a value outlives the local buffer it was parsed from'),
            'stat': ("pub fn f<'z>(v: &'z [u8]) -> Option<%s> { let (_, x) = %s.ok()?; Some(x) }" % (T("'static"), c('v')),
                     "pub fn f<'z>(v: &'z [u8]) -> Option<%s> { let (_, x) = %s.ok()?; Some(x) }" % (T("'z"), c('v')), "a value borrowed from the input becomes 'static"),
            'long': ("pub fn f<'s, 'l: 's>(v: &'s [u8], w: &'l [u8]) -> Option<%s> { let (_, x) = %s.ok()?; Some(x) }" % (T("'l"), c('v')),
                     "pub fn f<'s, 'l: 's>(v: &'s [u8], w: &'l [u8]) -> Option<%s> { let (_, x) = %s.ok()?; Some(x) }" % (T("'l"), c('w')), 'a value lives longer than its input'),
            'push': ("pub fn f(mut v: Vec<u8>) { if let Ok((_, x)) = %s { let x: %s = x; v.push(1); g(&x); } }" % (c('&v[..]'), T("'_")),
                     "pub fn f(mut v: Vec<u8>) { if let Ok((_, x)) = %s { let x: %s = x; g(&x); } v.push(1); }" % (c('&v[..]'), T("'_")), 'the buffer grows while the value is alive'),
            'index': ("pub fn f(mut v: [u8; 9]) { if let Ok((_, x)) = %s { v[0] = 1; g(&x); } }" % c('&v[..]'),
                      "pub fn f(mut v: [u8; 9]) { if let Ok((_, x)) = %s { g(&x); } v[0] = 1; }" % c('&v[..]'), 'the buffer changes while the value is alive'),
            'drop': ("pub fn f(v: Vec<u8>) { if let Ok((_, x)) = %s { drop(v); g(&x); } }" % c('&v[..]'),
                     "pub fn f(v: Vec<u8>) { if let Ok((_, x)) = %s { g(&x); } drop(v); }" % c('&v[..]'), 'the buffer is dropped while the value is alive'),
            'scope': ("pub fn f() { let x; { let b = [0u8; 9]; x = %s.ok(); } g(&x); }" % c('&b[..]'),
                      "pub fn f() { let x; { let b = [0u8; 9]; x = %s.ok(); g(&x); } }" % c('&b[..]'), 'the value is used after the scope of its input'),
            'rest': ("pub fn f(mut v: Vec<u8>) { if let Ok((r, _)) = %s { v.clear(); g(r); } }" % c('&v[..]'),
                     "pub fn f(mut v: Vec<u8>) { if let Ok((r, _)) = %s { g(r); } v.clear(); }" % c('&v[..]'), 'the remainder is used after the buffer changed'),
        }
        for k, (bad, good, what) in progs.items():
            out.append(Pair('%s_%s' % (id, k), pre + '\n    ' + bad, pre + '\n    ' + good, what, pre=PRE))
    for n, (d, ty) in BORROW.items():
        for e in ('parse', 'parse_be', 'parse_le'):
            if n in SPECIAL:
                x = re.match(r'\w+', ty).group(0)
                anns = "::<Er<'_>>" if n == 'selg' else ''
                programs('d_%s_%s' % (n, e), '    ' + d, ty, "X::%s%s(%%s%s)" % (e, anns, SPECIAL[n]))
            else:
                t = lt(ty, "'_").replace("'static", "'_")
                programs('d_%s_%s' % (n, e), '    ' + d, ty, "<%s as Parse<&[u8], Er<'_>>>::%s(%%s)" % (t, e))
    for n, ty in LIB.items():
        for e in ('parse', 'parse_be', 'parse_le'):
            programs('l_%s_%s' % (n, e), '', ty, "<%s as Parse<&[u8], Er<'_>>>::%s(%%s)" % (lt(ty, "'_"), e))
    return out


@family('C20')
def c20(res, tier, only=None):
    if only is None:
        n = unsafe_tokens(res) + unsafe_facts(res, tier)
        res.add('obligations', n)
    refuse(res, 'w-c20', [p for p in borrow_pairs() if only is None or only in p.id])


Fm.LEVELS['C20'] = 'other'
Fm.RULES['C20'] = ('no unsafe block, fn, impl, trait, extern block, static mut or asm in any body of the library, the macro crate or derived code, and no unsafe keyword in their sources or '
                   'in text the macro could emit; every program in which a parsed value or remainder outlives its input, or the input changes meanwhile, must be refused')
Fm.EXPLAIN['C20'] = ('type-checked program facts (HIR/MIR after expansion, three feature configurations) and a token scan of the sources for unsafe code; compile-fail witnesses with compiling '
                     'twins for the borrows of derived and library types at every entry point (the borrow checker decides)')
