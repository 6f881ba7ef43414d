"""Where derived code compiles (C19)."""
import concurrent.futures
import json
import os
import re

from . import build, cross, gen
from . import check as K
from . import families as Fm
from .families import family
from .fam3 import collected
from .fam4 import Wit, survivors

OPQ_NAMES = sorted(set(re.findall(r'pub (?:fn|struct) (\w+)', gen.OPQ)) | {'T1', 'T2', 'T3'})
# names a user scope may well have, none of which has anything to do with nom
HOSTILE = '''
    pub type Result<T> = core::result::Result<T, u8>; pub type IResult<T> = T; pub struct Error; pub struct ErrorKind; pub struct Needed;
    pub struct Endianness; pub struct Parser; pub struct NomError; pub struct InputSlice; pub struct ParseError; pub struct Slice; pub struct Big; pub struct Little;
    pub fn take() {} pub fn tag() {} pub fn count() {} pub fn map() {} pub fn cond() {} pub fn verify() {} pub fn complete() {} pub fn length_count() {} pub fn many0() {}
    pub fn be_u8() {} pub fn be_u16() {} pub fn le_u16() {} pub fn le_u32() {} pub fn be_u32() {} pub fn parse() {} pub fn parse_be() {} pub fn parse_le() {} pub fn make_error() {} pub fn dbg_dmp() {}
    pub mod combinator {} pub mod error {} pub mod multi {} pub mod number {} pub mod bytes {} pub mod streaming {} pub mod traits {} pub mod helpers {} pub mod sequence {}
    pub mod std {} pub mod nom_derive_impl {}
    macro_rules! try_parse { () => {} } macro_rules! error_position { () => {} } macro_rules! do_parse { () => {} }
'''


class Scope:
    def __init__(self, name, edition, std, alloc, hostile=False):
        self.name, self.edition, self.std, self.alloc, self.hostile = name, edition, std, alloc, hostile

    def toml(self, crate):
        feats = ['std'] if self.std else ['alloc'] if self.alloc else []
        f = ', '.join('"%s"' % x for x in feats)
        return build.cargo_toml(crate, ', default-features = false, features = [%s]' % f,
                                'nom = { version = "8", default-features = false, features = [%s] }' % f, edition=self.edition)

    def header(self):
        h = '' if self.std else '#![no_std]\n'
        if self.alloc:
            h += 'extern crate alloc;\n'
        opq = gen.OPQ
        if self.alloc:
            opq = opq.replace('use nom_derive::Parse;', 'use nom_derive::Parse; use alloc::vec::Vec;', 1)
        else:
            # without alloc, arrays want elements that are Default + Copy
            opq = '\n'.join(l for l in opq.split('\n') if 'Vec<' not in l).replace('Clone, Default', 'Clone, Copy, Default')
        return h + opq


SCOPES = [Scope('std', '2021', True, True), Scope('std18', '2018', True, True, True), Scope('alloc', '2018', False, True), Scope('alloc24', '2024', False, True, True),
          Scope('bare', '2021', False, False), Scope('bare24', '2024', False, False, True)]


def definitions(tier):
    """[(id, definition, what)]: what the user writes, for every definition of the other families"""
    out = []
    for p in ('C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15'):
        for crate, items, cfg, opq, opts in collected([p], tier):
            for it in items:
                if isinstance(it, gen.Item):
                    out.append(('%s_%s' % (crate[2:].replace('-', '_'), it.id), it))
    its, _ = cross.coverage(1200 if tier == 'thorough' else 150, seed=19, pool=6)
    out += [('cx_' + it.id, it) for it in its]
    return out


def module(it, scope, id):
    """the definition, in a module with as few names as it needs; None: outside this scope"""
    body = '    ' + it.pre_items.replace('\n', '\n    ') + '\n' + it.derive_input()
    if re.search(r'\bDebug\b', re.sub(r'#\[derive\([^)]*\)\]', '', body)) and not scope.std:
        return None
    ids = set(re.findall(r'[A-Za-z_]\w*', body))
    needs_alloc = ids & {'Vec', 'String', 'Box', 'Count', 'LengthCount', 'fv'}
    if needs_alloc and not scope.alloc:
        return None
    defined = set(re.findall(r'(?:struct|enum|fn|type|const|mod|as) (\w+)', body))
    imp = ['use nom_derive::{%s};' % ', '.join(['Parse'] + [d for d in ('Nom', 'NomBE', 'NomLE') if d in ids])]
    names = [n for n in OPQ_NAMES if n in ids and n not in defined and not (n == 'fv' and not scope.alloc)]
    if names:
        imp.append('use super::opq::{%s};' % ', '.join(names))
    if not scope.std:
        for n, p in (('Vec', 'alloc::vec::Vec'), ('String', 'alloc::string::String'), ('Box', 'alloc::boxed::Box')):
            if n in ids and n not in defined:
                imp.append('use %s;' % p)
    if 'PhantomData' in ids and 'marker::PhantomData' not in body:
        imp.append('use core::marker::PhantomData;')
    for n in ('IResult',):
        if n in ids and n not in defined and not scope.hostile:
            imp.append('use nom::%s;' % n)
    h = ''
    if scope.hostile:
        h = '\n'.join(hostile_items(ids))
    return '    #![allow(warnings)]\n    %s\n%s\n%s' % (' '.join(imp), h, body)


def hostile_items(ids):
    """the names of HOSTILE the definition does not itself use"""
    out = []
    for x in re.findall(r'pub [^;{]*(?:;|\{\})|macro_rules! [^}]*\} \}', HOSTILE):
        n = re.match(r'(?:pub \w+|macro_rules!) (\w+)', x).group(1)
        if n not in ids:
            out.append('    ' + x)
    return out


def run_scope(scope, defs, tier):
    crate = 'w-c19-' + scope.name
    wits = []
    for k, (id, it) in enumerate(defs):
        if tier == 'quick' and scope.name not in ('alloc', 'bare') and k % 3:
            continue
        m = module(it, scope, id)
        if m is not None:
            wits.append(Wit(id, m, it.what or id, pre=''))
    ok, errs = survivors(crate, wits, scope.toml(crate), scope.header(), facts='nom_derive,' + crate.replace('-', '_'), target='target-c19-' + scope.name, outdir='out-' + scope.name)
    ext = {}
    for c in ('nom_derive', crate.replace('-', '_')):
        p = os.path.join(build.BUILD, 'out-' + scope.name, 'facts_%s.json' % c)
        ext[c] = json.load(open(p))['externs']
    return scope, wits, ok, errs, ext


@family('C19')
def c19(res, tier, only=None):
    build.driver_path()
    defs = [d for d in definitions(tier) if only is None or only in d[0]]
    ids = [d[0] for d in defs]
    assert len(set(ids)) == len(ids)
    failed = {}
    with concurrent.futures.ThreadPoolExecutor(len(SCOPES)) as ex:
        for scope, wits, ok, errs, ext in ex.map(lambda s: run_scope(s, defs, tier), SCOPES):
            res.add('obligations', len(wits) + len(ext))
            res.cov.setdefault('scopes', {})[scope.name] = {'edition': scope.edition, 'no_std': not scope.std, 'alloc': scope.alloc, 'other_names_in_scope': scope.hostile,
                                                           'definitions': len(wits), 'crates_linked': ext}
            byid = {w.id: w for w in wits}
            for i, e in errs.items():
                failed.setdefault(i, []).append((scope, byid[i], e))
            if not scope.std:
                for c, xs in ext.items():
                    if 'std' in xs:
                        res.violation('links_std_%s_%s' % (c, scope.name), '%s links std although its std feature is off' % c, 'crates loaded: %s' % xs)
            for w in wits[7::max(1, len(wits) // 2)][:1]:
                res.samples.append({'scope': scope.name, 'module': w.body})
    for i, l in failed.items():
        res.violation(i, 'does not compile in a user scope (%s): %s' % (', '.join(s.name for s, _, _ in l), l[0][1].what),
                      l[0][1].body + '\n' + '\n'.join(l[0][2])[:2500])


Fm.LEVELS['C19'] = 'other'
Fm.RULES['C19'] = ('every definition must type-check in each scope, where only the derive macro, Parse and the names its attributes use are imported; without the std '
                   'feature neither nom_derive nor the user crate may load std')
Fm.EXPLAIN['C19'] = ('compile witnesses: the derive inputs of all other families and of the feature combinations, put into modules with minimal imports, '
                     'are type-checked in crates with std, with no_std + alloc and with no_std alone, in three editions, also with unrelated items that have the names nom uses; '
                     'the crates loaded by nom_derive and by the witness are read from the compiler.')
