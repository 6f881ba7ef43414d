"""Families on absence of panics (C17) and on stability under more input (C22)."""
import re

from . import check as K
from . import cross, stab
from . import families as Fm
from .families import family, pick, hash_pick, DEFAULT_CFG as DEFAULT, NOALLOC_CFG as NOALLOC
from .gen import Item


def collected(props, tier):
    """the witnesses of other properties: [(items, config, opq, opts)]"""
    out = []
    real, realx = K.lockstep_family, cross.check
    try:
        K.lockstep_family = lambda res, crate, items, cfg=K.DEFAULT, opq=None, opts=None, **kw: out.append((crate, list(items), cfg, opq, opts or {})) or {}
        cross.check = lambda *a, **k: None
        for p in props:
            Fm.FAMILIES[p](K.Result(p), tier)
    finally:
        K.lockstep_family, cross.check = real, realx
    return out


# ---------------------------------------------------------------------------------------------- C17
@family('C17')
def c17(res, tier, only=None):
    big = tier == 'thorough'
    share = {'C10': 1, 'C07': 3, 'C12': 1, 'C13': 3, 'C09': 3, 'C11': 3, 'C14': 4, 'C01': 1, 'C02': 1, 'C03': 1}
    groups = {}
    for p in share:
        for crate, items, cfg, opq, opts in collected([p], tier):
            keep = []
            for n, it in enumerate(items):
                if not big and n % share[p]:
                    continue
                it.id = crate[2:].replace('-', '_') + '_' + it.id
                it.controls = ()
                if not big and len(it.entries) > 1:
                    it.entries = tuple(it.entries)[n % len(it.entries):][:1]
                it.opts.setdefault('sa', {}).setdefault('mode', opts.get('mode', 'derive'))
                keep.append(it)
            groups.setdefault((cfg.name, opq == ''), (cfg, opq, []))[2].extend(keep)
    its, pairs = cross.coverage(400 if big else 48, seed=17, pool=6)
    for it in its:
        it.opts.setdefault('sa', {})['budget'] = 60 if big else 10
        it.controls = ()
        if not big:
            it.entries = ('le',)
    groups[('std', False)][2].extend(its)
    for k, (key, (cfg, opq, items)) in enumerate(sorted(groups.items())):
        for it in items:
            it.opts['sa'].setdefault('only_panics', True)
        K.lockstep_family(res, 'w-c17-%d' % k, pick(items, only), cfg, opq=opq, opts={'erase_endian': True}, extra_env={'ND_DA': '1'})


# ---------------------------------------------------------------------------------------------- C22
ENDS = re.compile(r'\b(Complete|Exact)\b|\blen\(\)|remaining|is_empty|eof|rest\b')


def endless(it):
    """does the definition avoid everything whose meaning depends on where the input ends?"""
    t = it.derive_input()
    if it.id.startswith(('opt_', 'vec_', 'nest_')) or '_opt_' in it.id or '_vec_' in it.id or ENDS.search(t):
        return False
    if t.count('Option<') > len(re.findall(r'\bCond\b|\bIf\b', t)):
        return False
    if t.count('Vec<') > len(re.findall(r'\b(?:Count|LengthCount|Parse|Value|Ignore|Default)\b', t)):
        return False
    return True


@family('C22')
def c22(res, tier, only=None):
    big = tier == 'thorough'
    share = {'C01': 2, 'C02': 1, 'C03': 1, 'C04': 4, 'C05': 6, 'C06': 6, 'C07': 3, 'C08': 6, 'C09': 4, 'C10': 3, 'C11': 4, 'C12': 3, 'C13': 4, 'C14': 6, 'C15': 4, 'C21': 8}
    groups = {}
    for p in share:
        for crate, items, cfg, opq, opts in collected([p], tier):
            if not cfg.alloc:
                continue
            keep = []
            for n, it in enumerate(x for x in items if endless(x)):
                if not big and n % share[p]:
                    continue
                it.id = crate[2:].replace('-', '_') + '_' + it.id
                it.controls = ()
                if not big and len(it.entries) > 1:
                    it.entries = tuple(it.entries)[n % len(it.entries):][:1]
                it.opts.setdefault('sa', {}).setdefault('mode', opts.get('mode', 'derive'))
                it.opts['sa'].setdefault('budget', 60 if big else 10)
                keep.append(it)
            if keep:
                groups.setdefault((cfg.name, opq == ''), (cfg, opq, []))[2].extend(keep)
    its, pairs = cross.coverage(400 if big else 60, seed=22, pool=6)
    for it in its:
        it.opts.setdefault('sa', {})['budget'] = 60 if big else 10
        it.controls = ()
        if not big:
            it.entries = ('be',)
    groups[('std', False)][2].extend(x for x in its if endless(x))
    for k, (key, (cfg, opq, items)) in enumerate(sorted(groups.items())):
        K.lockstep_family(res, 'w-c22-%d' % k, pick(items, only), cfg, opq=opq, opts={'erase_endian': False}, task=stab.stab_task)


Fm.LEVELS['C22'] = 'other'
Fm.EXPLAIN['C22'] = ('Each witness parser is analysed twice along every path: on a prefix [0, k) of a symbolic input and on the whole input. Where the '
                     'prefix run succeeds the other run must succeed with equal value term and equal consumption; each prefix path that reports Incomplete '
                     'must have an extension path that does not fail. programs counts witness entry points, disagreements_checked the path pairs compared.')
Fm.RULES['C22'] = ('for every pair of paths: Ok on prefix => Ok, same value, same offset on extension; Incomplete on prefix => some extension outcome is Ok or '
                   'Incomplete; repeated element parsers likewise, on a fresh symbolic input')
Fm.RULES['C17'] = ('no path of the derived parser (compiled with overflow checks) reaches a panicking MIR construct - assert terminator, panic call, out of range '
                   'slice model, capacity overflow - unless the reference does too (a user expression panics)')
