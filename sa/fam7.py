"""Expansion is a pure function of the item (C18): effect analysis of the macro crate, and one definition expanded twice."""
import json
import os
import re
import subprocess

from . import build, fam5
from . import check as K
from . import families as Fm
from .families import family
from .fam4 import Wit, survivors

# what a body of the macro crate may not call: sources of anything but its arguments, and effects
FORBIDDEN = [
    (r'^std::(env|fs|io|net|process|thread|time|os|path::.*(exists|canonicalize|is_file|is_dir|metadata|read_))\b', 'environment, files, network, processes, threads or time'),
    (r'^(core|std)::sync::atomic\b', 'global mutable state'),
    (r'^std::(sync|thread::local)\b|^(core|std)::cell::.*LocalKey|^std::thread::local', 'global mutable state'),
    (r'^std::hash::random|RandomState', 'the seed of a hash table'),
    (r'^proc_macro::tracked', 'environment or files'),
    (r'^proc_macro2?::.*Span.*::(start|end|line|column|source_file|file|local_file|byte_range|source_text|unwrap|parent|source|join|located_at)$', 'the position of the item in its file'),
    (r'^core::panic::location|^std::backtrace|^std::panic::(take_hook|set_hook|panic_any)', 'the process'),
    (r'^core::any::TypeId|^core::any::type_name', 'compiler internals'),
    (r'^core::fmt::.*Pointer::fmt|::new_pointer$', 'addresses'),
    (r'(ptr::(const_ptr|mut_ptr|non_null).*::(addr|expose_provenance))$', 'addresses'),
]
POSITION = re.compile(r'^proc_macro2?::\{impl#\d+\}::(start|end|line|column|source_file|file|local_file|byte_range|source_text|parent|source|joined?|located_at)$')
HASHED = re.compile(r'\bHash(Map|Set)<|hash::(map|set)::|collections::hash')
HASH_ITER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if', 'next', 'fmt', 'union', 'intersection',
             'difference', 'symmetric_difference')
PRINT = re.compile(r'^std::io::stdio::(_print|_eprint|stdout|stderr)$|^std::io::(_print|_eprint)$')


class Macro:
    def __init__(self, facts):
        self.f = facts
        self.bodies = {b['path']: b for b in facts['bodies']}
        self.impls = {}
        for b in facts['bodies']:
            if 'impl_trait' in b:
                self.impls.setdefault((b['impl_trait'], b['method']), []).append(b['path'])

    def targets(self, f):
        """local bodies a called function may be"""
        out = [f['path']] if f['path'] in self.bodies else []
        if 'trait' in f:
            out += self.impls.get((f['trait'], f['method']), [])
        return out

    def calls(self, b):
        for n, blk in enumerate(b['blocks']):
            t = blk['t']
            if t['t'] == 'call':
                yield n, t

    def fn_mentions(self, b):
        """function items used as values (passed as callbacks)"""
        for n, blk in enumerate(b['blocks']):
            for st in blk['s']:
                for o in st['o']:
                    if 'fn' in o:
                        yield n, o['fn'], st['at']
            if blk['t']['t'] == 'call':
                for o in blk['t']['a']:
                    if 'fn' in o:
                        yield n, o['fn'], blk['t']['at']

    def reachable(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            p = todo.pop()
            if p in seen or p not in self.bodies:
                continue
            seen.add(p)
            b = self.bodies[p]
            for n, t in self.calls(b):
                if 'fn' in t['f']:
                    todo += self.targets(t['f']['fn'])
                    # callbacks through traits of foreign crates (parse, to_tokens, ..): all impls of the trait
            for _, f, _ in self.fn_mentions(b):
                todo += self.targets(f)
            todo += [q for q in self.bodies if self.bodies[q].get('root') == p or q.startswith(p + '::{closure')]
        return seen


# ------------------------------------------------------------------------------- printing only for DebugDerive
def dominators(b):
    """block -> set of switch edges (block, target, values or None for otherwise) every path to it takes"""
    n = len(b['blocks'])
    preds = {i: [] for i in range(n)}
    for i, blk in enumerate(b['blocks']):
        t = blk['t']
        if t['t'] == 'switch':
            tg = {}
            for v, x in t['vals']:
                tg.setdefault(x, []).append(v)
            tg.setdefault(t['else'], []).append(None)
            for x, vs in tg.items():
                preds[x].append((i, (i, x, tuple(vs))))
        else:
            for x in t['to']:
                preds[x].append((i, None))
    dom = {0: frozenset()}
    changed = True
    while changed:
        changed = False
        for i in range(n):
            if i == 0:
                continue
            s = None
            for p, e in preds[i]:
                if p in dom:
                    c = dom[p] | ({e} if e else frozenset())
                    s = c if s is None else s & c
            if s is not None and s != dom.get(i):
                dom[i] = frozenset(s)
                changed = True
    return dom


class DebugFlow:
    """which values can only be true when DebugDerive was written on the item"""

    def __init__(self, m):
        self.m = m
        self.dom = {p: dominators(b) for p, b in m.bodies.items()}
        self.taint = set()      # (body, local) or ('field', key) or ('ret', body)
        self.bad = set()        # values that can be true without DebugDerive: same keys
        self.solve_taint()
        self.solve_bad()

    # a mention of the attribute's name: the enum variant or the string
    def mention(self, o):
        if 'promoted' in o and any(self.mention_stmt(s) for s in o['promoted']):
            return True
        return 'k' in o and ('DebugDerive' in o['k'])

    def mention_stmt(self, st):
        x = st['x']
        if st['r'] == 'agg' and x and x[0] == 'adt' and x[3] == 'DebugDerive':
            return True
        return any(self.mention(o) for o in st['o'])

    def key(self, p, place):
        for e in reversed(place[1:]):
            if isinstance(e, str) and ':' in e and not e.startswith('core::'):
                return ('field', e)
        return (p, place[0])

    def edge_is_dd(self, b, e):
        """the edge is only taken when a discriminant is DebugDerive's"""
        i, x, vs = e
        t = b['blocks'][i]['t']
        loc = t['o'].get('p')
        if not loc or len(loc) > 1:
            return False
        for blk in [b['blocks'][i]] + b['blocks']:
            for st in blk['s']:
                if st['d'] == loc and st['r'] == 'discr' and st['x']:
                    names = dict((v, n) for n, v in st['x'][1])
                    if 'DebugDerive' not in names.values():
                        return False
                    listed = {v for v, _ in t['vals']}
                    got = set()
                    for v in vs:
                        got |= {names.get(v)} if v is not None else {n for w, n in names.items() if w not in listed}
                    return got == {'DebugDerive'}
        return False

    def in_dd(self, p, blk):
        b = self.m.bodies[p]
        return any(self.edge_is_dd(b, e) or self.edge_ok(p, e) for e in self.dom[p].get(blk, ()))

    def op_taint(self, p, o):
        if self.mention(o):
            return True
        if 'p' in o:
            return self.key(p, o['p']) in self.taint or (p, o['p'][0]) in self.taint
        return False

    def solve_taint(self):
        m = self.m
        while True:
            n = len(self.taint)
            for p, b in m.bodies.items():
                for i, blk in enumerate(b['blocks']):
                    dd = any(self.edge_is_dd(b, e) for e in self.dom[p].get(i, ()))
                    for st in blk['s']:
                        if dd or self.mention_stmt(st) or any(self.op_taint(p, o) for o in st['o']):
                            self.taint.add(self.key(p, st['d']))
                        if st['r'] == 'agg' and st['x'] and st['x'][0] == 'adt':
                            for k, o in enumerate(st['o']):
                                if self.op_taint(p, o):
                                    self.taint.add(('field', '%s:%d.%d' % (st['x'][1], st['x'][2], k)))
                            # a structure is not tainted by one of its fields
                            if len(st['o']) > 1 and not dd:
                                self.taint.discard(self.key(p, st['d']))
                    t = blk['t']
                    if t['t'] == 'call':
                        any_t = any(self.op_taint(p, o) for o in t['a'])
                        ret = False
                        if 'fn' in t['f']:
                            for q in m.targets(t['f']['fn']):
                                ret |= ('ret', q) in self.taint
                                for k, o in enumerate(t['a']):
                                    if self.op_taint(p, o):
                                        self.taint.add((q, k + 1))
                        for o in t['a']:
                            c = self.closure_of(o)
                            ret |= any(('ret', q) in self.taint for q in c)
                        if any_t or ret:
                            self.taint.add(self.key(p, t['d']))
                if (p, 0) in self.taint:
                    self.taint.add(('ret', p))
            if len(self.taint) == n:
                return

    def closure_of(self, o):
        ty = o.get('ty', '') if 'k' in o else ''
        mm = re.search(r'closure@([^ ]+?):(\d+):', ty)
        if mm:
            at = '%s:%s' % (mm.group(1), mm.group(2))
            return [p for p, b in self.m.bodies.items() if b['kind'] == 'Closure' and b['at'] == at]
        return []

    # -- bad: may be true without DebugDerive
    def op_bad(self, p, o, blk):
        """for boolean values; constants depend on where they are assigned"""
        if 'k' in o:
            if o['k'] == 'false':
                return False
            if o['k'] == 'true':
                return not self.in_dd(p, blk)
            return not self.mention(o)
        if 'p' in o:
            k = self.key(p, o['p'])
            if k in self.defined:
                return k in self.bad
            return k not in self.taint and (p, o['p'][0]) not in self.taint
        return True

    def edge_ok(self, p, e):
        b = self.m.bodies[p]
        i, x, vs = e
        t = b['blocks'][i]['t']
        o = t['o']
        if 'p' not in o:
            return False
        k = self.key(p, o['p'])
        if vs == ('0',):            # the false side
            return k in self.taint and k in self.negated
        if '0' in vs:
            return False
        if k in self.defined:
            return k not in self.bad
        return k in self.taint

    def solve_bad(self):
        m = self.m
        self.defined, self.negated = set(), set()
        boolish = set()
        for p, b in m.bodies.items():
            for i, blk in enumerate(b['blocks']):
                for st in blk['s']:
                    k = self.key(p, st['d'])
                    isb = (k[0] != 'field' and b['locals'][k[1]] == 'bool') or (k[0] == 'field' and st['r'] in ('use', 'bin', 'un') and any(
                        o.get('ty') == 'bool' or ('p' in o and len(o['p']) == 1 and b['locals'][o['p'][0]] == 'bool') for o in st['o']))
                    if isb:
                        self.defined.add(k)
                    if st['r'] == 'agg' and st['x'] and st['x'][0] == 'adt':
                        for n, o in enumerate(st['o']):
                            if o.get('ty') == 'bool' or ('p' in o and len(o['p']) == 1 and b['locals'][o['p'][0]] == 'bool'):
                                self.defined.add(('field', '%s:%d.%d' % (st['x'][1], st['x'][2], n)))
                    if st['r'] == 'un' and st['x'] == 'Not':
                        self.negated.add(k)
                t = blk['t']
                if t['t'] == 'call' and len(t['d']) == 1 and b['locals'][t['d'][0]] == 'bool':
                    self.defined.add((p, t['d'][0]))
                    if 'fn' in t['f'] and t['f']['fn'].get('method') == 'ne':
                        self.negated.add((p, t['d'][0]))
            for a in range(1, b.get('argc', 0) + 1):
                if b['locals'][a] == 'bool':
                    self.defined.add((p, a))
            if b.get('locals') and b['locals'][0] == 'bool':
                self.defined.add(('ret', p))
        while True:
            n = len(self.bad)
            for p, b in m.bodies.items():
                for i, blk in enumerate(b['blocks']):
                    for st in blk['s']:
                        k = self.key(p, st['d'])
                        if k in self.defined and self.rv_bad(p, st, i):
                            self.bad.add(k)
                        if st['r'] == 'agg' and st['x'] and st['x'][0] == 'adt':
                            for q, o in enumerate(st['o']):
                                fk = ('field', '%s:%d.%d' % (st['x'][1], st['x'][2], q))
                                if fk in self.defined and self.op_bad(p, o, i):
                                    self.bad.add(fk)
                    t = blk['t']
                    if t['t'] == 'call':
                        tg = m.targets(t['f']['fn']) if 'fn' in t['f'] else []
                        for q in tg:
                            for k, o in enumerate(t['a']):
                                if (q, k + 1) in self.defined and self.op_bad(p, o, i):
                                    self.bad.add((q, k + 1))
                        k = self.key(p, t['d'])
                        if k in self.defined:
                            mention = any(self.op_taint(p, o) for o in t['a'])
                            clos = [c for o in t['a'] for c in self.closure_of(o)]
                            if tg and all(('ret', q) in self.defined for q in tg):
                                okv = not any(('ret', q) in self.bad for q in tg) or mention
                            elif clos:
                                okv = mention or all(('ret', c) in self.taint for c in clos)
                            else:
                                okv = mention or (bool(tg) and any(('ret', q) in self.taint for q in tg))
                            if not okv and not self.in_dd(p, i):
                                self.bad.add(k)
                if (p, 0) in self.bad:
                    self.bad.add(('ret', p))
            if len(self.bad) == n:
                return

    def rv_bad(self, p, st, i):
        os_ = st['o']
        if st['r'] == 'use':
            return self.op_bad(p, os_[0], i)
        if st['r'] == 'bin' and st['x'] == 'BitOr':
            return any(self.op_bad(p, o, i) for o in os_)
        if st['r'] == 'bin' and st['x'] == 'BitAnd':
            return all(self.op_bad(p, o, i) for o in os_)
        return not (self.mention_stmt(st) or any(self.op_taint(p, o) for o in os_)) and not self.in_dd(p, i)


def check_prints(res, m, reach, roots):
    fl = DebugFlow(m)
    printing = {}       # body -> why: reaches a print that DebugDerive does not guard

    def unguarded(p, test):
        b = m.bodies[p]
        for i, t in m.calls(b):
            if b['blocks'][i]['cleanup'] or 'fn' not in t['f']:
                continue
            w = test(t)
            if w and not fl.in_dd(p, i) and not any(fl.op_taint(p, o) for o in t['a'] if 'k' not in o and len(o.get('p', [])) and b['locals'][o['p'][0]] == 'bool'):
                return '%s at %s' % (w, t['at'])
        return None
    n = 0
    for p in reach:
        b = m.bodies[p]
        n += sum(1 for _, t in m.calls(b) if 'fn' in t['f'] and PRINT.match(t['f']['fn']['path']))
        w = unguarded(p, lambda t: t['f']['fn']['path'] if PRINT.match(t['f']['fn']['path']) else None)
        if w:
            printing[p] = w
    res.cov['print_calls_found'] = n
    while True:
        k = len(printing)
        for p in reach:
            if p in printing:
                continue
            b = m.bodies[p]

            def test(t):
                for q in m.targets(t['f']['fn']):
                    if q in printing:
                        return '%s (%s)' % (q, printing[q])
                for o in t['a']:
                    for q in fl.closure_of(o):
                        if q in printing:
                            return '%s (%s)' % (q, printing[q])
            w = unguarded(p, test)
            if not w:
                for i, blk in enumerate(b['blocks']):
                    for st in blk['s']:
                        if st['r'] == 'agg' and st['x'] and st['x'][0] == 'closure' and st['x'][1] in printing and not fl.in_dd(p, i):
                            # handed to a call that looks at the attribute?
                            used = [t for _, t in m.calls(b) if any(o.get('p') == st['d'] for o in t['a'])]
                            if not any(any(fl.op_taint(p, o) for o in t['a']) for t in used):
                                w = '%s (%s)' % (st['x'][1], printing[st['x'][1]])
            if w:
                printing[p] = w
        if len(printing) == k:
            break
    for r in sorted(set(roots) & set(printing)):
        res.violation('print_' + r.rsplit('::', 1)[-1], 'expanding an item prints without DebugDerive (from %s)' % r, 'call path: ' + printing[r])
    return n


# ---------------------------------------------------------------------------------------- spans in the output
SPANNED = re.compile(r'\b(proc_macro2?|syn)::|TokenStream|\bSpan\b')
SINKS = re.compile(r'(Ident::(new|new_raw)|LitStr::new|LitByteStr::new|Literal::(string|byte_string|from_str)|parse_str|str::.*parse|TokenStream.*from_str|push_ident|format_ident|mk_ident|push_lifetime|'
                   r'IdentBuilder|Lifetime::new)$')


def check_spans(res, m, reach):
    """text made with {:?} of syntax (which shows positions) must not become code"""
    n = 0
    for p in reach:
        b = m.bodies[p]
        t_ = set()
        while True:
            k = len(t_)
            for i, blk in enumerate(b['blocks']):
                for st in blk['s']:
                    if any('p' in o and o['p'][0] in t_ for o in st['o']):
                        t_.add(st['d'][0])
                t = blk['t']
                if t['t'] != 'call' or 'fn' not in t['f']:
                    continue
                f = t['f']['fn']
                if f['path'].startswith('core::fmt::rt::') and f['path'].endswith('::new_debug') and any(SPANNED.search(a) for a in f['args']):
                    t_.add(t['d'][0])
                    n += 1
                elif any('p' in o and o['p'][0] in t_ for o in t['a']):
                    if SINKS.search(f['nice']) or (f.get('method') == 'to_tokens' and f['args'] and re.match(r'^&*(std::string::String|str)$', f['args'][0])):
                        res.violation('span_' + re.sub(r'\W', '_', p), 'text that shows source positions becomes code in %s' % p, t['at'])
                    elif not f['path'].startswith(('syn::error', 'core::panicking', 'std::io')):
                        t_.add(t['d'][0])
            if len(t_) == k:
                break
    return n


@family('C18')
def c18(res, tier, only=None):
    build.driver_path()
    scope = fam5.SCOPES[0]
    crate = 'w-c18'
    defs = fam5.definitions(tier)
    wits, first = [], []
    for id, it in defs[::1 if tier == 'thorough' else 4]:
        b = fam5.module(it, scope, id)
        if b is None:
            continue
        first.append(Wit('a_' + id, b, it.what or id, pre=''))
    second = [Wit('b_' + w.id[2:], w.body, w.what, pre='') for w in reversed(first)]
    ok, errs = survivors(crate, first + second, scope.toml(crate), scope.header(), facts='nom_derive_impl,w_c18', outdir='out-c18',
                         extra_env={'ND_FACTS_MIR': '1', 'ND_NOMIR': 'w_c18'})
    out = os.path.join(build.BUILD, 'out-c18')
    facts = json.load(open(os.path.join(out, 'facts_nom_derive_impl.json')))
    wf = json.load(open(os.path.join(out, 'facts_w_c18.json')))
    m = Macro(facts)
    # entry points: what the compiler calls, and whatever foreign code can call back (trait impls)
    roots = [p for p, b in m.bodies.items() if b['kind'] == 'Fn' and b.get('argc') and b['locals'][0] == 'proc_macro::TokenStream']
    if len(roots) < 3:
        raise build.BuildError('the entry points of the macro crate were not found (%s)' % roots)
    reach = m.reachable(roots + [p for p, b in m.bodies.items() if 'impl_trait' in b])
    calls = 0
    for s in facts['statics']:
        if '_DECLS' in s['path']:
            continue
        lazy = re.match(r'^(std|core)::(sync|cell)(::lazy_lock|::lazy)?::LazyLock<', s['ty']) and not s['tls']
        if (s['mutable'] or not s['freeze'] or s['tls']) and not lazy:
            res.violation('static_' + re.sub(r'\W', '_', s['path']), 'the macro crate keeps state between expansions: static %s: %s' % (s['path'], s['ty']), s['at'])
    for p in sorted(reach):
        b = m.bodies[p]
        sites = [(t['f']['fn'], t['at'], t) for _, t in m.calls(b) if 'fn' in t['f']] + [(f, at, None) for _, f, at in m.fn_mentions(b)]
        for f, at, t in sites:
            calls += 1
            names = (f['path'], f['nice'])
            if PRINT.match(f['path']):
                continue
            for rx, what in FORBIDDEN:
                if any(re.search(rx, x) for x in names) and not (f['path'].startswith('std::sync') and 'lazy' in f['path'].lower()):
                    res.violation('call_%s_%s' % (re.sub(r'\W', '_', p.split('::', 1)[-1]), f['nice'].rsplit('::', 1)[-1]),
                                  'expansion depends on or touches %s: %s calls %s' % (what, p, f['nice']), at)
            if POSITION.match(f['path']) and 'Span' in f['nice']:
                res.violation('span_%s' % re.sub(r'\W', '_', p), 'expansion depends on the position of the item in its file: %s calls %s' % (p, f['nice']), at)
            last = f.get('method') or f['path'].rsplit('::', 1)[-1]
            recv = ' '.join(f['args'][:1]) + ' ' + f['nice']
            if last in HASH_ITER and (HASHED.search(recv) or HASHED.search(f['path'])):
                res.violation('hash_%s' % re.sub(r'\W', '_', p), 'expansion depends on the seed of a hash table: %s calls %s on %s' % (p, f['nice'], ' '.join(f['args'])), at)
        for blk in b['blocks']:
            for st in blk['s']:
                if st['r'] == 'cast' and st['x'] and 'PointerExposeProvenance' in str(st['x'][0]):
                    res.violation('addr_%s' % re.sub(r'\W', '_', p), 'expansion looks at an address in %s' % p, st['at'])
                if st['r'] == 'tls':
                    res.violation('tls_%s' % re.sub(r'\W', '_', p), 'expansion uses a thread-local in %s' % p, st['at'])
    for v in facts['env']:
        if not v.startswith('CARGO_PKG_'):
            res.violation('env_' + v, 'the macro crate is compiled with the environment variable %s' % v, '')
    for fn in facts['files']:
        if not os.path.realpath(fn).startswith(os.path.realpath(build.REPO)):
            res.violation('file_' + re.sub(r'\W', '_', fn), 'the macro crate includes the file %s' % fn, '')
    for v in wf['env']:
        res.violation('genv_' + v, 'expanding the witnesses consults the environment variable %s' % v, '')
    for fn in wf['files']:
        res.violation('gfile_' + re.sub(r'\W', '_', fn), 'expanding the witnesses reads the file %s' % fn, '')
    for s in wf['statics']:
        res.violation('gstatic_' + re.sub(r'\W', '_', s['path']), 'derived code has a static: %s' % s['path'], s['at'])
    spans = check_spans(res, m, reach)
    prints = check_prints(res, m, reach, roots)
    n = compare_expansions(res, crate, scope, first, second, set(ok))
    res.add('obligations', len(reach) + calls + len(facts['statics']) + n)
    res.cov.update(bodies_reachable=len(reach), bodies=len(m.bodies), call_sites=calls, entry_points=sorted(roots), debug_formatted_syntax=spans, definitions_expanded_twice=n)
    res.touched = set(reach)
    res.samples += [{'function': p, 'calls': sorted({t['f']['fn']['nice'] for _, t in m.calls(m.bodies[p]) if 'fn' in t['f']})[:40]} for p in sorted(reach)[::max(1, len(reach) // 4)]]


def compare_expansions(res, crate, scope, first, second, ok):
    """the same definitions, expanded in one process in two orders and at other places, give the same code"""
    pairs = [(a, b) for a, b in zip(first, reversed(second)) if a.id in ok and b.id in ok]
    keep = {w.id for p in pairs for w in p}
    src = scope.header() + ''.join(w.text() for w in first + second if w.id in keep)
    d = os.path.join(build.BUILD, crate + '-x')
    build.write(os.path.join(d, 'src', 'lib.rs'), src)
    build.write(os.path.join(d, 'Cargo.toml'), scope.toml(crate + '-x'))
    build.lockfile(d)
    e = build.env()
    e.update(CARGO_TARGET_DIR=os.path.join(build.BUILD, 'target'), RUSTC_WRAPPER=build.driver_path(), ND_MIR='nom,nom_derive', ND_DUMP='', ND_FACTS='')
    r = subprocess.run(['cargo', 'rustc', '--offline', '--profile', 'check', '--lib', '--', '-Zunpretty=expanded'], cwd=d, env=e, capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError('the expansions cannot be shown: ' + r.stderr[-2000:])
    mods, cur = {}, None
    for l in r.stdout.split('\n'):
        mm = re.match(r'^pub mod (\w+) \{', l)
        if mm:
            cur = mods.setdefault(mm.group(1), [])
        elif l.startswith('}'):
            cur = None
        elif cur is not None and l.strip():
            cur.append(l.strip())
    n = 0
    for a, b in pairs:
        if a.id not in mods or b.id not in mods:
            raise build.BuildError('no expansion found for %s' % a.id)
        n += 1
        # how the compiler breaks lines depends on where the source is
        ta, tb = (re.findall(r'\w+|[^\w\s]', ' '.join(mods[w.id])) for w in (a, b))
        if ta != tb:
            k = [x == y for x, y in zip(ta, tb)].index(False) if False in [x == y for x, y in zip(ta, tb)] else 0
            diff = [(' '.join(ta[max(0, k - 20):k + 60]), ' '.join(tb[max(0, k - 20):k + 60]))]
            res.violation('twice_' + a.id[2:], 'the same definition expands to different code the second time: ' + a.what,
                          a.body + '\n' + '\n'.join('first : %s\nsecond: %s' % d for d in diff))
    return n


Fm.LEVELS['C18'] = 'other'
Fm.RULES['C18'] = ('no body of the macro crate that expansion can reach keeps state in statics or thread-locals, calls into environment, files, network, processes, threads, time or atomics, asks for '
                   'source positions or addresses, iterates a hash table or turns {:?} of syntax into code; every path to a print takes a branch that only DebugDerive opens; '
                   'one definition expanded twice, in other places and another order, gives the same code')
Fm.EXPLAIN['C18'] = ('interprocedural effect analysis over the MIR of nom-derive-impl (call graph from the proc macro entry points with all trait impls, statics, dependency info of the compiler), '
                     'a dominance and flow analysis for the guard of printing, and comparison of the macro-expanded text of every witness with that of its copy')
