"""Runner: python3 -m sa.check <property>  (tier from VERIF_TIER)"""
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import build, gen
from .compare import load, lockstep, explore_one, show
from .interp import Unsupported

VERIF = build.VERIF
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []        # dict(key, what, detail)
        self.known = []
        self.undecided = []
        self.cov = {}
        self.samples = []
        self.assumptions = []

    def violation(self, key, what, detail=''):
        self.violations.append({'key': key, 'what': what, 'detail': detail})

    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n


def describe(d, im, rf):
    kind, ra, rb, known = d[0][0], d[1], d[2], d[3]
    if kind == 'panic':
        ra = d[0][1]

    def r(x):
        if x[0] == 'ret':
            return 'returns ' + show(x[1])
        if x[0] == 'panic':
            return 'PANICS (%s at %s, in %s)' % (x[1], x[2], ' <- '.join(reversed(x[3])))
        return x[0]
    path = []
    for k, v in known.items():
        if k[0] == 'is':
            names = known.get(('names', k[1]))
            if names:
                path.append('%s is %s' % (show(k[1]), names[v]))
        elif k[0] == 'truth':
            path.append('%s = %s' % (show(k[1]), v == 0))
        elif k[0] == 'val':
            path.append('%s == %s' % (show(k[1]), v[0]))
        elif k[0] == 'ne':
            path.append('%s != %s' % (show(k[1]), k[2]))
    o = ['difference in: ' + kind, 'derived code : ' + r(ra), 'specification: ' + r(rb)]
    if kind == 'trace':
        def tr(t):
            return [x[0] + ':' + (show(x[1]) if not isinstance(x[1], str) else x[1]) for x in t]
        o.append('derived code performs : ' + '; '.join(tr(d[0][1])))
        o.append('specification performs: ' + '; '.join(tr(d[0][2])))
    o.append('on the path where: ' + '; '.join(path))
    return '\n'.join(x[:4000] for x in o)


ROOTS = None
END = None          # when this run should be over; obligations still open then get little time each


def allowance(opts):
    b = opts.get('budget', 45 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 240)
    return b if END is None else min(b, max(3, END - time.time()))


def pair_task(a):
    im, rf, opts = a
    t0 = time.time()
    I, R = ROOTS[im], ROOTS[rf]
    first = None
    touched = set()
    for noloop, precise in ((False, False), (False, True), (True, False), (True, True)):
        if precise and not first[0] == 'diff':
            continue
        o = dict(opts)
        o['touched'] = touched
        o['budget'] = allowance(opts)
        if precise:
            # arithmetic facts are decided again without the shortcuts that make it fast
            o.update(precise=True, budget=min(30, o['budget']))
        if noloop:
            o['noloop'] = True
        try:
            st = lockstep(I, R, o, limit=opts.get('limit', 20000))
        except Unsupported as e:
            if first is None:
                first = ('undecided', str(e))
            continue
        except RecursionError:
            if first is None:
                first = ('undecided', 'recursion')
            continue
        except Exception:
            return (im, 'error', traceback.format_exc(), 0, touched, time.time() - t0)
        if st['diff'] is None and precise and st.get('bounded'):
            first = ('undecided', 'the difference found first was not found again within the time bound: ' + first[1])
            continue
        if st['diff'] is None:
            return (im, 'ok-bounded' if st.get('bounded') else 'ok' if not noloop else 'ok-unrolled', '', st['paths'], touched, time.time() - t0)
        if first is None or first[0] == 'undecided':
            first = ('diff', describe(st['diff'], im, rf))
        if not o.get('loop_seen') and precise and not opts.get('always_unroll'):
            break
    return (im, first[0], first[1], 0, touched, time.time() - t0)


def panic_task(a):
    im, _, opts = a
    t0 = time.time()
    touched = set()
    o = dict(opts)
    o['touched'] = touched
    try:
        n = 0
        for r, tr, orc in explore_one(ROOTS[im], o, limit=opts.get('limit', 20000)):
            n += 1
            if r[0] == 'panic':
                return (im, 'diff', 'can panic: %s at %s, in %s\non the path where: %s' % (
                    r[1], r[2], ' <- '.join(reversed(r[3])),
                    '; '.join('%s' % (k,) for k in list(orc.known)[:20])), 0, touched, time.time() - t0)
        return (im, 'ok', '', n, touched, time.time() - t0)
    except Unsupported as e:
        return (im, 'undecided', str(e), 0, touched, time.time() - t0)
    except Exception:
        return (im, 'error', traceback.format_exc(), 0, touched, time.time() - t0)


def run_tasks(fn, tasks, jobs=8):
    if len(tasks) < 2:
        return [fn(t) for t in tasks]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(jobs, len(tasks))) as p:
        if os.environ.get('SLOW'):
            out = []
            for r in p.imap_unordered(fn, tasks):
                out.append(r)
                if r[5] > float(os.environ['SLOW']):
                    print('slow: %s %s %.0f s, %d paths' % (r[0], r[1], r[5], r[3]), flush=True)
            return out
        return list(p.imap_unordered(fn, tasks, chunksize=1))


class Config:
    """how the witness crate depends on the crates under test"""

    def __init__(self, name, nd='', nom_features=('alloc',), header='', alloc=True):
        self.name, self.nd, self.nom_features, self.header, self.alloc = name, nd, nom_features, header, alloc

    def toml(self, crate):
        return build.cargo_toml(crate, self.nd, 'nom = { version = "8", default-features = false, features = [%s] }'
                                % ', '.join('"%s"' % f for f in self.nom_features))


DEFAULT = Config('std', nom_features=('std',))
NOALLOC = Config('noalloc', nd=', default-features = false', nom_features=(),
                 header='', alloc=False)


def compile_items(res, crate, items, cfg, opq=None, extra_env=None):
    """emit + compile; items that do not compile are violations. Returns (compiled items, dump path)"""
    opq = gen.OPQ if opq is None else opq
    items = list(items)
    fresh = True
    for rnd in range(8):
        src = cfg.header + opq + ''.join(it.emit(it.id) for it in items)
        ok, msgs, path, err = build.check_crate(crate, src, cfg.toml(crate), fresh=fresh, extra_env=extra_env)
        fresh = False
        if ok:
            return items, path
        bad = build.errors_by_module(msgs, crate, src)
        if None in bad or 'opq' in bad or not bad:
            txt = '\n'.join(sum(bad.values(), [])) or err
            raise build.BuildError('the crates under test (or the witness prelude) do not compile:\n' + txt[-3000:])
        left = []
        for it in items:
            if it.id in bad:
                it.compile_error = '\n'.join(bad[it.id])[:3000]
            else:
                left.append(it)
        if len(left) == len(items):
            raise build.BuildError('cannot attribute compile errors: %r' % list(bad))
        items = left
    raise build.BuildError('too many rounds of compile errors')


def lockstep_family(res, crate, items, cfg=DEFAULT, opq=None, opts=None, task=pair_task, jobs=8, elsewhere_opts=None, extra_env=None):
    """compile, compare im/rf roots of every item"""
    global ROOTS
    all_items = []
    for it in items:
        all_items.append(it)
        for c in it.controls:
            c.is_control = True
            all_items.append(c)
    ids = [it.id for it in all_items]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1][:3]
    compiled, path = compile_items(res, crate, all_items, cfg, opq, extra_env)
    ROOTS = load(path)
    byid = {it.id: it for it in all_items}
    tasks, owner = [], {}
    for it in compiled:
        if getattr(it, 'is_control', False):
            continue
        for e in it.roots():
            im, rf = 'im_%s_%s' % (it.id, e), 'rf_%s_%s' % (it.id, e)
            if im not in ROOTS:
                raise build.BuildError('root %s is missing from the dump' % im)
            o = {'mode': 'derive'}
            o.update(opts or {})
            o.update(it.opts.get('sa', {}))
            tasks.append((im, rf, o))
            owner[im] = (it, e)
    out = run_tasks(task, tasks, jobs)
    fails = {}
    touched = set()
    for im, st, txt, paths, tch, dt in out:
        it, e = owner[im]
        res.add('programs')
        res.add('paths', paths)
        touched |= set(x for x in tch if isinstance(x, str))
        if st in ('ok', 'ok-unrolled', 'ok-bounded'):
            res.add('equivalent')
            if st == 'ok-bounded':
                res.add('decided_on_the_first_paths_only')
            if st == 'ok-unrolled':
                res.add('decided_by_bounded_unrolling')
        elif st == 'skipped':
            res.add('outside_the_property')
        elif st == 'undecided':
            res.undecided.append((im, txt))
        elif st == 'error':
            raise RuntimeError('analyser error on %s:\n%s' % (im, txt))
        else:
            fails.setdefault(it.id, []).append((e, txt))
    res.touched = getattr(res, 'touched', set()) | touched
    compiled_ids = {it.id for it in compiled}
    for it in items:
        if it.id not in compiled_ids:
            fails.setdefault(it.id, []).append(('compile', 'the definition is valid but does not compile:\n' + it.compile_error))
    for id, fl in fails.items():
        it = byid[id]
        # is the difference there without the attribute this property is about?
        elsewhere = False
        for c in it.controls:
            if c.id not in compiled_ids:
                elsewhere = True
                continue
            ct = []
            for e in c.roots():
                o = {'mode': 'derive'}
                o.update(opts or {})
                o.update(c.opts.get('sa', {}))
                ct.append(('im_%s_%s' % (c.id, e), 'rf_%s_%s' % (c.id, e), o))
            if any(r[1] == 'diff' for r in map(task, ct)):
                elsewhere = True
        if elsewhere_opts and all(e != 'compile' for e, _ in fl):
            # the same difference when what this property is about is abstracted away
            ct = [t for t in tasks if owner[t[0]][0] is it and owner[t[0]][1] in [e for e, _ in fl]]
            if all(task((a, b, dict(o, **elsewhere_opts)))[1] == 'diff' for a, b, o in ct):
                elsewhere = True
        if elsewhere:
            res.add('attributed_to_other_properties')
            res.cov.setdefault('attributed_ids', []).append(id)
            continue
        e, txt = fl[0]
        res.violation(id, it.what or id, 'definition (%s, entry point %s):\n%s\n%s' % (
            ', '.join(x[0] for x in fl), e, it.derive_input(), txt))
    if compiled:
        import random
        rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        for it in rnd.sample(compiled, min(2, len(compiled))):
            res.samples.append({'witness': it.id, 'definition': it.derive_input(), 'entries': list(it.roots())})
    return fails


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                kv = dict(x.split('=', 1) for x in l.split()[1:] if '=' in x)
                out.setdefault(kv['property'], {})[kv['key']] = l
    return out


def main(argv):
    from . import families
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    os.environ['VERIF_TIER'] = tier
    global END
    END = time.time() + (600 if tier == 'quick' else 2400)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    res = Result(prop)
    fam = families.FAMILIES[prop]
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    ev_path = os.path.join(EVID, prop + '.json')
    if os.path.exists(ev_path):
        os.remove(ev_path)
    try:
        fam(res, tier, only) if only else fam(res, tier)
    except build.BuildError as e:
        # the code under test does not even compile in the documented configuration
        res.violation('build', 'the crates under test do not build for the witnesses of this property', str(e))
    known = load_known().get(prop, {})
    new = []
    for v in res.violations:
        if v['key'] in known:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, v['key'], v['what']))
        else:
            new.append(v)
    for n, v in enumerate(new):
        p = os.path.join(EVID, 'replay', '%s-%d.txt' % (prop, n))
        with open(p, 'w') as f:
            f.write('property %s\nwitness %s: %s\n\n%s\n' % (prop, v['key'], v['what'], v['detail']))
        if n < 20:
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, VERIF) if EVID.startswith(VERIF) else p))
            print('  ' + v['key'] + ': ' + v['what'])
            print('    ' + v['detail'][:1500].replace('\n', '\n    '))
    for im, txt in res.undecided[:10]:
        print('UNDECIDED %s: %s' % (im, txt))
    cov = dict(res.cov)
    # every path is one comparison of an outcome with what the specification says for it
    cov['disagreements_checked'] = cov.pop('paths', 0)
    cov.setdefault('programs', 0)
    cov['samples'] = res.samples[:6]
    cov['undecided'] = [list(x) for x in res.undecided[:20]]
    cov['functions_analysed'] = sorted(getattr(res, 'touched', set()))[:400]
    cov['functions_analysed_count'] = len(getattr(res, 'touched', set()))
    lvl = families.LEVELS.get(prop, 'translation_validation')
    if lvl == 'other':
        cov.setdefault('explanation', families.EXPLAIN.get(prop, ''))
    if lvl == 'other' and not cov['programs']:
        del cov['programs'], cov['disagreements_checked']
    done = cov.get('programs', 0) + cov.get('obligations', 0)
    cov['rule'] = families.RULES.get(prop, '')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov,
          'assumptions': families.ASSUMPTIONS + res.assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    floor = families.FLOORS.get(prop, {}).get(tier, 0)
    print('%s %s: %d obligations, %d paths, %d violations, %d undecided, %.1fs' % (
        prop, tier, done, cov.get('disagreements_checked', 0), len(new), len(res.undecided), time.time() - t0))
    if new:
        return 1
    if done < floor and not only:
        print('check error: only %d obligations, expected at least %d' % (done, floor))
        return 2
    if res.undecided and len(res.undecided) * 2 > done:
        print('check error: most obligations are undecided')
        return 2
    return 0


if __name__ == '__main__':
    if 'PYTHONHASHSEED' not in os.environ:
        # the same run every time
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'sa.check'] + sys.argv[1:])
    sys.exit(main(sys.argv))
