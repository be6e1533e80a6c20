"""python3 -m sa.check C01 [--root SRC]: decide one property from the source.

exit 0  the property held on everything analysed (or was not decided)
exit 1  a construct breaks it: VIOLATION property=<id> replay=<path>"""
import importlib
import json
import os
import sys
import threading
import time
import traceback

from .harness import Anchor, Budget, Ctx, REPO, SRC, sitestr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')


def known(pid):
    """key -> text of the recorded findings of this property."""
    out = {}
    try:
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    rest = line.split(' ', 2)[2].strip()
                    key, _, text = rest.partition(' :: ')
                    out[key.strip()] = text.strip()
    except FileNotFoundError:
        pass
    return out


def clean(x, n=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not isinstance(x, str) else x[:600]
    if n > 4:
        return str(x)[:300]
    if isinstance(x, dict):
        return {str(k): clean(v, n + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [clean(v, n + 1) for v in
                (x if isinstance(x, (list, tuple)) else
                 sorted(x, key=str))][:60]
    return str(x)[:300]


def run(pid, tier, root=None):
    mod = importlib.import_module('.rules.' + pid.lower(), 'sa')
    ctx = Ctx(pid, tier, root)
    err = None
    try:
        mod.check(ctx)
    except Anchor as e:
        err = 'anchor not found: %s' % e
    except Budget as e:
        err = 'analysis budget exhausted: %s' % e
    except RecursionError:
        err = 'analysis recursion limit'
    except Exception as e:
        err = 'internal error: %s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc(limit=-12)
    ctx.begin()
    return mod, ctx, err


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = None
    if '--thorough' in argv:
        tier = 'thorough'
    if '--root' in argv:
        root = argv[argv.index('--root') + 1]
    t0 = time.time()
    mod, ctx, err = run(pid, tier, root)
    wall = time.time() - t0
    kn = known(pid)
    viol, und = [], []
    for key, f in sorted(ctx.findings.items()):
        if key in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[key], key))
            f['known'] = True
        elif f['imprecise']:
            und.append('%s (%s): the analysis lost precision' % (
                key, f['what']))
        else:
            viol.append(f)
    undecided = list(und)
    if err:
        undecided.append(err)
    undecided += ['%s (%d times)' % kv for kv in sorted(ctx.notes.items())]
    I = ctx._I
    if I is not None:
        undecided += ['not followed: %s (%d times)' % kv
                      for kv in sorted(I.cuts.items())]
    fns = sorted('%s:%s' % f for f in I.functions_seen) if I else []
    cov = {
        'explanation': (getattr(mod, 'EXPLAIN', None) or mod.__doc__
                        or '').strip(),
        'obligations': ctx.obligations,
        'discharged': ctx.obligations - len(ctx.findings),
        'scenarios': ctx.scenarios,
        'functions_analysed': fns,
        'interpreter_steps': I.steps if I else 0,
        'sites': {k: sorted(str(s) for s in v)[:200]
                  for k, v in sorted(ctx.sites.items())},
        'undecided': undecided[:50],
        'known_findings': sorted(k for k in ctx.findings if k in kn),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': cov, 'wall_s': round(wall, 3),
          'violations': len(viol)}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(clean_ev(ev), f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations over %d functions, %d findings, %d undecided, '
          '%.1f s' % (pid, ctx.obligations, len(fns), len(viol),
                      len(undecided), wall))
    for u in undecided[:8]:
        print('undecided: ' + u[:300])
    if viol:
        rp = os.path.join(d, pid + '.violation.json')
        with open(rp, 'w', encoding='utf-8') as f:
            json.dump([clean(v) for v in viol], f, indent=1)
            f.write('\n')
        for v in viol[:int(os.environ.get("VERIF_SHOW", 20))]:
            print('  %s: %s -- %s' % (v['rule'], v['construct'],
                                      v['what'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def clean_ev(ev):
    return json.loads(json.dumps(ev, default=str))


def guarded(argv, out):
    try:
        out.append(main(argv))
    except BaseException as e:
        print('undecided: %s' % type(e).__name__)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc(limit=-12)
        out.append(0)


if __name__ == '__main__':
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    out = []
    th = threading.Thread(target=guarded, args=(sys.argv[1:], out))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(out[0])
