#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's current tree by static analysis.

exit 0: every obligation holds (known findings are printed); exit 1: VIOLATION lines; exit 2: the tree does not build."""
import fcntl
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from ajv import extract                        # noqa: E402
from ajv.entry import Missing                  # noqa: E402
from ajv.report import Report                  # noqa: E402
from ajv.world import World                    # noqa: E402

MODULES = ('rules_queue', 'rules_tick', 'rules_task', 'rules_api', 'rules_backend', 'rules_codec', 'rules_macro')

TRUST = [
    'the nightly rustc front end: the MIR, the types and the trait selection it produces are those of the built library',
    'models of std, actix, chrono, cron, serde_json, redis and dashmap calls (ajv/models.py)',
    'user code (job bodies, overridden trait methods, plugins, foreign back ends) returns arbitrary values of its type',
]


def rules():
    out = {}
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'ajv', m + '.py')):
            mod = importlib.import_module('ajv.' + m)
            for n in dir(mod):
                if re.fullmatch(r'C\d\d', n):
                    out[n] = getattr(mod, n)
    return out


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {k['key']: k for k in json.load(open(p)).get('findings', []) if k['property'] == prop}


def slug(s):
    return re.sub(r'[^A-Za-z0-9]+', '_', s)[:80].strip('_')


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    seed = int(seed) if seed.lstrip('-').isdigit() else 1
    t0 = time.time()
    os.makedirs(extract.CACHE, exist_ok=True)
    evdir = os.environ.get('AJV_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    rs = rules()
    if prop not in rs:
        print('no rule for', prop)
        return 2
    lock = open(os.path.join(extract.CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        path, secs = extract.extract()
    except extract.BuildError as e:
        print('BUILD FAILED: %s' % e)
        return 2
    W = World(path)
    W.tier = tier
    R = Report(prop)
    inconclusive = []
    try:
        rs[prop](W, R)
    except Missing as e:
        R.bad('anchor', str(e), 'an anchor of the property is gone from the source: %s' % e)
    except extract.BuildError as e:
        R.bad('witness-builds', 'witness', 'a program which relies on this property no longer type checks: %s' % str(e)[-3000:])
    except Exception as e:
        # the rule could not follow the code: that is no verdict about the code
        inconclusive.append('rule stopped: %r' % e)
        if os.environ.get('AJV_DEBUG'):
            traceback.print_exc()
    fcntl.flock(lock, fcntl.LOCK_UN)
    inconclusive += [str(x) for x in W.inconclusive]
    kn = known(prop)
    viol = 0
    for key in sorted(R.bad_):
        b = R.bad_[key]
        if key in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[key]['what']))
            continue
        viol += 1
        rp = os.path.join(evdir, 'replay_%s_%s.txt' % (prop, slug(key.split('|', 1)[1])))
        with open(rp, 'w') as f:
            f.write('property: %s\nkey: %s\nrule: %s\n  %s\nwhere: %s\nwhat: %s\n' % (
                prop, key, b['rule'], R.rules.get(b['rule'], ''), b['where'], b['message']))
            if b['call_path']:
                f.write('call path:\n  %s\n' % '\n  '.join(b['call_path']))
            f.write('\nabstract path:\n%s\n' % b['trace'])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s at %s: %s' % (b['rule'], b['where'], b['message']))
        for s in b['call_path'][-3:]:
            print('    ' + s)
    s = W.stats()
    total = sum(R.obligations.values())
    print('%s %s: %d obligations over %d rules, %d functions, %d paths, %d call sites; %d unclear, %d inconclusive; %.1f s' % (
        prop, tier, total, len(R.obligations), len(s['functions']), s['paths'], s['call_sites'],
        sum(R.unclear_.values()), len(inconclusive), time.time() - t0))
    for x in inconclusive[:5]:
        print('  inconclusive: ' + x[:300])
    cov = dict(
        explanation='Static analysis of the MIR of the current tree: %d obligations examined under the rules listed; '
                    'a path the analysis cannot follow counts as unclear or inconclusive, never as a violation.' % total,
        rules={r: dict(rule=R.rules.get(r, ''), obligations=n) for r, n in sorted(R.obligations.items())},
        obligations=total, bodies_in_program=len([b for b in W.ir.bodies.values() if not b.std]),
        functions_analysed=s['functions'], paths=s['paths'], basic_blocks=s['blocks'], call_sites=s['call_sites'],
        loops=s['loops'], events=s['events'],
        unclear=R.unclear_, inconclusive=inconclusive,
        unmodelled_calls=dict(sorted(s['unmodelled'].items(), key=lambda x: -x[1])[:20]),
        known_findings=sorted(k for k in R.bad_ if k in kn), extraction_s=round(secs, 1))
    extra = getattr(R, 'extra', None)
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=TRUST, violations=viol)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
