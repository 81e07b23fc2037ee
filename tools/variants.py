"""Developer tool (no check uses it): applies edits to scratch copies of /repo and runs the rules on them.

variants.py [-v] [file.py ...] [name-prefix]
Every file under tools/variants defines V: a list of (name, want, [(file, old, new), ...]); want is 'keep' for an edit
that keeps the behaviour (no alarm may come), or the ids (space separated) of the properties it breaks (at least one
must alarm)."""
import os, sys, re, shutil, subprocess, importlib, importlib.util, traceback, contextlib, io
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
SCRATCH = os.environ.get('AJV_SCRATCH', '/tmp/wc')
MODS = ['rules_queue', 'rules_tick', 'rules_task', 'rules_api', 'rules_backend', 'rules_codec', 'rules_macro']


def rules():
    fs = {}
    for m in MODS:
        if os.path.exists('%s/ajv/%s.py' % (VERIF, m)):
            mod = importlib.import_module('ajv.' + m)
            fs.update({n: getattr(mod, n) for n in dir(mod) if re.fullmatch(r'C\d\d', n)})
    return fs


def item(s, head, new):
    """replaces the item starting with this text, up to its closing brace"""
    i = s.index(head)
    d = 0
    for n in range(s.index('{', i), len(s)):
        d += {'{': 1, '}': -1}.get(s[n], 0)
        if d == 0:
            break
    return s[:s.rindex('\n', 0, i) + 1] + new.strip('\n') + '\n\n' + s[n + 1:].lstrip('\n')


def one(job):
    slot, name, want, edits, only = job
    from ajv import extract
    from ajv.world import World
    from ajv.report import Report
    d = '%s/%s' % (SCRATCH, slot)
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--checksum', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/'], check=True)
    out = []
    for f, old, new in edits:
        if f == 'patch':
            subprocess.run(['patch', '-p1', '-s', '-d', d, '-i', old], check=True)
            continue
        p = os.path.join(d, f)
        s = open(p).read()
        if isinstance(old, tuple) and old[0] == 'item':
            if s.count(old[1]) < 1:
                return name, want, 'EDIT-FAILED %s: %s' % (f, old[1]), [], []
            s2 = item(s, old[1], new)
        elif isinstance(old, tuple):
            s2 = s.replace(old[1], new)
        else:
            if s.count(old) < 1:
                return name, want, 'EDIT-FAILED %s: %s' % (f, old[:60]), [], []
            s2 = s.replace(old, new) if name.endswith('*') else s.replace(old, new, 1)
        open(p, 'w').write(s2)
    extract.REPO, extract.CACHE = d, SCRATCH + '/cache_' + slot
    try:
        paths = extract.extract()
    except Exception as e:
        return name, want, 'BUILD ' + str(e)[-1500:], [], []
    W = World(paths[0])
    W.tier = 'quick'
    al, un = [], []
    first = want.split()
    for n, f in sorted(rules().items(), key=lambda x: (x[0] not in first, x[0])):
        if only and n not in only:
            continue
        if al and n not in first and '--all' not in sys.argv:
            break         # the bug is reported
        R = Report(n)
        try:
            f(W, R)
        except Exception as e:
            if type(e).__name__ in ('Missing', 'BuildError'):
                al.append((n, type(e).__name__, str(e)[:200]))
            else:
                un.append((n, 'EXC', traceback.format_exc()[-700:]))
            continue
        known = known_keys(n)
        for k, b in R.bad_.items():
            if k not in known:
                al.append((n, k, b['message'][:200]))
        for k, c in R.unclear_.items():
            un.append((n, k[:160], c))
    for x in W.inconclusive:
        un.append(('--', 'inconclusive', str(x)[:200]))
    return name, want, '', al, un


_known = {}


def known_keys(n):
    import json
    if not _known:
        for f in json.load(open(VERIF + '/known_findings.json'))['findings']:
            _known.setdefault(f['property'], set()).add(f['key'])
    return _known.get(n, set())


def main():
    a = [x for x in sys.argv[1:] if x not in ('-v', '--all')]
    verbose = '-v' in sys.argv
    files = [x for x in a if x.endswith('.py')] or sorted(os.listdir(HERE + '/variants'))
    pref = [x for x in a if not x.endswith('.py') and not re.fullmatch(r'C\d\d', x)]
    only = [x for x in a if re.fullmatch(r'C\d\d', x)]
    todo = []
    for f in files:
        if not f.endswith('.py'):
            continue
        p = f if os.path.exists(f) else HERE + '/variants/' + f
        sp = importlib.util.spec_from_file_location('v_' + os.path.basename(f)[:-3], p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        todo += [v for v in m.V if not pref or any(v[0].startswith(q) for q in pref)]
    N = 7
    import multiprocessing as mp
    free = mp.Manager().Queue()
    for i in range(N):
        free.put('v%d' % i)
    good = 0
    with ProcessPoolExecutor(N) as ex:
        for name, want, err, al, un in ex.map(work, [(free, v, only) for v in todo]):
            fired = sorted({x[0] for x in al})
            w = want.split()
            if err:
                st = 'ERR'
            elif want == 'keep':
                st = 'ok' if not al else 'FALSE-ALARM'
            else:
                st = 'ok' if set(w) & set(fired) else ('other' if fired else 'MISSED')
            if st == 'ok':
                good += 1
                if want == 'keep' and un:
                    st = 'ok?'
            if st != 'ok' or verbose:
                print('%-12s %-40s want=%-12s fired=%s' % (st, name, want, ' '.join(fired)))
                if err:
                    print('    ' + err[-1200:].replace('\n', '\n    '))
                if st in ('FALSE-ALARM', 'other') or verbose:
                    for x in al[:8]:
                        print('    ', *x)
                if st in ('MISSED', 'ok?') or (verbose and un):
                    for x in un[:8]:
                        print('     ?', *x)
    print('%d of %d as wanted' % (good, len(todo)))


def work(a):
    free, v, only = a
    s = free.get()
    try:
        return one((s, v[0], v[1], v[2], only))
    finally:
        free.put(s)


if __name__ == '__main__':
    main()
