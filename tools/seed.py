"""Developer tool: makes and confirms planted bugs.

seed.py FILE...   [-v] [id..]  FILE defines BUGS: id, property, needs, breaks, edits=[(file, old, new)], main (Rust source of the demo)
Every bug is confirmed in a scratch copy of /repo (/tmp/seedwc): the patch applies and builds, the stable tests pass, the
demonstration passes without and fails with it; then written to /verif/seeded/<ID>/."""
import os, sys, json, shutil, subprocess, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WC = '/tmp/seedwc'
VERBOSE = '-v' in sys.argv
DEMO = open(HERE + '/seedlib/demo.sh').read()
CARGO = open(HERE + '/seedlib/Cargo.toml').read()
COMMON = open(HERE + '/seedlib/common.rs').read()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh():
    if not os.path.exists(WC):
        sh('cp -a /repo ' + WC)
    sh('git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=WC)


def demo(d):
    env = dict(os.environ, DEMO_TARGET='/tmp/seed_target')
    p = sh('bash %s/demo.sh' % d, cwd=WC, env=env, timeout=280)
    return p.returncode, p.stdout


def main():
    only = [a for a in sys.argv[1:] if not a.endswith('.py') and a != '-v']
    for f in [a for a in sys.argv[1:] if a.endswith('.py')]:
        sp = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for b in m.BUGS:
            if not only or b['id'] in only:
                make(b)


def make(b):
    fresh()
    d = '%s/seeded/%s' % (VERIF, b['id'])
    new = not os.path.exists(d)
    os.makedirs(d + '/src', exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/Cargo.toml.in', 'w').write(CARGO)
    open(d + '/src/common.rs', 'w').write(COMMON)
    open(d + '/src/main.rs', 'w').write(b['main'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)

    def fail(why, out=''):
        print('%-28s %-4s FAILED: %s\n%s' % (b['id'], b['property'], why, out[-700:] if VERBOSE else ''))
        shutil.rmtree(d)
    rc, out = demo(d)
    if rc:
        return fail('demo fails on the unchanged tree', out)
    for fn, old, new_ in b['edits']:
        p = WC + '/' + fn
        s = open(p).read()
        if s.count(old) != 1:
            return fail('edit matches %d times: %s' % (s.count(old), old[:80]))
        open(p, 'w').write(s.replace(old, new_))
    diff = sh('git diff', cwd=WC).stdout
    open(d + '/patch.diff', 'w').write(diff)
    rc, out = demo(d)
    if rc == 0 or 'could not compile' in out:
        return fail('demo does not fail with the patch (rc %d)' % rc, out)
    how = ' / '.join(out.strip().splitlines()[-2:])[-200:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 1 > /tmp/seed_test.log 2>&1; python3 /opt/vp/results.py /tmp/seed_test.json cargo:/tmp/seed_test.log', cwd=WC)
    res = json.load(open('/tmp/seed_test.json'))
    stable = base.get('stable') or base.get('tests') or base.get('passed') or base
    names = stable if isinstance(stable, list) else list(stable)
    passed = set(res.get('passed', []))
    lost = [n for n in names if n not in passed]
    if lost:
        return fail('stable tests fail: %s' % lost[:5])
    print('%-28s %-4s ok; demo: %s' % (b['id'], b['property'], how))


if __name__ == '__main__':
    main()
