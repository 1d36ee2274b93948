#!/usr/bin/env python3
"""Fires the rules on scratch-copy variants of /repo: bugs (must be reported by the named property) and
behaviour-preserving edits (must stay quiet everywhere).  Development tool, not used by any check.
usage: variants.py [substring of a variant's name ...]"""
import importlib, glob, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
AN = os.path.join(os.path.dirname(HERE), 'analysis')
sys.path.insert(0, AN)
sys.path.insert(0, HERE)
SHARD = int(os.environ.get('SHARD', '-1'))
SHARDS = 6
HOME = f"/tmp/{os.environ.get('VH', 'variant')}{max(SHARD, 0)}"
SCRATCH = HOME + '/repo'
os.environ['BUMAGA_REPO'] = SCRATCH
os.environ['BUMAGA_CACHE'] = HOME + '/cache'


def fresh():
    shutil.rmtree(HOME, ignore_errors=True)
    os.makedirs(HOME)
    shutil.copytree(os.path.dirname(AN) + '/.cache/target', HOME + '/cache/target')
    subprocess.check_call(['git', 'clone', '-q', '/repo', SCRATCH])
    for f in ('Cargo.lock',):
        if not os.path.exists(f'{SCRATCH}/{f}') and os.path.exists(f'/repo/{f}'):
            shutil.copy(f'/repo/{f}', SCRATCH)


def main():
    import facts, rulelib, registry
    for p in sorted(glob.glob(AN + '/rules_*.py')):
        importlib.import_module(os.path.basename(p)[:-3])
    import known
    cat = []
    for p in sorted(glob.glob(HERE + '/variants_*.py')):
        cat += importlib.import_module(os.path.basename(p)[:-3]).VARIANTS
    want = sys.argv[1:]
    cat = [x for x in cat if not want or any(w in x[0] for w in want)]
    if os.environ.get('FAST'):
        cat = [x for x in cat if not any('css/reader' in e[0] or 'html/' in e[0] or e[0].endswith('.pest') for e in x[2])]
    names = [x[0] for x in cat]
    assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    if SHARD < 0 and len(cat) > 3:
        ps = [subprocess.Popen([sys.executable, __file__] + want, env=dict(os.environ, SHARD=str(i)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
              for i in range(SHARDS)]
        for p in ps:
            print(''.join(x for x in p.communicate()[0].splitlines(True) if not x.startswith('bad: 0')), end='')
        print('all shards done, bad:', sum(p.returncode != 0 for p in ps))
        return
    if SHARD >= 0:
        cat = cat[SHARD::SHARDS]
    fresh()
    bad = 0
    for name, expect, edits in cat:
        subprocess.check_call(['git', '-C', SCRATCH, 'checkout', '-q', '--', '.'])
        try:
            for file, old, new in edits:
                p = f'{SCRATCH}/{file}'
                s = open(p).read()
                if s.count(old) < 1:
                    raise SystemExit(f'{name}: text not found in {file}: {old[:60]!r}')
                open(p, 'w').write(s.replace(old, new, 1))
            d, _ = facts.extract()
        except facts.Broken as x:
            print(f'{name}: DOES NOT COMPILE\n{str(x)[-1500:]}')
            bad += 1
            continue
        t = time.time()
        fired = {}
        # the rules of the readers and grammars are slow and read nothing but these files
        slow = any('css/' in x[0] or 'html/' in x[0] or x[0].endswith('.pest') for x in edits)
        for pid in sorted(registry.RULES):
            if not slow and pid in ('C22', 'C24', 'C25', 'C26'):
                continue
            c = rulelib.Check(d, pid)
            try:
                for r in registry.RULES[pid]:
                    r(c)
            except Exception as x:
                import traceback
                traceback.print_exc()
                c.violate('crash', repr(x))
            vs = [v for v in c.violations if not known.is_known(pid, v['key'])]
            if vs:
                fired[pid] = vs
        good = (not fired) if expect is None else (expect in fired if isinstance(expect, str) else any(e in fired for e in expect))
        bad += not good
        print(f"{'ok  ' if good else 'FAIL'} {name}: expected {expect or 'quiet'}, fired {sorted(fired)} ({time.time()-t:.1f}s)")
        if not good or os.environ.get('V'):
            for pid, vs in fired.items():
                for v in vs[:3]:
                    print(f"       {pid} {v['key'][:200]}\n          {v['message'][:int(os.environ.get('M', '700'))]}")
    shutil.rmtree(HOME, ignore_errors=True)
    print('bad:', bad)
    sys.exit(bad and 1)


main()
