#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source.
exit 0: every obligation is discharged (or fails only at a listed known finding); exit 1: VIOLATION; 2: machinery broken."""
import glob, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)


def load_rules():
    for p in sorted(glob.glob(HERE + '/rules_*.py')):
        importlib.import_module(os.path.basename(p)[:-3])


def main(pid):
    t0 = time.time()
    import facts, rulelib, registry, known
    load_rules()
    if pid not in registry.RULES:
        print(f'no rule for property {pid}')
        return 2
    try:
        F, digest = facts.extract()
    except facts.Broken as x:
        print(f'analysis not possible: {x}')
        return 2
    c = rulelib.Check(F, pid)
    for r in registry.RULES[pid]:
        try:
            r(c)
        except Exception as x:   # the code has a shape the rule cannot read: the obligation is not established
            tb = traceback.extract_tb(x.__traceback__)[-1]
            c.obligations += 1
            c.violate(f'rule:{r.__name__}', f'the rule could not be established: {type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno})', r.__name__)
    listed = known.entries(pid)
    new = [v for v in c.violations if v['key'] not in listed]
    old = [v for v in c.violations if v['key'] in listed]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, f'{pid}.violation.txt')
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {listed[v['key']]['what']}")
    if new:
        with open(replay, 'w') as fh:
            for v in new:
                fh.write(f"property {pid}\nrule    {v['key']}\nat      {v['where']} {location(F, v['where'])}\n        {v['message']}\n\n")
        for v in new[:8]:
            print(f"{pid} [{v['key']}] at {v['where']} {location(F, v['where'])}\n   {v['message']}")
        print(f'VIOLATION property={pid} replay={replay}')
    elif os.path.exists(replay):
        os.remove(replay)
    out = {
        'property': pid,
        'tier': os.environ.get('VERIF_TIER', 'quick'),
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static: the MIR of /repo\'s current source was walked path by path (loops once, on a generic element) and '
                           'every extracted path was compared with the decision table the property prescribes; nothing was executed.',
            'obligations': c.obligations,
            'discharged': c.discharged,
            'functions_analysed': sorted(c.functions),
            'paths_extracted': c.segments,
            'rules': [r.__name__ for r in registry.RULES[pid]],
            'floors': c.floors,
            'crate_functions': len(F['fns']),
            'source_digest': digest,
            'samples': c.samples[:6] or [r.__name__ for r in registry.RULES[pid]],
            'functions_treated_as_uninterpreted': sorted(x for x in c.unknown if x)[:60],
            'notes': c.notes,
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(ev, f'{pid}.json'), 'w') as fh:
        json.dump(out, fh, indent=1)
    if not new:
        print(f"{pid}: {c.discharged}/{c.obligations} obligations discharged, {c.segments} paths of {len(c.functions)} functions"
              + (f", {len(old)} known findings" if old else ''))
    return 1 if new else 0


ASSUME = [
    'rustc\'s MIR of the library crate is the program that runs',
    'the library models in analysis/models.py describe std, taffy, serde_json and pest as documented',
    'arithmetic is compared as exact real arithmetic (rounding, NaN and integer overflow are not modelled)',
    'every node of the layout tree carries an element, and tree operations on existing nodes succeed',
]


def location(F, where):
    f = F['fns'].get(where)
    if not f:
        return ''
    sp = f['body'].get('span') or f.get('span')
    return f"({sp[0]}:{sp[1]})" if sp else ''


if __name__ == '__main__':
    try:
        code = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
