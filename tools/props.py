"""The list of properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json from it."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TECH = "path-sensitive abstract interpretation of rustc MIR, every path compared with a decision table"
NOTE = ("Decided on the source: every path of the functions involved (loops once, on a generic element) is extracted from the compiler's MIR and compared with "
        "the table the property prescribes; nothing is executed. ")
TRUST = ("Trusts rustc's MIR, the library models in analysis/models.py and exact arithmetic (no rounding, NaN or overflow).")
PROPS = []


def P(id, title, statement, over, text, tests, files, mech, note='', tech=TECH, state=None, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, note=note, tech=tech,
                      state=state or [], observe=observe or [], na=na))


exec(open(os.path.join(HERE, 'props_list.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            a = {'files': p['files'], 'mechanism': [dict(name=n, where=w) for n, w in p['mech']]}
            if p['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = p['observe']
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                 'why_tests_cant': p['tests'], 'anchors': a}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash analysis/setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': f"python3 analysis/check.py {p['id']}", 'thorough_cmd': f"python3 analysis/check.py {p['id']}",
                     'evidence_file': f"evidence/{p['id']}.json", 'technique': p['tech'], 'level': 'other', 'level_note': NOTE + (p['note'] + ' ' if p['note'] else '') + TRUST}
                    for p in PROPS if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']],
         'notes': 'Every check re-extracts the MIR of /repo\'s current working tree. The analysis is exhaustive on its abstraction, so the thorough command is the same as the quick one. '
                  'No hooks are needed.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False)
        fh.write('\n')


main()
