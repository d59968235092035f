"""The properties and, for the claimed ones, how they are checked.  `python3 lib/props.py`
writes properties.jsonl and MANIFEST.json."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, level_note=None, observe=(), na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, technique=technique, level_note=level_note, observe=list(observe), na=na))


def main():
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import propdefs, specs, props
    P = props.P
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(V + '/properties.jsonl', 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    checks, na = [], []
    for p in sorted(P, key=lambda p: p['id']):
        if p['id'] in specs.SPECS:
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                               thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                               technique=p['technique'], level=specs.SPECS[p['id']]['level'], level_note=p['level_note']))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'no check has been built for it yet'))
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
             notes='Every check compiles the sources of /repo it needs (content-addressed object cache in /verif/build) and explores the real code; see DESIGN.md. Known findings: KNOWN_FINDINGS.txt.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    for f in [f for p in P for f in p['files']]:
        if not os.path.exists('/repo/' + f):
            print('no such file:', f)


if __name__ == '__main__':
    main()
