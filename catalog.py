#!/usr/bin/env python3
"""The property catalogue: writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, text, why, files, mech, note='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, note=note, observe=observe))


NA = []  # (property id, reason)

exec(open(os.path.join(HERE, 'catalog_data.py')).read())

if __name__ == '__main__':
    import sys
    sys.path.insert(0, HERE)
    from registry import PROPS
    ids = [q['id'] for q in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            for fn in q['files']:
                assert os.path.exists('/repo/' + fn), fn
            d = {'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
                 'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}}
            if q['observe']:
                d['anchors']['observe_at'] = q['observe']
            f.write(json.dumps(d) + '\n')
    nas = {i for i, _ in NA}
    checks = []
    for q in P:
        if q['id'] in nas:
            continue
        assert q['id'] in PROPS, q['id']
        hs = PROPS[q['id']]['harnesses']
        bounds = '; '.join('%s: %s' % (h['name'], h['bounds']) for h in hs)
        checks.append({'property': q['id'], 'quick_cmd': 'python3 check.py %s' % q['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % q['id'],
                       'technique': 'solver-based symbolic execution of the compiled LLVM IR (path exploration, Z3 decides branches and assertions), counterexamples replayed natively',
                       'level': 'model_checking',
                       'level_note': 'Every path within the bounds is explored and every assertion decided for all values of the symbolic inputs. Bounds: %s. %sTrusted: the instrumentation and expression simplifier in engine/, Z3, clang 18 and libstdc++; memory safety is judged by the object bounds the engine tracks, not by source-level types.' % (bounds, q['note'] + ' ' if q['note'] else '')})
    missing = [i for i in PROPS if i not in ids]
    assert not missing, missing
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import symx; symx.engine()"',
         'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
         'notes': 'No hooks: the checks compile the unmodified sources of /repo. See DESIGN.md.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks')
