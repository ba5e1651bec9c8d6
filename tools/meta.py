"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py  (lists a property once checks/cXX.py exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None),
                  technique=technique, note=note))


A_TECH = 'deductive: contracts on the real traced code, verification conditions in exact real algebra + z3'
A_NOTE = ('Every postcondition is discharged for all inputs, all batch sizes and arbitrary (uninterpreted) function approximators, from the computation JAX '
          'traces out of /repo on each run. Assumes real arithmetic for floats, JAX primitive semantics, and the instantiated trailing sizes listed in the evidence; '
          'Python-level guards are exercised on concrete inputs (bounded, labelled).')
B_TECH = 'deductive: contracts on the real Python code executed on symbolic state (path-wise VCs, z3)'
B_NOTE = ('Pre/postconditions, loop invariants and data-structure invariants on the real functions: each run re-parses /repo, executes the current source on symbolic state and lets z3 discharge every path obligation. '
          'Assumes real arithmetic and unbounded integers, and the modelled numpy/builtin semantics named in the evidence; sizes that are instantiated rather than symbolic, and native runs on concrete inputs, are listed there as bounded and '
          'not counted as proved.')

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))]
    have.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in have:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    checks = [dict(property=p['id'], quick_cmd='VERIF_TIER=quick ./py run.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough ./py run.py %s' % p['id'],
                   evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='proof', level_note=p['note']) for p in have]
    na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='./py -c "import jax, coax" || true', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')
    print(len(have), 'properties; without a check:', [p['id'] for p in P if p not in have])


if __name__ == '__main__':
    main()
