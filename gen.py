#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the rules that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.rules import RULES  # noqa: E402

CORE, MODEL, API = 'cheval/core.py', 'cheval/model.py', 'cheval/api.py'
LDF, MISS = 'cheval/ldf/api.py', 'cheval/ldf/missing_data.py'
TRANS, EXPR = 'cheval/parsing/ast_transformer.py', 'cheval/parsing/expressions.py'
PROPS = []


def prop(pid, title, statement, over, text, why, mech, technique, note='', na=None):
    files = sorted({w.split(' ')[0].split(':')[0] for _, w in mech})
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
                      technique=technique, note=note, na=na))


VF = 'abstract interpretation of the source to value-flow terms'
TRUST = ' Trusts the documented behaviour of numpy, pandas, numexpr and numba, and the abstract interpreter in sa/.'

# ------------------------------------------------------------------------------------------------ kernels
prop('P01', 'Records computed in parallel do not affect each other',
     'In every computation that runs records in parallel (sampling, probabilities, indexed matrix addition), a record only '
     'reads its own inputs and only changes its own part of the results, so the result does not depend on the number of '
     'threads or the order in which records are run. An indexed addition whose targets would collide is refused.',
     ['schedules', 'inputs'], 'every schedule of the parallel loop, every input matrix',
     'Tests run a few small matrices under whatever schedule the machine gives; a race shows only under some schedules.',
     [('parallel workers over records', f'{CORE} worker_*'), ('indexed addition', f'{CORE} fast_indexed_add')],
     f'effect and alias analysis of parallel loops ({VF})',
     'Every store in a parallel loop is shown to go to an element indexed injectively by the loop variable or to memory '
     'allocated in the iteration; no value is carried between iterations.')
prop('P02', 'A seeded run is reproducible and every record has its own draw',
     'A discrete run given a seed (an integer or a RandomState) returns the same choices every time: every random draw comes '
     'from a generator seeded, in the same activation, from that seed alone, and never from within parallelised code. Every '
     'record uses a draw (or seed) of its own, uniform over the unit interval.',
     ['schedules', 'inputs', 'configurations'], 'every seed, number of draws, number of threads and schedule',
     'Tests compare a few seeded runs in one process; they cannot cover all seeds, thread counts and generator states.',
     [('generator seeding helpers', f'{CORE} generate_rand_*_for_parallel, sample_multi'),
      ('seed handling of a run', f'{MODEL} ChoiceModel.run_discrete')],
     f'dataflow of seeds and draws ({VF})')
prop('P03', 'Infeasible records are reported, or get zero probabilities, never garbage',
     'A record whose alternatives are all unavailable raises a UtilityBoundsError whenever a choice is to be sampled or the '
     'feasibility check is on, also when records run in parallel. With the check off nothing is raised, and the record gets '
     'probabilities of zero; no division by a zero total is carried out.',
     ['inputs', 'configurations', 'schedules'], 'every record, every nest structure, check on or off, any batch size',
     'Tests check a handful of records; the error must also survive parallel execution and hold for any nest structure.',
     [('check in the kernels', f'{CORE} multinomial_probabilities, nested_probabilities'),
      ('check after the parallel loop', f'{CORE} worker_*'), ('the flag of a run', f'{MODEL} ChoiceModel.run_stochastic')],
     f'path conditions of raises and divisions ({VF})')
prop('P05', 'A draw selects the first alternative whose cumulative probability reaches it',
     'Given probabilities and a draw in (0, 1], the alternative sampled is the first whose cumulative probability is at '
     'least the draw, by the one-draw and the many-draw samplers alike. An alternative of zero probability is never sampled, '
     'and rounding of the total never selects an alternative out of range.',
     ['inputs'], 'every probability vector and every draw, boundary draws included',
     'Boundary draws and rounding of the cumulative sum have measure close to zero; random tests do not meet them.',
     [('one draw', f'{CORE} sample_once'), ('many draws', f'{CORE} sample_multi, logarithmic_search'),
      ('the samplers', f'{CORE} multinomial_sample, nested_sample, worker_*_sample')],
     f'loop-invariant and bisection analysis ({VF})')
prop('P06', 'Probabilities have the multinomial and nested logit form',
     'A multinomial probability is exp(u) over the sum of exp(u) of the record. In a nested model the logsum of a nest is '
     'collected from all of its children before it is used, deepest level first, the utilities below a nest are scaled by the '
     'scales of all its ancestors, each probability is multiplied by those of all its ancestors, and the records and logsums '
     'reported are those of the formula.',
     ['inputs', 'configurations'], 'every record, every tree of any depth and any order of its nodes',
     'Tests compare a few fixed trees with stored numbers; the form has to hold for any depth and any node order.',
     [('multinomial form', f'{CORE} multinomial_probabilities'), ('nested form', f'{CORE} nested_probabilities'),
      ('results of the workers', f'{CORE} worker_*_probabilities')],
     f'symbolic normal form of value-flow terms, loop order analysis ({VF})',
     'Decides the algebraic form over the reals; floating-point accuracy is not claimed.')

exec(open(os.path.join(HERE, 'gen_more.py')).read()) if os.path.exists(os.path.join(HERE, 'gen_more.py')) else None

# ------------------------------------------------------------------------------------------------ not applicable
prop('N01', 'Probabilities of a feasible record sum to one within rounding',
     'For every feasible record the probabilities returned are between zero and one and sum to one within floating-point '
     'rounding, whatever the size of the utilities.',
     ['inputs'], 'every feasible record', 'Rounding and overflow depend on the magnitudes.',
     [('probability kernels', f'{CORE} multinomial_probabilities, nested_probabilities')], '',
     na='Rests on the magnitude of run-time floating-point values (overflow of exp, rounding of sums), which no static '
        'argument in reach bounds; P06 decides the algebraic form, which gives a sum of one over the reals.')
prop('N02', 'Sampled shares converge to the probabilities',
     'Over many draws the share of each alternative converges to its probability.',
     ['inputs'], 'every record and number of draws', 'A statistical statement.',
     [('samplers', f'{CORE} sample_once, sample_multi')], '',
     na='Statistical: it rests on the distribution of numpy\'s generator. P02 and P05 decide the deterministic parts.')
prop('N03', 'A run completes within memory and time proportional to its size',
     'A run needs time and memory proportional to records times alternatives.', ['inputs'], 'every size',
     'Sizes in tests are small.', [('runs', f'{MODEL} ChoiceModel')], '',
     na='A quantitative resource bound over numpy, pandas and numexpr internals that are not in the source analysed.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            if p['na'] or p['id'] in RULES:
                f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < (3, 8))"', 'checks': [],
         'not_applicable': []}
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in RULES:
            m['checks'].append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}',
                                'thorough_cmd': f'python3 check.py {p["id"]}', 'technique': p['technique'],
                                'level': 'other', 'level_note': (p['note'] or 'Decides the rules listed in DESIGN.md on every '
                                'path of the functions analysed.') + TRUST})
        else:
            print('not built:', p['id'])
    for r in RULES:
        assert any(p['id'] == r for p in PROPS), r
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
