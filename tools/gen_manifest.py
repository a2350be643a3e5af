"""Write MANIFEST.json: one check per module of vf/checks, with the technique and note below"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'explicit-state bounded model checking of the real code: every sequence/combination in the stated spaces is executed'
N = ('Exhaustive within the bounds listed in the evidence file (spaces); the real gcodeutils code runs on every explored '
     'case. ')
INFO = {
    'C01': ('lock-step with a reference RepRap machine', 'Trusts the reference machine vf/machine.py (own tokenizer and state).'),
    'C02': ('lock-step with a reference RepRap machine', 'Trusts the reference machine; G90/G91 also select the extrusion mode.'),
    'C03': ('read/write round trip against the text itself', 'Oracle is the input text; alphabet covers commands, comments, malformed numbers, free text.'),
    'C04': ('layers and printed heights against the reference machine', 'Heights are at least 0.02 mm apart, as the property states.'),
    'C05': ('extents against the reference machine', 'Trusts the reference machine.'),
    'C06': ('all split points, differential against whole parsing', 'Differential: whole parse is the oracle (itself decided by C01-C05).'),
    'C07': ('all formatting placements, differential against the plain program', 'Differential: the plain writing of the same program is the oracle.'),
    'C08': ('all pairs of programs against an independent comparison', 'Trusts the independent tokenizer of vf/machine.py.'),
    'C09': ('all edit sequences against a list-of-lists model', 'Trusts a list-of-lists model of layers.'),
    'C10': ('original and translated program executed side by side on the reference machine', 'Trusts the reference machine; rounding of half a micron per written line.'),
    'C11': ('line by line comparison under all alignments', 'Trusts the independent tokenizer.'),
    'C12': ('original and converted program executed side by side on the reference machine', 'Trusts the reference machine.'),
    'C13': ('line by line comparison', 'Trusts the independent tokenizer.'),
    'C14': ('output against an independent insertion model', 'Trusts the reference machine for printed heights.'),
    'C15': ('recorded visit sequences against the layer structure', 'Oracle: the list of layers of the program.'),
    'C16': ('arcs and replaced moves executed and compared geometrically', 'Trusts vf/arcs.py (arc interpolation by centre offsets).'),
    'C17': ('filament and feed rate of arcs against the moves they replace', 'Trusts the reference machine and vf/arcs.py.'),
    'C18': ('all interleavings of blocks and interruptions of the arc window', 'Trusts the matching of vf/arcs.py.'),
    'C19': ('all combinations of circular runs, contexts and delimiters', 'Bounds on radius, step and count as in the statement.'),
    'C20': ('all block sequences and settings, displacement of every point bounded', 'Trusts the independent reading of the slicer comments in vf/stretching.py.'),
    'C21': ('all block sequences and argument combinations, line by line comparison', 'Trusts the reference machine.'),
    'C22': ('all loops of the family against an independent implementation of the documented algorithm', 'Trusts the independent implementation in vf/stretching.py.'),
    'C23': ('all height sequences and settings, output against insertion model', 'Trusts the reference machine for heights.'),
    'C24': ('all height sequences and settings against the documented formula', 'Trusts vf/tempcal.py (exact decimal arithmetic).'),
    'C25': ('all option subsets crossed with I/O forms, in-process and as real processes', 'Differential between runs of the real entry points.'),
    'C26': ('exhaustive fault injection at every call and file operation of an in-place run', 'Faults are exceptions raised at each intercepted step; failure of the final write itself is excluded.'),
    'C27': ('all move/dwell sequences and their equivalent rewritings', 'Differential plus the definition of the sum.'),
    'C28': ('all argument subsets crossed with value families', 'Trusts the independent tokenizer.'),
    'C29': ('printed report against the reference machine', 'Trusts the reference machine.'),
    'C30': ('all interleavings of the steps of two runs, differential against each run alone in a new process', 'Differential: the run alone in a new process is the oracle; steps are whole library calls.'),
    'C31': ('all tools on all spellings, differential against the plain spelling', 'Differential: the result for the plain spelling is the oracle (decided by the other properties).'),
    'C32': ('every callback monitored against the finished analysis and the reference machine', 'Differential plus the reference machine for positions.'),
    'C33': ('lock-step with a reference RepRap machine', 'Trusts the reference machine vf/machine.py (own tokenizer and state).'),
    'C34': ('all sequences of answers and failures of a scripted filter', 'Oracle: the answers themselves.'),
}

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'vf', 'checks', i.lower() + '.py')):
        how, note = INFO[i]
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T + '; ' + how,
                       'level': 'model_checking', 'level_note': N + note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: checks use the public API and the command line entry points. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as out:
    json.dump(m, out, indent=1)
    out.write('\n')
