#!/usr/bin/env python3
# Writes MANIFEST.json: a check for every property that has a simulator source.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = {}
for l in open(os.path.join(here, 'properties.jsonl')):
    x = json.loads(l); props[x['id']] = x
PURE = {
 'C18': 'pure function of its argument: no schedule, clock, fault, interleaving or history can influence it, so a simulator has nothing to decide; what can be suspended (printing the digits through buffers) is decided under C01',
 'C19': 'pure function of value and format: nothing nondeterministic takes part; that the layout does not change under suspension, failure and measurement is decided under C01, C06 and C08',
 'C20': 'pure lookup tables: no fault or schedule takes part; interrupted and resumed use of the tables is decided under C09 and C10',
 'C21': 'decided by the compiler when the program is translated; there is no execution in which a scheduler or fault could change the outcome',
}
def main():
    notes = json.load(open(os.path.join(here, 'levels.json')))
    checks, na = [], []
    for i in sorted(props):
        if i in PURE:
            na.append({'property': i, 'reason': PURE[i]}); continue
        if not os.path.exists(os.path.join(here, 'sim', i.lower() + '.cpp')):
            na.append({'property': i, 'reason': 'check under construction'}); continue
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} quick',
            'thorough_cmd': f'./check {i} thorough',
            'technique': 'deterministic simulation with fault injection: ' + notes[i]['technique'],
            'level': 'exploration',
            'level_note': notes[i]['note'],
        })
    m = {'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
         'notes': 'Every run is a pure function of VERIF_SEED and the run number; ./check <id> quick --replay FILE replays a violation. No hooks in /repo: all seams (destination, iterators, notifiers, stream buffers, C streams, allocators, locale functions, thread scheduling through compiler instrumentation) are outside it.'}
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
