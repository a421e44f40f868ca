"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'Seeded search over preemptive interleavings (line and bytecode granularity, PCT and random) of real calls; oracle: each call alone in a pristine process. Third-party C code runs atomically.',
    'C02': 'Seeded search over call histories with interrupts, allocation failures, disk faults, model edits, file replacement; oracle: the last call in a pristine process.',
    'C03': 'Seeded search over nestings, task interleavings and exits of override blocks; oracle: value on entry.',
    'C04': 'Seeded search over operation sequences with interrupts and vanishing files; oracle: small reference model of the documented rules and defaults.',
    'C05': 'Seeded search over contents, write/read faults, crash points and truncations of configuration files; oracle: contents at save time, read in a fresh process.',
    'C06': 'Seeded search over models, write faults and crash points; oracle: independent SHC reader plus the original model, read in a fresh process.',
    'C07': 'Seeded search over models, previous files, write faults and crash points; oracle: original model parts, read in a fresh process.',
    'C08': 'Seeded search over truncation lengths and writer crash points; oracle: the complete load.',
    'C09': 'Seeded search over network and disk faults and crash points of a refresh against a simulated server; oracle: source rows and previous bytes.',
    'C10': 'Seeded search over read faults of every data file an evaluation uses; oracle: fault-free outcome in a pristine process.',
    'C11': 'Seeded search over I/O and network faults; invariant: descriptor table after the call, exception still held.',
    'C12': 'Seeded search over interleavings with a configuration writer; oracle: outcomes under single values in force during the call.',
    'C13': 'Seeded search over clock values, jumps and time zones; oracle: same call at a fixed clock in UTC.',
    'C14': 'Seeded search over options, write faults and crash points; oracle: returned arrays and an evaluation using the file in a fresh process.',
    'C15': 'Seeded search over read faults at every I/O operation of every loader; oracle: undisturbed load, journal of file mutations.',
    'C16': 'Seeded search over interleavings (at file operations) of refreshing and evaluating processes with faults, interrupts and deaths; oracle: complete versions, one order (register linearizability), contents under the name after every operation.',
    'C17': 'Seeded search over moments and sequences of file replacements during loads and evaluations; oracle: outcomes with each version in force, in pristine processes.',
    'C19': 'Seeded search over call sequences in interpreters with other options, hash seeds, locales and perturbed memory, random state, array layout and directories; oracle: the same calls in the base environment.',
    'C20': 'Seeded search over calls and the place of an interrupt (traced line, file operation), a failing malloc/calloc/realloc (LD_PRELOAD) or an exhausted stack; oracle: the exception itself, or the undisturbed outcome in a pristine process.',
    'C21': 'Seeded search over interleavings of calls and the moments of forks; oracle: the same calls in a pristine process.',
    'C18': 'Seeded search over histories, interrupts, interleavings and ways of copying; oracle: the same model in a pristine process.',
}
TECH = 'deterministic simulation with fault injection (seeded search, replayable)'
PURE = ('A pure function of its arguments: no schedule, clock, I/O, fault or history takes part, so simulating them decides '
        'nothing; it calls for property-based testing or proof. ')
EXTRA = {'P09': 'Decoding an intact file involves no fault (faulty and torn files are C08 and C15). ',
         'P08': 'Order and history independence of the parts is C02. ', 'P04': 'Clock and time-zone independence is C13. '}


def main():
    checks, na = [], []
    for ln in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(ln)['id']
        if p[0] == 'P':
            na.append(dict(property=p, reason=PURE + EXTRA.get(p, '')))
        elif os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
            checks.append(dict(property=p, quick_cmd='python3 verif.py check %s --tier quick' % p,
                               thorough_cmd='python3 verif.py check %s --tier thorough' % p, technique=TECH,
                               level='exploration', level_note=NOTE[p], evidence_file='evidence/%s.json' % p))
        else:
            na.append(dict(property=p, reason='check not built yet'))
    m = dict(version=1, setup_cmd='python3 verif.py setup',
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
