"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ['389058f', 'a11dfec']
LEVEL = {}
TECH = {
    'C01': 'deterministic simulation: seeded solver-verdict injection, '
           'differential replay of the accepted steps',
    'C02': 'deterministic simulation: seeded buffer/memory/flush schedules, '
           'differential against the unbuffered run',
    'C03': 'deterministic simulation: seeded flush histories, stored file '
           'against the recorded history',
    'C04': 'deterministic simulation: crash and persistent I/O error at '
           'numbered file system calls, durability check afterwards',
    'C05': 'deterministic simulation: seeded histories of simulations with '
           'a controlled clock, file ownership ledger as reference model',
    'C06': 'deterministic simulation: seeded stability/tolerance verdicts, '
           'invariants over every attempt and step',
    'C07': 'deterministic simulation: seeded step schedules, series '
           'reference model checked in every step',
    'C08': 'deterministic simulation: seeded flow and control histories, '
           'conservation invariants in every step',
    'C09': 'deterministic simulation: seeded step schedules, maximum '
           'principle and energy balance invariants in every step',
    'C10': 'deterministic simulation: seeded histories and step schedules, '
           'limit invariants in every step',
    'C11': 'deterministic simulation: seeded step schedules, executable '
           'reference controller run in lockstep',
    'C12': 'deterministic simulation: seeded step schedules, executable '
           'reference switching model run in lockstep',
    'C13': 'deterministic simulation: seeded control histories and rejected '
           'steps, plant constraints over the recorded history',
    'C14': 'deterministic simulation: seeded histories aborted at seeded '
           'steps, differential reset-and-rerun against a fresh run',
    'C15': 'deterministic simulation: clock, memory, hash seed and process '
           'history varied, differential against the reference run',
    'C16': 'deterministic simulation: seeded interleavings of environments '
           'in threads, differential against each run alone',
    'C17': 'deterministic simulation: seeded histories, meters against the '
           'recorded history',
    'C18': 'deterministic simulation: invalid values and errors injected at '
           'seeded steps, history and report checks',
    'C22': 'deterministic simulation: crashes and I/O errors at seeded file '
           'system calls of packaging and of the packaged simulations, file '
           'ledger as reference model',
}
NO = {
    'C19': 'pure functions of temperature: no schedule, time, I/O, fault or '
           'history for a simulator to control (their in-situ use is covered '
           'by C09)',
    'C20': 'pure functions of two series: no schedule, time, I/O, fault or '
           'history',
    'C21': 'argument validation of single calls before a run exists: no '
           'schedule, time, I/O or fault takes part',
}
NA = []
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(
    V + '/dst/checks/c*.py')} - {'COMMON'}
checks = []
for p in props:
    i = p['id']
    if i not in have:
        NA.append(dict(property=i, reason=NO.get(i, 'no check built yet')))
        continue
    checks.append(dict(
        property=i, quick_cmd='bash dst/launch.sh check %s --tier quick' % i,
        thorough_cmd='bash dst/launch.sh check %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=TECH.get(
            i, 'deterministic simulation with fault injection'),
        level=LEVEL.get(i, 'exploration'), level_note=(
            'seeded sampling of crash and error points over every numbered '
            'file system call of the generated runs' if i == 'C04' else
            'seeded search over generated systems, schedules and fault '
            'sequences; bounds in DESIGN.md') ))
m = dict(version=1, setup_cmd='bash dst/setup.sh', hooks=dict(
    guard='MULTISIM_DST',
    enable='environment variable MULTISIM_DST=1 (set by dst/launch.sh); the '
    'checks import /repo directly, nothing has to be compiled',
    source_commits=HOOKS), checks=checks, not_applicable=NA,
    notes='All commands run in /verif. Replay a violation with: bash '
    'dst/launch.sh replay replays/<file>.json')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in NA])
