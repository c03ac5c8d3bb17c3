"""Write /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json
import pathlib
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
from dst import families

PURE = ("A pure function of its arguments: no schedule, clock, I/O, fault or shared state takes part, "
        "so there is nothing for a simulator to decide.")
NOT_APPLICABLE = {f'N0{i}': PURE for i in range(1, 6)}

NOTE = {
    'project': "Seeded search, not proof: the real project code runs on a simulated machine (in-memory file system "
               "with page cache and power loss, process table, clock) and every step is judged by a reference model. "
               "Trusted: the file-system model (atomic system calls, ordered metadata, data durable only after fsync) and the model itself.",
    'concurrent': "Seeded search over interleavings at system-call granularity with crashes and failing calls; outcome compared with the "
                  "serial model. Trusted: system calls are the only interaction between processes; the lock model is flock(2).",
    'files': "Seeded search, not proof: the real library reads and writes files on a simulated file system with injected errors, short transfers, "
             "crashes and power loss; results are compared with an independent reference reading of the same bytes.",
    'data': "Seeded search, not proof: real library code and the real netCDF library read synthetic data files; reads fail, requests are interrupted at "
            "seeded points and histories are random; every value is compared with a reference computed from the file by independent formulas.",
    'units': "Seeded search, not proof: random histories of unit requests with interrupts at seeded points and threads interleaved at seeded "
             "line boundaries, compared with a small independent table of unit definitions.",
    'aliased': "Seeded search, not proof: random histories with interrupts at seeded points and several hash seeds, compared step by step with a dictionary model.",
}


def main():
    ids = [json.loads(l)['id'] for l in (VERIF / 'properties.jsonl').read_text().splitlines()]
    checks = []
    na = []
    for pid in ids:
        if pid in families.PROPS:
            fam = families.PROPS[pid][0]
            checks.append({
                'property': pid,
                'quick_cmd': f'./check.py {pid}',
                'thorough_cmd': f'VERIF_TIER=thorough ./check.py {pid}',
                'evidence_file': f'evidence/{pid}.json',
                'technique': families.DESCRIBE[fam]['technique'],
                'level': 'exploration',
                'level_note': families.DESCRIBE[fam].get('note') or NOTE[fam],
            })
        else:
            na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, "No check has been built for this property yet.")})
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
    data = {
        'version': 1,
        'setup_cmd': './check.py setup',
        'hooks': {
            'guard': 'none',
            'enable': 'No hooks in /repo: every seam (files, processes, clock, locks, random names, netCDF reads, threads) '
                      'is taken at the standard library or interpreter level by /verif/dst.',
            'source_commits': [],
        },
        'checks': checks,
        'not_applicable': na,
        'notes': 'Violations: ./check.py replay FILE repeats one exactly. ./check.py selftest proves repeatability. '
                 'Repairs in /repo are the commits starting with "fix:"; see KNOWN_FINDINGS.json and DESIGN.md.',
    }
    (VERIF / 'MANIFEST.json').write_text(json.dumps(data, indent=1) + '\n')


main()
