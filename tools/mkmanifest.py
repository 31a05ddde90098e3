#!/usr/bin/env python3
"""Writes MANIFEST.json. Run it after adding a check."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + '/..'
TECH = {
 'C01': ('runtime monitoring: round-trip oracle over generated images', 'Every execution observed is compared pixel by pixel; images are sampled, not enumerated.'),
 'C02': ('runtime monitoring: round-trip oracle over generated byte strings', 'Byte strings are sampled (small ones over small alphabets enumerated); every byte of every output is compared.'),
 'C03': ('runtime monitoring: round-trip oracle and bit-stream reference model', 'Symbol sequences and write interleavings are sampled; skewed sequences force long codes.'),
 'C04': ('runtime monitoring: stream lengths compared with independent size models', 'The size model is independent code; zip(back) is bounded, not pinned.'),
 'C05': ('runtime monitoring: independent decoders/encoders on live and recorded streams', 'The format is pinned by independent parsers, alternative encoders and committed golden streams.'),
 'C06': ('fault injection: truncation at every byte, monitored decoders', 'Every cut of small streams; sampled cuts of long ones.'),
 'C07': ('fault injection: damaged streams with crash, hang and dimension monitors', 'Damage is sampled (single-byte damage of small streams enumerated).'),
 'C08': ('fault injection: failing writers at every operation, prefix monitor', 'Every failing operation of small streams; sampled operations of long ones.'),
 'C09': ('concurrency stress with equality monitors, ThreadSanitizer, AddressSanitizer', 'Schedules are sampled; sanitizers observe the executed ones.'),
 'C10': ('runtime monitoring: run-list trace checker', 'Independent recomputation with 1e-9 tolerance at the allowance.'),
 'C11': ('runtime monitoring: palette and weighted-mean monitor, statistical bound on nearest-colour violations', 'Internal randomness is sampled; "small fraction" is a calibrated threshold.'),
 'C12': ('runtime monitoring: site-list and redraw monitor, statistical bound on the fixed point', 'Internal randomness is sampled; "small fraction" is a calibrated threshold.'),
 'C13': ('runtime monitoring: instrumented Point type logging every dist and mean call', 'Point sets are sampled; termination is a bound on logical steps (distance evaluations).'),
 'C14': ('runtime monitoring: traversal trace checker over all small dimensions', 'All dimensions up to a bound plus sampled larger and elongated ones.'),
 'C15': ('runtime monitoring: reference grammar oracle on generated texts, exit status monitor', 'Texts are sampled and mutated from the grammar; short ones over its alphabet are enumerated.'),
 'C16': ('runtime monitoring: CSV rows of real runs against recomputed figures', 'Real program in scratch directories.'),
 'C17': ('runtime monitoring: controlled completion orders (FIFOs), fault injection, exactly-once row checker', 'Completion orders and thread counts are sampled; small path lists enumerated.'),
 'C18': ('runtime monitoring: CSV contents of real runs against the traversal model', 'Real program in scratch directories.'),
 'C19': ('runtime monitoring: directory snapshots around real runs', 'Real program in scratch directories.'),
 'C20': ('runtime monitoring: round-trip and consumption monitor of serialized values', 'Values sampled; 8- and 16-bit primitives enumerated.'),
 'C21': ('runtime monitoring: operations on 1 MiB-stack threads with crash attribution', 'Inputs built for the deepest structures the code can form at that size.'),
 'C22': ('runtime monitoring: counting byte iterator around every decoder, concatenated streams', 'Images and following bytes are sampled.'),
 'C23': ('fault injection: size limits at every byte, full devices, missing directories, monitored exit status and files', 'Every limit of small outputs; sampled limits of long ones.'),
 'C24': ('runtime monitoring: counting heap around every operation, peak memory and file limits of real runs', 'Images and damaged streams are sampled; the limits are 2.5 to 100 times what was measured.'),
 'C25': ('runtime monitoring: CPU-time monitor around every operation and run, calibrated by a reference workload', 'Images, damaged streams and lists are sampled; the limits are ten to thirty times what is usual, so constant factors are not judged.'),
}
LEVEL = {'C06': 'fault_enumeration', 'C07': 'fault_enumeration', 'C08': 'fault_enumeration', 'C23': 'fault_enumeration'}
bins = {f[:-3].upper() for f in os.listdir(here + '/harness/src/bin') if f.startswith('c') and f[1:3].isdigit()}
checks, na = [], []
for l in open(here + '/properties.jsonl'):
    i = json.loads(l)['id']
    if i in bins:
        checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick ./run.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
            technique=TECH[i][0], level=LEVEL.get(i, 'exploration'), level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='./setup.sh',
    hooks=dict(guard='--cfg cniic_verif', enable='harness/.cargo/config.toml passes the cfg to rustc when a monitor is built; /repo/src/lib.rs is an empty crate without it', source_commits=['65f99c3', 'cb1613f']),
    checks=checks, not_applicable=na,
    notes='Each check builds /repo (path dependency) into /verif/target and runs a monitor; see DESIGN.md. VERIF_SEED selects all random choices.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
