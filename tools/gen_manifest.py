"""Writes MANIFEST.json: one entry per check module present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'seeded record- and byte-level attacker between the two ends; prefix invariant after every step',
    'C02': 'seeded pairs of configurations against an independent negotiation model, real and reference peers',
    'C03': 'seeded cuts, packings and paddings of the byte streams; completeness checked at quiescence',
    'C04': 'seeded peers with good and bad identities, clocks and revocation data, against an independent verdict',
    'C05': 'seeded man in the middle over the handshake; agreement of both transcripts whenever someone connects',
    'C06': 'seeded calls, closures and hostile records before the last handshake message',
    'C07': 'seeded failures at every step, then seeded histories; alerts and silence observed on the wire',
    'C08': 'seeded interleavings of writes, deliveries and closes against a small model of two half-connections',
    'C09': 'every emitted byte decrypted by an observer holding the secrets, over seeded histories with failures',
    'C10': 'records measured by an observer, and records at or over the limit sent by a reference peer',
    'C11': 'wrapped sockets over simulated sockets with short, failing, timed out and ended operations, threads under a seeded scheduler',
    'C12': 'status answers of every quality handed over, fetched and cached under a simulated, jumping clock',
    'C13': 'the fetcher against a simulated responder network, threads scheduled line by line by a seeded scheduler',
    'C14': 'stapling servers against simulated responders failing at every point',
    'C15': 'many connections over shared objects in seeded interleavings and threads, each compared with itself alone',
    'C16': 'key log compared with the reference secrets; ordinary log scanned for secrets, over seeded histories',
    'C17': 'byzantine flights and hostile bytes from reference peers; order, memory, output and progress checked',
    'C18': 'small usage limits crossed by seeded write schedules in both directions',
    'C22': 'seeded misuse in between the steps of seeded histories, each compared with the same history without it',
    'C23': 'the command in a simulated system and network, against seeded servers, responders and clocks',
    'C24': 'a seeded call the library makes to the outside raises, in the middle of seeded histories; safety, order and numbers checked',
    'C25': 'seeded impostors against servers told to authenticate: retries, offered types, wrong proofs, closures; never served',
    'C26': 'seeded lives of connections repeated with fresh values; memory held afterwards measured',
    'C19': 'the example server in a simulated network with seeded good and hostile clients',
}
checks = []
for p in sorted(NOTES):
    if os.path.exists(f'{HERE}/checks/{p.lower()}.py'):
        checks.append({
            'property': p, 'quick_cmd': f'./check {p} quick', 'thorough_cmd': f'./check {p} thorough',
            'evidence_file': f'evidence/{p}.json',
            'technique': 'deterministic simulation with fault injection: ' + NOTES[p],
            'level': 'exploration',
            'level_note': 'seeded search over schedules, faults and configurations of the real code; says nothing about the '
                          'executions it did not run'})
pure = 'pure function of its input: no schedule, clock, fault, I/O or interleaving for a simulator to decide'
na = [{'property': p, 'reason': pure} for p in ('C20', 'C21')]
na += [{'property': p, 'reason': 'check not built yet'} for p in sorted(NOTES) if not os.path.exists(f'{HERE}/checks/{p.lower()}.py')]
with open(f'{HERE}/MANIFEST.json', 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
