#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property in properties.jsonl."""
import json, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(d + '/properties.jsonl')]
src = ''.join(open(f'{d}/harness/h/{f}').read() for f in sorted(os.listdir(d + '/harness/h')))
done = set(re.findall(r'&Prop\{\s*ID:\s*"(C\d\d)"', src))
T = {
 'C01': ('trace checker: emitted bytes vs independent reference encoder', 'exploration'),
 'C02': ('round-trip monitor with consumption tracking and reference bytes', 'exploration'),
 'C03': ('reflection-generated types monitored against a reference codec', 'exploration'),
 'C04': ('generated ABIs and values monitored against a model of the schema', 'exploration'),
 'C05': ('hostile-input stress with panic, allocation and CPU-time monitors', 'exploration'),
 'C06': ('malformed-ABI stress with termination monitor and resolvability oracle', 'exploration'),
 'C07': ('truncation at every offset under an acceptance monitor', 'fault_enumeration'),
 'C08': ('instrumented readers: fragmentation, read-past and sequence monitors', 'exploration'),
 'C09': ('fault injection at every write and read, error-surfacing monitor', 'fault_enumeration'),
 'C10': ('decode histories on one variable vs fresh decode', 'exploration'),
 'C11': ('canary and scribble monitors on inputs, outputs and spare capacity', 'exploration'),
 'C12': ('repeated-execution monitor for bytes and digests vs reference', 'exploration'),
 'C13': ('Go race detector under concurrent stress, results vs sequential run', 'exploration'),
 'C14': ('text conversion monitor vs independent reference', 'exploration'),
 'C15': ('text conversion monitor vs exact decimal reference', 'exploration'),
 'C16': ('text conversion and corruption monitor vs independent base58/RIPEMD-160', 'exploration'),
 'C17': ('conversion monitor vs arbitrary-precision reference', 'exploration'),
 'C18': ('conversion monitor vs own calendar arithmetic, under several time zones', 'exploration'),
 'C19': ('text conversion and malformed-text monitor vs own hex/base64', 'exploration'),
 'C20': ('hostile-text stress with panic monitor and re-parse fixpoint oracle', 'exploration'),
 'C21': ('encoding and corruption monitor vs independent big-integer base58', 'exploration'),
 'C22': ('operation-sequence monitor on the hash vs independent RIPEMD-160', 'exploration'),
 'C23': ('JSON documents monitored against independently built document trees', 'exploration'),
 'C24': ('generated code compiled and run, outputs compared with the generic codec', 'exploration'),
 'C25': ('recording hooks: call-log checker and reference with overrides', 'exploration'),
 'C26': ('single-deviation stress with refusal monitor', 'exploration'),
 'C28': ('live-heap and goroutine monitor over long runs of distinct calls', 'exploration'),
 'C29': ('the monitors of the other properties, library and generated code built for GOARCH=386, vs the same references', 'exploration'),
 'C30': ('user code that re-enters and panics at chosen calls: inner, outer and later results vs reference', 'exploration'),
 'C31': ('counters of block executions, allocated bytes and calls at sizes n, 3n, 9n vs the allowed power', 'exploration'),
 'C27': ('recording marshaler types: call-log checker and reference with their formats', 'exploration'),
}
NOTE = 'Runtime monitoring of the real code: holds on every execution observed, no proof beyond them. Trusts the reference model in harness/h (written from the format, never calling the code it judges) and the Go toolchain and runtime.'
EX = {
 'C05': ' Allocation is bounded by 32 MiB + 128 KiB per input byte; 60 s of CPU time in one call counts as not terminating.',
 'C07': ' Every strict prefix of each generated encoding up to 300 bytes, a sample with both ends beyond that.',
 'C09': ' Every write call (up to 60 per value) and every read offset (up to 120), sampled beyond.',
 'C13': ' The race detector reports races on the interleavings that happened; results are compared with a sequential run.',
 'C24': ' The generator runs on generated struct declarations; its output is compiled and executed.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in done:
        t, l = T[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}', 'evidence_file': f'evidence/{i}.json', 'technique': 'runtime monitoring: ' + t, 'level': l, 'level_note': NOTE + EX.get(i, '')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all observation goes through the public API, instrumented readers, writers and callbacks, the race detector and the runtime\'s own counters. /repo carries "fix:" commits only, listed in known_findings.txt.'}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
open(d + '/MANIFEST.json', 'a').write('\n')
