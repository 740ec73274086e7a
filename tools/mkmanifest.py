import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
 'C25':"Seeded search: random entry lists, real tree builder, real file I/O under torn/short/flipped/failed writes and full disk, restarts, proofs tried on the real program. A clean batch is evidence, not proof.",
 'C24':"Seeded search with paired executions: every history is rerun without the outsiders' actions and final balances are compared. A clean batch is evidence, not proof.",
}
checks=[]
for p in props:
    i=p['id']
    checks.append(dict(property=i,
      quick_cmd=f"bash check.sh {i}",
      thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
      evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection: seeded schedules of transactions, clock, forks and faults on the real program, judged against a reference model, invariants and history checks",
      level="exploration",
      level_note=NOTE.get(i,"Seeded search over schedules, fault sequences, configurations and adversarial inputs on the real program and real token programs; the runtime (ledger, cross-program calls, sysvars) is simulated and trusted. A clean batch is evidence, not proof.")))
m=dict(version=1,setup_cmd="bash build.sh",checks=checks,not_applicable=[],
  notes="No hooks in /repo: the program's syscall stubs (solana_program::program_stubs) and sysvars are the seam. Any replay file: target/debug/psim replay FILE -v. known-findings.txt lists repaired and open findings.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
