import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'C01':'deterministic simulation with storage faults; crash oracle',
'C02':'deterministic simulation with lost, duplicated and altered records and storage faults; crash oracle',
'C03':'deterministic simulation with storage faults; step-bounded liveness with retries after errors',
'C04':'deterministic simulation with hostile length fields; memory accounting by a simulated allocator',
'C05':'deterministic simulation of writer crashes (torn storage); prefix oracle over the written history',
'C06':'deterministic simulation of writer crashes (torn files); reference mapping model',
'C07':'deterministic simulation with storage faults and continued decoding; history monitor',
'C08':'deterministic simulation of operation histories with truncation; refinement of a bit-array model',
'C09':'deterministic simulation: seeded scheduler over threads and steps, cancellation and storage crashes; equality with fresh solo runs',
'C10':'deterministic simulation of embedded streams with hostile surroundings and torn containers; differential oracle',
'C11':'deterministic simulation of lost, repeated and reordered top-level blocks; pairing model',
'C12':'deterministic simulation with storage faults; independent reference decoder',
'C13':'deterministic simulation of lost, duplicated and altered blocks and records; reference mapping model',
'C14':'deterministic simulation with damaged string tables and hostile references; byte-slice model',
'C19':'deterministic simulation of altered, lost and repeated records and storage faults; reference model of what records mean, compared with what mapping reports',
}
N={
'C01':'Seeded search over streams, faults (byte, bit, range, claims at emission, changes between reads) and callers that go on after errors; the real decoder runs with overflow checks on a 2 MiB stack in child processes. A clean batch is evidence, not proof. Trusts the harness.',
'C02':'As C01 for the mapper, with damage at the level of blocks, records and fields as well. Files hit by KF2/KF4 (memory) are skipped.',
'C03':'Progress is decided by counting requests and storage reads against linear bounds (8 requests and 64 reads per stored byte), and a CPU limit per run. Evidence, not proof.',
'C04':'Peak live bytes, measured by the accounting allocator, against 512 x stored bytes + 64 x decoded fields + 64 KiB. Largest ratio seen on the unchanged tree: about 40%. KF2 and KF4 files are excluded and shown as known findings.',
'C05':'Exact comparison with the log of what the harness\'s writer emitted; tears at every kind of place. Trusts the emitter, which is written from the format documentation.',
'C06':'Contents and verdict predicted from the complete top-level blocks by a reference mapping model. What is reported only through the log (types, functions, ...) is C19.',
'C07':'Monitor over the full history, past errors, under the faults of C01.',
'C08':'Operation-by-operation refinement of a trivial bit-array model, on whole, truncated and windowed buffers.',
'C09':'Outcomes compared event by event with those of the same inputs alone in a fresh process. Threads are real but run one at a time; switches happen at storage reads and between requests.',
'C10':'Two containers that differ only outside of the window must give identical histories, also past errors, and agree with the window alone up to the first error. Windows at unaligned offsets are not decided.',
'C11':'Pairing of modules with identifications and tables predicted by a small protocol model; contents are distinguishable.',
'C12':'Item-by-item comparison with an independent decoder up to the first error; constructs the format leaves undefined end the comparison.',
'C13':'Record-level reference verdict; where readers may differ (recorded as "left open" in the evidence) nothing is demanded.',
'C14':'Every lookup compared with a slice of the stored blob.',
'C19':'Every fact mapping reports through the log facade is compared with an independent reading of the records (codes, defaults and data layouts after LLVM). What is not reported, or in a shape that is not understood, is counted and not judged. Global variables, metadata and function bodies are not mapped by the code.',
}
NA={
'C15':'Pure function of one string: no fault, schedule, history, time or I/O takes part, so simulation with fault injection has nothing to decide; generating inputs for it would be plain property-based testing. (Data layouts as stored in modules, intact and damaged, are decided in C02, C13 and C19.)',
'C16':'Pure arithmetic and value tables without state, I/O or concurrency: nothing for a simulator to schedule or a fault to hit.',
'C17':'Pure constructors and predicates over values; no fault, schedule or history can change their outcome. (Their use while types are mapped from damaged tables is decided by C13 and C19.)',
'C18':'Constant lookup tables from numbers to enumerations; no fault, schedule or history. (The codes stored in modules, intact and damaged, are decided by C13 and C19.)',
}
m={"version":1,"setup_cmd":"./check.sh build",
"checks":[],"not_applicable":[],
"notes":"No hooks: every seam the simulator needs exists in the code (storage behind AsRef<[u8]>, the log facade, the global allocator, libc getrandom). Repairs of defects are the fix: commits in /repo, listed in KNOWN_FINDINGS.txt. Replay: ./check.sh replay FILE."}
for p in props:
    i=p['id']
    if i in T:
        m['checks'].append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":T[i],"level":"exploration","level_note":N[i]})
    else:
        m['not_applicable'].append({"property":i,"reason":NA[i]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
