#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH={
'C01':'explicit-state model checking: all interleavings of 2-3 threads running the real operations (their LLVM IR and inline assembly) under an instruction-set model; on-the-fly linearizability monitor',
'C02':'exhaustive exploration of single-call executions of the real operations over value, ordering, address and register-garbage alphabets against a sequential specification',
'C03':'exhaustive exploration of single-call executions (all single-bit and boundary differences, spurious store-conditional failures) against a sequential specification',
'C04':'explicit-state model checking: all interleavings of each operation with writers to every neighbouring byte/half-word/word, plus single-call executions at all offsets',
'C05':'exhaustive exploration of all memory accesses of load executions, alone and in all interleavings with writers',
'C09':'exhaustive exploration of every operation with every ordering combination against the documented table',
'C10':'explicit-state model checking: all interleavings of fetch_update with other operations, monitored closure calls and linearizability',
'C11':'explicit-state model checking: acyclicity of the state graph of all interleavings, and step bounds of solo executions from every explored state',
'C12':'exhaustive exploration of executions over all patterns of uninitialized bytes, with per-byte definedness tracking in the IR interpreter',
'C13':'exhaustive exploration of register assignments allowed by each inline-assembly block, comparing the final machine state with the declared effects',
'C14':'exhaustive exploration of all conversion and access sequences of a small depth against a byte-array model',
'C15':'exhaustive enumeration of all supported target/feature configurations, comparing macros, trait implementations and the documented table',
'C06':'axiomatic model checking: enumeration of all candidate executions of litmus programs over the real instruction sequences under the architecture memory models, against the C++20/Rust model',
'C07':'axiomatic model checking: enumeration of all candidate executions of litmus programs over the real instruction sequences under the architecture memory models, against the C++20/Rust model',
'C08':'axiomatic model checking: enumeration of all candidate executions of coherence litmus programs over the real instruction sequences under the architecture memory models',
'C16':'explicit-state model checking: an interrupt at every instruction boundary of every operation, running every operation, with both initial interrupt states',
}
CLAIM=open('/verif/tools/claimed.txt').read().split()
checks=[]
for c in CLAIM:
    checks.append({'property':c,'quick_cmd':f'./check.sh {c} quick','thorough_cmd':f'./check.sh {c} thorough','technique':TECH[c],'level':'model_checking','level_note':'bounded exhaustive: bounds and configurations are in the evidence file and DESIGN.md'})
na=[]
for i in range(1,17):
    c=f'C{i:02}'
    if c not in CLAIM: na.append({'property':c,'reason':'check under construction'})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
