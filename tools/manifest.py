#!/usr/bin/env python3
"""Writes MANIFEST.json (development helper)."""
import json, subprocess
root='/verif'
tech={
'C01':'property-based testing: antisymmetry, transitivity and sorting laws over generated version families, plus exhaustive small sets',
'C02':'property-based testing: metamorphic respelling of generated versions',
'C03':'property-based testing against an independent reference model, plus exhaustive enumeration of short versions',
'C04':'property-based testing: differential between all comparison entry points',
'C05':'property-based testing: algebraic laws and round-trips of the operators',
'C06':'coverage-guided and random fuzzing against a reference acceptor',
'C07':'coverage-guided and random fuzzing against a reference tokenizer',
'C08':'property-based testing against a reference model, with reflexivity/transitivity laws',
'C09':'property-based testing of constraints against a reference model',
'C10':'coverage-guided structured fuzzing for clean refusal and usability',
'C11':'property-based testing: Boolean reference evaluation over generated expressions',
'C12':'property-based testing: round-trip of generated expressions',
'C13':'property-based testing: mutated expressions against a reference grammar',
'C14':'property-based testing: equality laws over generated near-equal trees',
'C15':'property-based testing: generated documents against an independent reader',
'C16':'mutation fuzzing of documents, bytes and paths against an independent validator',
'C17':'property-based testing: differential between the Python class (stand-in interpreter) and the library',
'C18':'property-based testing against a reference pattern matcher',
'C19':'property-based testing: text and exactness against the generated constraint',
'C20':'differential testing of generated operation histories (orders, repetitions, threads) against pristine processes',
'C21':'property-based testing against a reference model, with complement law',
'C22':'property-based testing: order laws and a reference model over pairs and triples of components, and versions against their components',
'C23':'property-based testing: generated parsers against a reference model of the components they return',
'C24':'property-based testing: generated constraints and caller-made versions against a reference model of text and components',
}
note={
'default':'Holds on every generated case of the run (counts in the evidence file); the oracle is code of its own that shares nothing with the library. Absence outside the explored cases is not established.',
'C04':'Every comparison entry point is compared with one three-way result; which result is right is C03.',
'C10':'Decides absence of crashes (panic, abort, stack overflow, runaway) on the generated texts; nesting up to a few hundred levels.',
'C17':"The binding's own source is compiled against a stand-in for the cpython crate (the real crate crashes with the installed Python); the interpreter's argument conversion is trusted.",
'C20':'Answers in a history are compared with answers of pristine processes; thread schedules are whatever the operating system produces, so a race confined to a rare interleaving can be missed.',
'C16':'Whether a file must be refused is decided by an independent JSON reader and schema; cases the format leaves open only have to not crash.',
}
hook=subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep','Re-export private constraint types'],text=True).split()
checks=[]
for i in sorted(tech):
    checks.append({"property":i,"quick_cmd":f"./check run {i} quick","thorough_cmd":f"./check run {i} thorough","technique":tech[i],"level":"exploration","level_note":note.get(i,note['default'])})
m={"version":1,"setup_cmd":"./check setup","hooks":{"guard":"cfg(verif_hooks)","enable":"RUSTFLAGS=\"--cfg verif_hooks\"","source_commits":hook},"checks":checks,"not_applicable":[],
"notes":"./check replay FILE runs a reported case again; ./check show ID N prints generated cases. known-findings.txt lists repaired defects only."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
open(root+'/MANIFEST.json','a').write('\n')
