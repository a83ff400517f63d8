#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
model="model-based property testing"
T={
"C01":("property-based testing: generated operation histories against a truth-table model, plus bounded-exhaustive operand pairs","Exact comparison of every Boolean result with a truth table over up to 8 variables placed anywhere in the order, in both implementations, with collections and resizes forced inside the operations; all pairs of functions of 2 variables and all functions of 3 are enumerated. Functions of more variables are sampled by laws and pointwise evaluation."),
"C02":("property-based testing: generated histories, rebuild by other routes, structural invariant over all active nodes","Pairwise identity against truth tables, rebuild of a function by six routes, and a reducedness scan of all active nodes after generated histories, including node identifiers beyond 2^16 and 2^24 bits of level/identifier bytes. Sampled, not exhaustive."),
"C03":("property-based testing: generated histories against a truth-table model, metamorphic cache alternation","Exact comparison with a quantified truth table; operands reused with other sets and operators on purpose; collections and resizes inside the call."),
"C04":("property-based testing: generated renamings and histories against a truth-table model","Exact comparison with the substituted truth table for generated partial renamings in every relative order, several replacers interleaved on the same nodes; calls that cannot be represented are accepted only as exact result or clean error."),
"C05":("property-based testing: generated index lists against a truth-table model","Variables, sets, cubes, labels and cofactors compared with their definition, up to the largest number of variables, with collections and resizes in the middle."),
"C06":("property-based testing: independent exact recount and metamorphic laws","Each count is compared with an independent big-integer count and with complement and inclusion-exclusion laws; the returned integer is modified on purpose; the BDD is compared before and after."),
"C07":("property-based testing: disjoint exact cover oracle, injected callback errors","Assignments are checked pairwise disjoint and their union equal to the truth table; errors are injected at generated calls; callbacks compute and collect."),
"C08":("property-based testing: independent reachability oracle, injected callback errors","The visited set is compared with an independent walk; visits are interrupted and callbacks compute; all later results are compared with the model."),
"C09":("property-based testing: round trip through the printed text","The text of Print and Dot is parsed and the functions of the roots are rebuilt from it and compared with the model and the reachable set."),
"C10":("stateful property-based testing: generated reference and collection schedules against a model","All held nodes are evaluated again after each event of generated histories of creating, dropping and saturating references, with collections placed at chosen allocations."),
"C11":("stateful property-based testing: generated drop/collect histories, occupancy oracle","The active nodes after a forced collection are compared with those reachable from held nodes; long histories must keep the table bounded. A tolerance of a few nodes absorbs finalizers the Go runtime has not run."),
"C12":("differential property-based testing across options and builds","The same generated program is compared with the model under extreme options and, when it fails everywhere on one build, across builds (default, buddy, debug)."),
"C13":("fault-enumerating property-based testing: node limits at generated allocations","The limit is placed so that exhaustion falls at generated allocations of generated operations; the size of the table, the result, the error and all held nodes are checked after it."),
"C14":("property-based testing: table of invalid arguments x position x history","Every exported function is called with every class of invalid value in every position at generated points of a history; the documented failure value, no panic, and correct later results are required."),
"C15":("schedule-randomised property-based testing under the race detector","Generated single-goroutine histories run under the race detector with the Go collector running very often; any report in rudd and any wrong function is a violation. Schedules are sampled by the runtime, not controlled; the race detector makes most of them unnecessary."),
"C16":("property-based testing: interleaved and concurrent BDDs against a model","Programs over several BDDs are interleaved by a generated schedule or run concurrently (also under the race detector) and compared with the model and with a run alone."),
"C17":("property-based testing: generated kernel-level programs against a model","Functions are built bottom-up with Makenode/Pushref/Popref in generated styles, with collections and resizes at chosen allocations, and compared with the built-in result."),
"C18":("stateful property-based testing: Stats against observed nodes","The numbers parsed from Stats are compared with Allnodes and with bounds derived from the history at generated moments."),
"C19":("property-based testing: generated families with exponential path counts, processor-time and memory watchdog","Operands with few nodes and up to 2^300 paths: an operation that is not memoised does not return, so each must return (with the exact result) within 30 s of processor time per case, about 2000 times the usual need; a case over the limit is run again with 75 s before it is reported."),
"C20":("stateful property-based testing: one allocation at a time against the documented sizing rules","Each allocation of generated histories is bracketed by Stats; the decision to collect and grow and the new sizes are compared with the options. Between two percentages that round to Minfreenodes both decisions are accepted. Cache sizes are seen in debug builds only."),
"C21":("differential property-based testing across word sizes: cases of the other generators on 386 builds","Generated cases of 18 of the other properties, and cases about sizes beyond 2^31/100, are run on GOARCH=386 builds (normal and debug) of both implementations against the same model; a failing case is run again on the native build and counts only when it holds there. A library that compiles natively but not for 386 is a violation. If the kernel cannot execute 32-bit programs only the compilation is checked (a note says so)."),
}
checks=[]
for p in props:
    i=p["id"]; t,n=T[i]
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level="exploration",level_note=n+" Trusts the reference model (harness/ref) and the Go toolchain."))
m=dict(version=1,setup_cmd="./run.sh warm",checks=checks,not_applicable=[],notes="No hooks in /repo: all checks use the exported API. Known findings: known-findings.txt. A failing check prints the path of a shrunk replay file; ./run.sh replay FILE runs it again.")
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
