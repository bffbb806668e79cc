import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
NA={
}
NOTE="Seeded search, not proof: every run is one exactly repeatable execution of the real xecs code under a simulated scheduler; interleavings are controlled at every lock operation, every atomic operation and futex call of the library, and at user code run by the library (destructors, conversions, iteration steps, pauses with guards held). Bounded: up to 5 clients with a few operations each, 6 component types, worlds of up to about 1000 entities. Trusts the simulated lock's contract (that of parking_lot), the reference model in sim/core/src/model.rs. "
EXTRA={
 'C01':"Oracle: reference model of ids, checked at every audit and by linearization search over concurrent histories.",
 'C02':"Oracle: batch ranges and the cells/groups they produce against the model that attaches one by one.",
 'C03':"Oracle: linearization search over per-entity cells; audits read every cell through every door (guards, storages, slices, queries).",
 'C04':"Oracle: Free is only possible in the model when the entity is bare and unpinned; a new id must be bare.",
 'C05':"Oracle: every yield, lookup, size hint and the end of iteration explained by one model state.",
 'C06':"Oracle: as C05, for group queries, with the plain query of the same components compared at every audit.",
 'C07':"Oracle: at every quiescent audit the storage slices start with the group's entities, in query order.",
 'C08':"Oracle: model of group legality; values compared before and after by audits.",
 'C09':"Oracle: windows of shared and exclusive access recorded at the API boundary must not overlap, values under a guard must not change; one listed known finding.",
 'C10':"Oracle: a removal may not take effect while the model has the entity pinned by a handle.",
 'C11':"Oracle: the scheduler sees every blocked thread: a state in which nobody can run is a deadlock; step budget for livelock; no lock held after an operation.",
 'C12':"Oracle: while a client is stalled holding access, blocked threads are compared with what they may wait for; Debug may never block.",
 'C13':"Oracle: refused calls must be refusable in the model and leave the audited world unchanged and no lock held.",
 'C14':"Fault injection: panics in client code at chosen points, in destructors and in conversions run by the library; the world is audited afterwards. A candidate counts only if it disappears without the faults.",
 'C15':"Oracle: ledger of every value made: exactly one of stored, returned, dropped once; also read-after-drop and end-of-world.",
 'C16':"Oracle: linearization search over resource registers.",
 'C18':"Workload: the world is made, filled, shared, and destroyed by different simulated threads, and in the middle of a concurrent history every kind of guard, handle and running query is offered to another thread, and every kind of value that must stay on its thread to the world. Whether the type system lets the offer through is read from the compiled crate; what it lets through happens in the simulated run and is judged there.",
 'C19':"Oracle: the same history is played in a world without a group and in worlds with each kind of group; the simulated cost of iterating, counted in accesses to the worlds' memory by the compiled library, is compared. Simulated cost only: wall-clock time, caches and optimised builds are not measured.",
 'C22':"Oracle: the same calls in a second world, whose hash maps and addresses are different; everything shown by every call is compared, and the whole world at the end.",
 'C23':"Oracle: the simulator's allocator; bytes held by an emptied world after every round of the same history, and by nobody after its destruction.",
 'C20':"Workload: two worlds used by the same threads, each with its own client operations, faults, model and ledger; a candidate counts only if each world alone is fine.",
 'C21':"Oracle: every compiled memory access of the library to memory it allocated is judged: happens-before by vector clocks over simulated locks, atomics, thread start and end; freed and out-of-bounds bytes by a shadow map; std's unsafe-precondition checks are on. Not judged: stack memory, aliasing rules without a second thread. One listed known finding.",
 'C17':"Workload: real System streams polled over RwLock<World> with exclusive steps, cancellation and panicking steps; same model.",
}
m={'version':1,'setup_cmd':'./check.sh build','checks':[],'not_applicable':[],
 'notes':"No hooks in /repo: the seam is the parking_lot dependency, which sim/Cargo.toml patches with sim/simlock (same lock_api types, scheduler inside), plus a seeded getrandom for the hash maps' RandomState and, by instrumenting the compiled code (sim/rustc-wrap.sh), hooks at its atomic operations, futex calls and clock reads. /repo carries fix commits only; see known-findings.txt and DESIGN.md."}
for p in P:
    i=p['id']
    if i in NA: m['not_applicable'].append({'property':i,'reason':NA[i]}); continue
    m['checks'].append({'property':i,'quick_cmd':f'./check.sh check --property {i} --tier quick','thorough_cmd':f'./check.sh check --property {i} --tier thorough','evidence_file':f'evidence/{i}.json',
      'technique':'deterministic simulation with fault injection: seeded search over schedules, faults and workloads, checked against a reference model',
      'level':'exploration','level_note':NOTE+EXTRA[i]})
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
