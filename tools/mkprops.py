#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the JSON stays valid).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

SINGLE="The unit tests run one fixed single-threaded script and mostly print; no test shares a World between threads, so no schedule is ever exercised."

p("C01","Live entity ids are unique, exact and recycled",
 "Every id handed out by entity creation is positive and different from every other live id, and an id exists exactly from the creation that returned it until its removal takes effect, for every id value asked about, including ids never issued. Creating a single entity reissues a freed id whenever one is available and otherwise extends the id range by one. This holds for any interleaving of concurrent creations, removals and lookups.",
 ["schedules","histories","inputs"],"every history of create/remove/exist/lookup calls on any number of threads, every interleaving of them, every id value",
 SINGLE+" manager_test recycles three ids once, in one order, and never asks about a removed or unissued id.",
 ["src/entity.rs","src/world.rs"],
 [("free-id chain and dense id list","src/entity.rs EntityManager::{allocate,remove,has}"),("allocation and handle under one lock","src/world.rs World::{create_entity,remove_entity,exist,entity}")],
 [("entity_flags","per id: live with its index, or free and linked to the next free id","src/entity.rs EntityManager")],
 ["World::create_entity","World::exist","World::entity","World::remove_entity"])

p("C02","Batch creation is contiguous and batch attach equals single attaches",
 "Creating n entities at once returns n consecutive ids, none of them live at that moment, even while other threads create and remove entities. Attaching a list of values to the batch gives the i-th id the i-th value, with exactly the effect of attaching them one at a time, overwriting and group membership included.",
 ["schedules","histories","inputs"],"every batch size including zero, every earlier history, every interleaving with other threads, every set of groups",
 SINGLE+" enitites_test makes one batch of five in a world with no groups and attaches each type once.",
 ["src/entity.rs","src/sparse_set.rs","src/world.rs"],
 [("contiguous allocation","src/entity.rs EntityManager::allocate_n"),("batch attach","src/entity.rs Entities::attach"),("dense bulk insert","src/sparse_set.rs SparseSet::add_batch")],
 observe=["World::create_entities","Entities::attach","Entities::into_ids"])

p("C03","Components behave as linearizable per-entity cells",
 "Each pair of entity and component type behaves as a linearizable cell: attaching sets it (replacing any earlier value), detaching empties it and returns its value, and guards, storages and handles read and write its current value and nothing else. No operation on one entity or component type changes the value of another. Counts, membership tests and raw data slices agree with these cells.",
 ["schedules","histories","inputs"],"every history of attach/overwrite/detach/read/write over any entities and types, every interleaving of threads",
 SINGLE+" The sparse-set tests touch at most six ids in one fixed order.",
 ["src/sparse_set.rs","src/component.rs","src/entity.rs","src/world.rs"],
 [("swap-remove with index fix-up","src/sparse_set.rs SparseSet::{add,remove,swap_by_index}"),("per-type RwLock","src/world.rs World.components"),("typed guards","src/component.rs StorageRead/StorageWrite/ComponentRead/ComponentWrite")],
 [("indices/entities/data","sparse-to-dense map and the dense arrays that must stay mutually inverse","src/sparse_set.rs SparseSet")],
 ["World::{attach_component,detach_component,entity_component_read,entity_component_write,components_read,components_write}","Entity::{attach,detach,component_read,component_write}"])

p("C04","Removal leaves no trace and new entities start bare",
 "Once an entity's removal has returned, no read, storage, query or group shows any component of it, and removing, looking up or attaching to it is refused until its id is issued again. An id is reported dead or reissued only after all its components are gone, so a newly created entity never has a component that was not attached to it since its creation, whatever other threads did with that id before or during the removal.",
 ["schedules","histories"],"every history before the removal, every set of groups, every interleaving of the removal with handles, attaches, detaches and other removals",
 SINGLE+" component_test removes one entity with one component and no group.",
 ["src/world.rs","src/entity.rs","src/group/mod.rs"],
 [("leave groups, strip storages, free id","src/world.rs World::remove_entity"),("handle holds the entity manager","src/entity.rs Entity.borrow_entity_manager")],
 observe=["World::remove_entity","World::create_entity","World::query","World::components_read"])

p("C05","Queries yield exactly the matching entities",
 "A query yields every entity that matches its pattern (required components, tuples of up to five, nesting, exclusions) exactly once, with that entity's own id and current values, and nothing else. Looking up an id inside the query gives the same verdict and values as iterating it, and remaining-size hints never contradict what is still yielded. The whole result reflects one instant during the query.",
 ["schedules","histories","inputs"],"every pattern built from shared/mutable components, tuples, nesting, Without and groups; every world content; every interleaving with other threads",
 SINGLE+" basic_test and without_test check six patterns on one eight-entity world.",
 ["src/query/mod.rs","src/query/with.rs","src/query/without.rs"],
 [("lead iterator plus lookup by id","src/query/with.rs WithIter*::{next,next_with_id,from_id}"),("exclusion","src/query/without.rs"),("single-component iterators","src/query/mod.rs IterRef/IterMut/IdIter")],
 observe=["World::query","QueryIterator::{from_id,next_with_id}","WithId::with_id","Iterator::{next,size_hint}"])

p("C06","Group queries equal plain queries",
 "A query through a full-owning, partial-owning or non-owning group, with any mix of shared and mutable access, yields exactly the entities holding both components, each once, with the same ids and values as the plain query of the same two components. This holds after any history of attaching, overwriting, detaching, batch attaching, removal and id reuse, on any threads, and with any number of other groups over the same components.",
 ["schedules","histories","configurations"],"every group kind and set of coexisting groups, every history before and after the group is made, every interleaving",
 SINGLE+" group_test builds three groups and only prints; no test iterates a group.",
 ["src/group/full_owning/mod.rs","src/group/full_owning/query.rs","src/group/partial_owning/mod.rs","src/group/partial_owning/query.rs","src/group/non_owning/mod.rs","src/group/non_owning/query.rs","src/entity.rs","src/world.rs"],
 [("membership upkeep","src/group/*/mod.rs {add,remove,make,in_group}"),("callers that keep groups in step","src/entity.rs Entity::{attach,detach}, Entities::attach; src/world.rs World::remove_entity"),("group iterators","src/group/*/query.rs")],
 [("length / group sparse set","how many entities are in an owning group; which ids are in a non-owning one","src/group/*/mod.rs")],
 ["World::query over FullOwning/PartialOwning/NonOwning"])

p("C07","Owning groups stay packed at the front and aligned",
 "Whenever no operation is in progress, a storage owned by a group lists exactly the entities of that group first, contiguously, in its data slice and in query order. For a full-owning group both storages list them in the same order.",
 ["schedules","histories","configurations"],"every history and interleaving, every legal set of coexisting groups, at every quiescent point",
 SINGLE+" No test looks at storage order once a group exists.",
 ["src/group/full_owning/mod.rs","src/group/partial_owning/mod.rs","src/group/mod.rs"],
 [("swap to the group boundary","src/group/full_owning/mod.rs, src/group/partial_owning/mod.rs {add,remove,make}"),("documented layout","src/group/mod.rs module documentation")],
 observe=["StorageRead::data","World::query::<&T>().with_id()"])

p("C08","Making groups is lossless and ownership is exclusive",
 "Making a group never adds, loses or changes any component value, whatever happened before. A component storage is owned by at most one group: repeating a group, making one that would own an already owned component, or pairing a component with itself, is refused, every other combination of distinct registered components is accepted, and a refusal leaves the world unchanged and fully usable.",
 ["histories","configurations","schedules"],"every order of make_group calls interleaved with component operations and other threads' steps",
 SINGLE+" group_test makes three compatible groups once and never a conflicting one.",
 ["src/world.rs","src/group/mod.rs","src/group/full_owning/mod.rs","src/group/partial_owning/mod.rs","src/group/non_owning/mod.rs"],
 [("duplicate and ownership assertions","src/world.rs World::make_group"),("initial build","src/group/*/mod.rs make"),("ownership predicates","src/group/mod.rs Group::{owned,owning}")],
 observe=["World::make_group","World::components_read","World::query"])

p("C09","Shared and exclusive access never overlap",
 "While shared access to a component type or resource is held (a guard, a running query, or a reference obtained from one), nothing modifies that type's storage and the values seen do not change; while exclusive access is held, no other access to it is granted. Another thread asking for conflicting access waits until the holder is done.",
 ["schedules","fault_sequences"],"every combination of guards, queries and resources on any threads, every interleaving, including holders that stall or panic",
 SINGLE+" Nothing in the suite holds a guard while another thread runs.",
 ["src/component.rs","src/resource.rs","src/query/mod.rs","src/group/full_owning/query.rs","src/group/partial_owning/query.rs","src/group/non_owning/query.rs","src/world.rs"],
 [("lock guard stored beside the raw pointer","src/component.rs, src/query/mod.rs, src/group/*/query.rs"),("one RwLock per component type and resource","src/world.rs World")],
 observe=["StorageRead/StorageWrite","ComponentRead/ComponentWrite","ResourceRead/ResourceWrite","query iterators"])

p("C10","A held entity handle pins its entity",
 "While a handle to an entity or to a batch of new entities is held, those entities stay in existence: a concurrent removal does not take effect until the handle is dropped. Everything attached, detached, read or written through the handle concerns that entity only and never a later entity with the same id.",
 ["schedules"],"every interleaving of handle holders with removals and re-creations on other threads",
 SINGLE+" No test removes an entity while a handle exists.",
 ["src/entity.rs","src/world.rs"],
 [("handle keeps a read guard of the entity manager","src/entity.rs Entity/Entities.borrow_entity_manager"),("removal takes the manager exclusively","src/world.rs World::remove_entity"),("creation hands its lock to the handle","src/world.rs World::{create_entity,create_entities}")],
 observe=["World::entity","World::create_entity","World::create_entities","World::remove_entity"])

p("C11","Operations never deadlock",
 "When every thread starts each operation holding no handle, guard or query, and when all queries and group declarations name component types in one common order and a query uses either one group or plain components, every operation eventually returns. No interleaving of creations, attaches, detaches, removals, lookups, reads, writes, queries and resource accesses deadlocks or livelocks, even when threads crash in the middle, and no access stays locked after its holder is done.",
 ["schedules","fault_sequences","configurations"],"every interleaving of any mix of operations by any number of threads under the stated discipline, with crashes and stalls",
 SINGLE+" A lock-order inversion needs two threads and one particular interleaving.",
 ["src/world.rs","src/entity.rs","src/group/full_owning/query.rs","src/group/partial_owning/query.rs","src/group/non_owning/query.rs"],
 [("lock order manager, groups, storages","src/world.rs World::remove_entity; src/entity.rs Entity::{attach,detach}; src/group/*/query.rs"),("no accumulation of storage guards","src/world.rs World::remove_entity")],
 observe=["every World operation returns"])

p("C12","Holding one component never delays unrelated ones",
 "A guard or running query on one component type or resource, however long it is held, never delays plain reads, writes or queries of component types that share no group with it, nor access to other resources, even while other operations queue up behind the holder. Shared accesses (reads and shared queries) of the same component type or resource never delay one another while nobody holds or asks for exclusive access to it. Formatting the world for debugging never blocks at all.",
 ["schedules","fault_sequences"],"every stalled holder, every set of operations queued behind it, every interleaving",
 SINGLE+" Blocking is invisible to a single-threaded test.",
 ["src/world.rs","src/entity.rs","src/component.rs","src/resource.rs"],
 [("per-type locks","src/world.rs World.components/resources"),("storages stripped one at a time","src/world.rs World::remove_entity"),("try-lock formatting","src/world.rs impl Debug for World")],
 observe=["World::{components_read,components_write,query,resource_read,resource_write}","Debug for World"])

p("C13","Refused calls change nothing",
 "A call refused for a documented reason (unregistered component, nonexistent entity, duplicate registration or group, owned component, missing group, wrong batch length) panics, or returns nothing where it is specified to, without changing any observable component, entity, group or resource state and without leaving anything locked. Later calls behave as if the refused call had never been made.",
 ["histories","inputs","schedules","fault_sequences"],"every documented refusal at every point of every history, alone or concurrent with other calls",
 "No test triggers any documented panic, and none continues to use a world after one.",
 ["src/world.rs","src/entity.rs","src/query/mod.rs","src/sparse_set.rs"],
 [("assertions before mutation","src/world.rs World::{register,make_group,remove_entity,attach_component,detach_component}; src/entity.rs Entity::{attach,detach}, Entities::attach"),("bounds checks","src/sparse_set.rs SparseSet; src/entity.rs EntityManager::has")],
 observe=["catch_unwind around each call, then a full audit through the public API"])

p("C14","A crashing thread never corrupts the world",
 "If a thread panics at any point, in its own code while holding handles, guards or queries, or in a component's destructor run by an operation, every access it held is released and other threads continue. The world stays consistent: other entities and components keep their values, queries and groups stay exact, removal can be retried, and no destroyed value is ever reachable again.",
 ["fault_sequences","crash_points","schedules"],"every point at which user code runs inside or between operations, every interleaving with other threads",
 "No test panics while a guard is held or inside a destructor.",
 ["src/world.rs","src/entity.rs","src/sparse_set.rs","src/component.rs"],
 [("guards released by unwinding, no poisoning","src/component.rs, src/entity.rs, src/query/mod.rs"),("structures updated before user destructors run","src/sparse_set.rs SparseSet::{add,remove}"),("leave groups before stripping storages","src/world.rs World::remove_entity")],
 observe=["audit and further operations after every injected panic"])

p("C15","Every value is dropped exactly once",
 "Every component or resource value handed to the world is at any later time in exactly one place: stored in the world, returned to the caller, or dropped once. Overwritten, removed and replaced values and everything left when the world is dropped are dropped exactly once; nothing is leaked, duplicated or read after being dropped.",
 ["histories","schedules","fault_sequences"],"every history ending in dropping the world, every interleaving, with and without injected panics",
 "The tests use plain data types without destructors, so a leak or double drop is invisible.",
 ["src/sparse_set.rs","src/component.rs","src/entity.rs","src/resource.rs","src/world.rs"],
 [("swap_remove moves values out","src/sparse_set.rs SparseSet::remove"),("overwrite drops the old value","src/sparse_set.rs SparseSet::{add,add_batch}"),("type-erased storage with drop glue","src/component.rs ComponentStorage; src/world.rs World")],
 observe=["drop ledger kept by the harness's component and resource types"])

p("C16","Resources are linearizable typed singletons",
 "Reading a resource type gives the value last registered or written for exactly that type, an unregistered type gives nothing, and registering a type again replaces its value. Concurrent writers never lose an update, readers never delay one another while nobody wants to write, and formatting a guard shows the value. Resources are unaffected by entities, components, groups and other resource types.",
 ["schedules","histories"],"every history of register/read/write/format over several resource types, every interleaving",
 SINGLE+" resource_test uses one resource type once.",
 ["src/resource.rs","src/world.rs"],
 [("type-keyed RwLock map","src/world.rs World::{register_resource,resource_read,resource_write}"),("typed guards","src/resource.rs")],
 observe=["World::{register_resource,resource_read,resource_write}","Deref/DerefMut/Debug/Display of the guards"])

p("C17","Systems sharing one locked world see whole steps only",
 "Systems run as concurrent streams over one world behind a read-write lock: registrations, groups, resources and component changes made in one exclusive step are visible in whole to every later step and in part to none, and steps that share the world behave as if each operation took effect at one instant. Cancelling a system between steps, or a step that panics, leaves the world unlocked, consistent and usable by the other systems.",
 ["schedules","fault_sequences","histories"],"every interleaving of any number of systems, each cancelled or panicking at any step",
 "No test implements System or puts a World behind a lock.",
 ["src/system/mod.rs","src/world.rs","src/lib.rs"],
 [("System: Stream with a shared locked world","src/system/mod.rs System"),("exclusive methods take &mut World, shared ones &World","src/world.rs World")],
 observe=["System::world","Stream::poll_next of harness systems"])

p("C18","World is shareable across threads, guards stay on theirs",
 "A world can be sent to and shared between threads for any registrable component type: it can be made, used, and destroyed on different threads. Lock guards, entity handles and running queries of a world cannot be sent to another thread, and a value that must stay on its thread cannot get into a world, so no sequence of safe calls makes one thread use or destroy what belongs to another, and threads sharing a world neither race for memory nor fail where one thread alone would not.",
 ["schedules","histories","programs"],"every program that compiles against the crate, every point of a history at which something could be handed over",
 "What compiles is fixed, but what a hand-over does depends on who holds what at that point; the tests never hand anything over.",
 ["src/lib.rs","src/component.rs","src/world.rs","src/resource.rs","src/entity.rs"],
 [("Send + Sync bounds","src/component.rs Component/ComponentStorage; src/resource.rs Resource"),("guards of lock_api with GuardNoSend","src/component.rs StorageRead/StorageWrite, src/resource.rs")],
 observe=["hand-over of guards, handles, iterators and values to another thread, where the crate lets it compile"])

p("C19","Grouped iteration is faster than plain iteration",
 "Whatever history a world has gone through, iterating through a group costs less than the plain query of the same components over the same entities (in worlds where hardly anything is outside the group it is at least not much more), and a full-owning group is the cheapest of the three kinds.",
 ["inputs","histories"],"every history of a world of two components with a group made at any point, every mutability of the query, with and without ids",
 "There is no benchmark in the repository, and a single timing is noise.",
 ["src/group/mod.rs","src/group/full_owning/query.rs","src/group/partial_owning/query.rs","src/group/non_owning/query.rs"],
 [("dense packed iteration","src/group/*/query.rs"),("plain queries","src/query/mod.rs")],
 observe=["World::query over no group, full, partial and non-owning groups: number of memory accesses"])
p("C20","Worlds are independent of each other",
 "Every world behaves as if it were the only one in the process, whatever the same or other threads do with other worlds before, meanwhile or afterwards: its ids, registrations, groups, values and resources are its own, and a guard, handle or query on one world never delays or fails a call on another. Dropping a world, or a panic inside a call on it, affects no other world.",
 ["histories","schedules","fault_sequences"],"every pair of histories on two worlds, interleaved in every way on shared threads",
 "Every test uses one world on one thread.",
 ["src/world.rs","src/entity.rs","src/query/mod.rs","src/group/mod.rs"],
 [("all state lives in the value","src/world.rs World::new"),("id pool per world","src/entity.rs EntityManager::new"),("group lookup per world","src/world.rs World::{group,groups,has_group}")],
 observe=["the whole public API on two worlds at once"])
p("C21","Safe calls never break memory safety",
 "Whatever safe calls are made on worlds, by whatever threads and in whatever interleaving, refused calls and calls interrupted by a panic included, no two threads access the same memory, one of them writing, unless the library's locks or atomics order the two accesses; and no memory is read, written or freed after it was freed, outside its allocation, or as a value it does not hold.",
 ["schedules","histories","fault_sequences"],"every history of safe calls on any number of threads, every interleaving, with panics and refusals anywhere",
 "Tests run on one thread and a race or a stale access that happens to read the right bytes passes them.",
 ["src/world.rs","src/component.rs","src/entity.rs","src/sparse_set.rs","src/query/mod.rs","src/group/mod.rs","src/resource.rs"],
 [("guards carry references next to the lock they hold","src/component.rs StorageRead/StorageWrite"),("type-erased storages are downcast unchecked","src/component.rs downcast_ref/downcast_mut"),("queries keep slices of locked storages","src/query/mod.rs, src/group/*/query.rs"),("unchecked indexing","src/sparse_set.rs get_unchecked*")],
 observe=["every memory access of the compiled library code","allocation and release"])
p("C22","The same calls have the same effects",
 "What a world does depends on nothing but the calls made on it: after the same sequence of calls from one thread, two worlds have issued the same ids, refused the same calls, hold the same values in the same storage order and yield the same items in the same order from every query and group, whatever the hash keys, addresses and other worlds of the process. (In which order the components of one removed entity are destroyed is not specified.)",
 ["histories","inputs"],"every single-threaded history, played in any number of worlds and processes",
 "Every test plays its history once.",
 ["src/world.rs","src/entity.rs","src/sparse_set.rs","src/group/mod.rs"],
 [("ids are reissued last-freed-first","src/entity.rs EntityManager"),("storages and groups are ordered vectors","src/sparse_set.rs, src/group/*/mod.rs"),("hash maps are only looked up by type","src/world.rs World")],
 observe=["results of every call, ids, storage slices, query order"])
p("C23","A world does not grow without need",
 "Memory held by a world is bounded by what it held at its fullest: when single entities and their components come and go any number of times, with queries, groups, lookups and refused calls in between, an emptied world holds no more memory after many rounds than after few, and destroying a world leaves nothing behind.",
 ["histories"],"every history repeated any number of times",
 "No test repeats anything or looks at memory.",
 ["src/entity.rs","src/sparse_set.rs","src/world.rs","src/group/mod.rs"],
 [("ids are recycled","src/entity.rs EntityManager::{allocate,remove}"),("components leave their storage","src/sparse_set.rs SparseSet::remove"),("members leave their groups","src/group/*/mod.rs remove")],
 observe=["bytes allocated and not freed by the library"])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
