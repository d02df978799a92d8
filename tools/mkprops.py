#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
H="src/lace.h, src/lace14.h"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
HDR=["src/lace.h","src/lace14.h"]; LIB=["src/lace.c","src/lace14.c"]

prop("C01","A spawned task that is synced runs exactly once",
 "Every task that is SPAWNed and then SYNCed is executed exactly once: either by its owner inside SYNC or by exactly one thief, never by both and never by neither. This holds for every task arity, for void and non-void tasks, in lace and lace14.",
 ["schedules","programs"],"All interleavings of one owner spawning/syncing with any number of concurrent thieves and work requests, all queue contents.",
 "A double or lost execution needs a thief to claim the last shared task in the few instructions between the owner's moving of the split point and its re-reading of the tail; the tests run a few computations on a strongly ordered machine with whatever interleavings occur.",
 HDR,[("TASK_DECL_n: NAME_SPAWN, NAME_SYNC, NAME_SYNC_SLOW","src/lace.h"),("lace_steal: compare-and-swap on the tail/split word","src/lace.h"),("lace_shrink_shared: store split, full fence, re-read tail","src/lace.h"),("lace_leapfrog: leave only when the thief is done, then mark all stolen","src/lace.h")],
 [("tail/split word","tasks below split are shared, tasks below tail are stolen","Worker.ts in src/lace.h"),("allstolen","every task of the frame is stolen","Worker/WorkerP in src/lace.h")])
prop("C02","SYNC of a stolen task waits for it and yields its own result",
 "When a task was stolen, SYNC returns only after the thief has completed that very task, and the value it returns is the value that execution produced. When it was not stolen, SYNC returns the value of executing it in place.",
 ["schedules","programs"],"All timings of the thief relative to the waiting owner, all arities and result types.",
 "Returning early needs the owner to look between the thief's claim and its completion mark; the tests reach only the few timings that occur.",
 HDR,[("lace_leapfrog waits for the completion mark","src/lace.h"),("lace_steal writes the completion mark (release) after the call","src/lace.h"),("NAME_WRAP stores the result in the descriptor","src/lace.h"),("NAME_SYNC_SLOW reads it back","src/lace.h")])
prop("C03","Arguments and results arrive unchanged through every entry point",
 "For every number of parameters a variant supports, a task's body receives exactly the argument values that were given, in order, whether it is reached by SPAWN+SYNC, by a thief, or by CALL, RUN, RUNEX, NEWFRAME or TOGETHER. CALL, SYNC, RUN, RUNEX and NEWFRAME return exactly the value the body returned.",
 ["programs","inputs"],"All arities 0..6 (lace) and 0..14 (lace14), void and non-void, all argument values, all seven ways to reach the body.",
 "The tests and CI runs use only a handful of arities and entry points; an error in the code generated for one arity is invisible to them.",
 HDR+["src/lace.sh"],[("per-arity macros TASK_DECL_n/TASK_IMPL_n","src/lace.h, src/lace14.h"),("generator","src/lace.sh")])
prop("C04","Task descriptors always fit their slot, oversized tasks are rejected",
 "A task whose parameters or result do not fit in a task slot is rejected at compile time, for every arity and for void and non-void tasks; every task that compiles fits its slot. Slots are a whole number of cache lines, hold the documented number of pointer-sized parameters (6 in lace, 14 in lace14) and take the documented 64 or 128 bytes.",
 ["programs"],"All task declarations, both variants, C and C++.",
 "No test declares a task that is too large, so a missing size check for some arity is invisible; the overflow would silently corrupt the neighbouring task.",
 HDR,[("static_assert(sizeof(TD_NAME) <= sizeof(Task))","src/lace.h"),("LACE_TASKSIZE, Task","src/lace.h")])
prop("C05","The task queue never overruns: overflow is always detected",
 "A worker's queue holds exactly the number of tasks requested at start; spawning one more terminates the program with a diagnostic instead of writing outside the queue, for every arity. Looking for the current position in the queue never reads outside it either, for any queue size.",
 ["inputs","programs"],"All queue sizes >= 1 (below 2^31), all spawn depths, all arities.",
 "The tests use the default size of 100000 and never come near the end of the queue.",
 HDR+LIB,[("bounds test in NAME_SPAWN","src/lace.h"),("lace_abort_stack_overflow","src/lace.c"),("allocation size and end pointer","lace_start, lace_init_worker in src/lace.c"),("lace_get_head","src/lace.c")])
prop("C06","DROP discards an unstolen task and waits for a stolen one",
 "A task that is DROPped before any thief has claimed it is never executed afterwards, by anyone. If it had already been stolen, DROP returns only after the thief has completed it.",
 ["schedules","programs"],"All interleavings of DROP with thieves, all later operations of the same worker.",
 "No test uses DROP.",
 HDR,[("lace_drop, lace_drop_slow, lace_leapfrog","src/lace.h")])
prop("C07","Code entered on a worker continues at the true top of its queue",
 "RUN, RUNEX, NEWFRAME, TOGETHER and LACE_VARS used on a worker thread continue exactly above that worker's pending tasks: they never overwrite a pending task and never leave an already finished or dropped slot below the new position. In particular a slot is marked in use by SPAWN and marked free again on every way a task leaves the queue.",
 ["programs","histories","schedules"],"All queue depths and histories of SPAWN/SYNC/DROP before the entry.",
 "The tests enter nested code at shallow depths only, after SYNC only; the search for the top has separate linear, doubling and bisection phases that they do not reach.",
 HDR+LIB,[("lace_get_head search","src/lace.c"),("slot marks (thief field)","src/lace.h")])
prop("C08","Requests for work are answered; sharing never loses tasks",
 "An idle worker that finds a victim with unshared tasks asks it for work, and the victim's next SPAWN (or next SYNC that leaves unshared tasks behind) makes at least one more task stealable and clears the request. LACE_MAKE_ALL_SHARED makes every pending task stealable.",
 ["schedules","histories"],"All queue states when a request is pending, all arities.",
 "If requests were ignored all results would still be correct; only parallelism would be lost, which no test measures.",
 HDR,[("movesplit flag in lace_steal, NAME_SPAWN, NAME_SYNC_SLOW","src/lace.h"),("lace_make_all_shared","src/lace.h")])
prop("C09","SPAWN is wait-free and a steal attempt is lock-free",
 "SPAWN, and a SYNC whose task is not shared, finish within a bounded number of their own steps: they contain no loop, lock, blocking or allocating call. One steal attempt contains no loop and no lock either: apart from running the task it stole it either succeeds, or reports failure, at once.",
 ["schedules"],"All interleavings, all arities, both variants.",
 "A loop or a lock there does not change any result; the tests do not bound steps.",
 HDR,[("NAME_SPAWN, NAME_SYNC, lace_steal","src/lace.h")])
prop("C10","Thieves only ever pick other, existing workers",
 "Whatever the number of workers, each victim a thief picks while searching for work is one of the existing workers and is not itself; with a single worker nobody is picked. Every other worker can be picked.",
 ["configurations","schedules"],"All worker counts, all worker ids, all states of the pseudo random generators.",
 "The tests run with 1, 2 and all workers of one machine; an out-of-range or self pick that happens for particular ids or counts only reads a neighbouring word.",
 LIB,[("victim choice in lace_steal_loop and lace_steal_random","src/lace.c")])
prop("C11","Waiting and idle workers keep serving interrupts and external tasks",
 "An idle worker checks for new external tasks, interrupts (NEWFRAME/TOGETHER) and suspension in every round of its search. A worker that waits in SYNC or DROP for a stolen task, or in TOGETHER for the others, keeps trying to do useful work and keeps answering interrupts, so an interrupt is never blocked by a waiting worker.",
 ["schedules","histories"],"All schedules, all waiting loops of workers.",
 "A missing check shows up only if the interrupt arrives while a worker is in that particular loop, and then as a hang.",
 HDR+LIB,[("YIELD_NEWFRAME in lace_leapfrog, lace_steal_random, lace_steal_loop","src/lace.h, src/lace.c"),("external task and suspension polls in lace_steal_loop, lace_steal_random","src/lace.c")])
prop("C12","An interrupt is taken by every worker exactly once, one at a time",
 "When several workers start an interrupt (NEWFRAME or TOGETHER) at the same time, one goes first and the others take part in it before starting their own. The initiator and every other worker pass the same sequence of synchronisation points for each interrupt; everyone copies the interrupt's task before it may disappear, and a finished interrupt is never seen again.",
 ["schedules","histories"],"All numbers of simultaneous initiators, all schedules, nested interrupts.",
 "The window between taking part and a stale interrupt pointer is a few instructions; the one test of this runs a fixed recursion.",
 LIB,[("lace_wrap_together, lace_wrap_newframe: compare-and-swap on the interrupt pointer, join loop","src/lace.c"),("lace_yield: copy, barrier, execute","src/lace.c")])
prop("C13","TOGETHER runs one copy on every worker, start and end together",
 "TOGETHER runs the given task exactly once on each worker; no copy starts before all workers have stopped what they were doing and TOGETHER does not return before all copies are complete. A worker that finishes its copy early keeps helping until all are done.",
 ["schedules","programs"],"All worker counts and schedules, calls from workers and from other threads.",
 "The tests do not check how often the copies ran or when.",
 LIB,[("lace_together_root, lace_wrap_together, lace_exec_in_new_frame","src/lace.c")])
prop("C14","NEWFRAME runs its task once while the other workers help",
 "NEWFRAME runs the given task exactly once, on the worker that issued it, while every other worker interrupts its work and steals from the new frame until the task is complete, and only then resumes. NEWFRAME returns after the task is complete.",
 ["schedules","programs"],"All worker counts and schedules, calls from workers and from other threads.",
 "The tests do not observe helpers nor the order of completion and resumption.",
 LIB,[("lace_newframe_root, lace_wrap_newframe, lace_steal_loop with a quit flag","src/lace.c")])
prop("C15","An interrupted computation is frozen and restored exactly",
 "While an interrupt runs, no task of the interrupted computation can be stolen; steals that succeeded before the freeze stay accounted for. Afterwards every worker's queue (stolen, shared and private part) is exactly as it was before the interrupt, and no worker resumes stealing from the old frame before all have left the new one.",
 ["schedules","histories"],"All queue states at the time of the interrupt, all concurrent steals, nested interrupts.",
 "Losing a task here needs a steal to land between freezing and saving, or a queue state (all stolen / partly shared) the tests do not steer to.",
 LIB,[("lace_exec_in_new_frame save, fence, restore","src/lace.c")])
prop("C16","lace_barrier releases nobody before everyone has arrived",
 "No worker returns from lace_barrier before all workers of this run have entered it, every worker that entered returns once all have arrived, and the barrier can be reused immediately any number of times.",
 ["schedules","histories","configurations"],"All worker counts, all arrival orders, any number of consecutive uses.",
 "Early release or a lost wake-up needs a fast worker to lap a slow one in a narrow window.",
 LIB,[("lace_barrier: sense-reversing barrier","src/lace.c"),("lace_barrier_init","src/lace.c")],
 [("count, wait, leaving","arrivals, current sense, departures","lace_bar in src/lace.c")])
prop("C17","RUN from any thread executes its task once and returns after it",
 "A RUN or RUNEX issued from a thread that is not a worker blocks until its own task has been executed exactly once by a worker, and then returns that task's result. This holds for any number of threads doing so at the same time, while workers are suspended, and when signals interrupt the waiting thread.",
 ["schedules","inputs","fault_sequences"],"Any number of concurrent callers, all schedules, signals delivered to the waiting thread.",
 "All tests issue one RUN at a time from one thread, without signals.",
 LIB,[("lace_run_task, lace_run_task_exclusive: hand-over word, semaphore","src/lace.c"),("lace_steal_external","src/lace.c")],
 [("external_task","hand-over word, empty or one waiting task","src/lace.c")])
prop("C18","RUNEX excludes all other external tasks",
 "While a task started with RUNEX from outside Lace is being executed, no other task started with RUN or RUNEX from outside Lace is being executed. Afterwards waiting callers always proceed.",
 ["schedules"],"Any number of concurrent RUN and RUNEX callers, all schedules.",
 "No test uses RUNEX.",
 LIB,[("external_task_counter, external_task_exclusive under the mutex, condition variable","src/lace.c")])
prop("C19","On a worker thread, RUN executes in place and identities are right",
 "On a worker thread RUN and RUNEX execute their task directly on that worker, exactly once, without blocking on or handing over to other workers; NEWFRAME and TOGETHER start from that worker as well. Every worker knows itself: lace_is_worker() is 1 exactly on worker threads, and the worker id seen by a task is the id of the worker that runs it.",
 ["programs","schedules"],"All nestings of RUN inside tasks, all worker counts.",
 "A RUN that blocks for itself hangs only with few workers or unlucky schedules; ids are printed but not checked.",
 LIB,[("lace_get_worker, thread local worker pointer, lace_init_worker","src/lace.c"),("worker branches of lace_run_task, lace_run_task_exclusive, lace_run_newframe, lace_run_together","src/lace.c")])
prop("C20","Descriptors on a waiting thread's stack are never used after release",
 "RUN, RUNEX, NEWFRAME and TOGETHER keep their task descriptors on the stack of the waiting caller; no worker touches such a descriptor after it has released the caller, and no caller returns before it was released. Likewise a thief never touches a stolen task's slot after it has marked it complete.",
 ["schedules"],"All schedules around completion.",
 "A late access usually hits still intact stack memory and goes unnoticed.",
 LIB+HDR,[("lace_steal_external after sem_post","src/lace.c"),("lace_steal after the completion mark","src/lace.h"),("lace_yield's local copy","src/lace.c")])
prop("C21","lace_start creates exactly the requested workers",
 "lace_start(n, q) starts exactly n workers with ids 0..n-1 (or one per available hardware thread if n is 0), each with its own queue of q tasks (the documented default if q is 0, whatever was used before) and the requested program stack size. lace_workers() reports that n.",
 ["configurations","histories"],"All worker counts, queue sizes, stack sizes, all sequences of start and stop.",
 "The tests use default queue and stack sizes only and never check ids or counts.",
 LIB,[("lace_start, lace_worker_thread, lace_init_worker","src/lace.c")])
prop("C22","lace_stop ends all workers and gives back everything",
 "lace_stop returns only after every worker has left the framework, also if the workers were suspended. Everything lace_start acquired, including threads, memory and semaphores, is given back, so that start and stop can be repeated any number of times.",
 ["histories","schedules","configurations"],"All start/stop histories, all memory allocation configurations.",
 "The tests start and stop a few times; a leak per start or a use of freed memory by a late worker needs many repetitions or unlucky timing to show.",
 LIB,[("lace_stop","src/lace.c")])
prop("C23","Every lace_start begins with clean state",
 "Nothing that happened before lace_stop influences a later lace_start: quit and suspend requests, running counts, barrier, interrupts, queues and counters all start from their initial values. No worker acts before this initialisation is complete.",
 ["histories"],"All histories before the restart.",
 "The tests restart after the same kind of regular run only.",
 LIB,[("initialisation part of lace_start, lace_init_worker, lace_barrier_init","src/lace.c")])
prop("C24","Suspend stops all workers, resume wakes all of them",
 "After the lace_suspend that matches the last outstanding resume returns, every worker is blocked without using CPU until the next lace_resume, which wakes every worker exactly once. Suspend and resume may be nested and issued by several threads at once (including the pairs implied by RUN); workers only stop between tasks, and no worker is stopped while a resume is outstanding.",
 ["schedules","histories"],"All sequences and interleavings of suspend, resume, RUN and stop, signals delivered to workers.",
 "One test suspends and resumes ten times from one thread.",
 LIB,[("lace_suspend, lace_resume","src/lace.c"),("suspension branch of lace_steal_loop","src/lace.c")],
 [("lace_awaken_count","nesting depth, -1 while changing","src/lace.c"),("must_suspend, workers_running, suspend_semaphore","request, number of awake workers, sleeping place","src/lace.c")])
prop("C25","Failure to get memory or threads is reported, not ignored",
 "If memory for workers or queues cannot be allocated or a worker thread cannot be created, lace_start terminates the program with a diagnostic. It never continues with missing memory or fewer workers than announced.",
 ["fault_sequences","configurations"],"Every allocation and thread creation of the start sequence failing, in both memory configurations.",
 "The tests never run out of memory or threads.",
 LIB,[("checks after aligned_alloc/mmap/pthread_create","lace_start, lace_init_worker in src/lace.c")])
prop("C26","Event counters count what they say",
 "With counting enabled: each SPAWN counts exactly one task; each successful steal or leap counts once as such, each failed claim as busy, each attempt as a try; each move of the split point counts once in its direction and each request for work once. The report adds the counters of all workers, resetting clears all of them, and counting never changes what is executed.",
 ["configurations","schedules"],"All counting configurations, all paths through spawn, sync and steal, all arities.",
 "The tests are built with counting off.",
 HDR+LIB,[("PR_COUNTTASK, PR_COUNTSTEALS, PR_COUNTSPLITS sites","src/lace.h, src/lace.c"),("lace_count_report_file, lace_count_reset","src/lace.c")])
prop("C27","Documented build options build and take effect",
 "Each documented build option, alone and combined, yields headers and libraries that compile without errors for C and C++ users, and switching it on or off really switches the corresponding code in the library and in user code consistently.",
 ["configurations"],"All combinations of LACE_USE_MMAP, LACE_USE_HWLOC, LACE_COUNT_TASKS, LACE_COUNT_STEALS, LACE_COUNT_SPLITS, LACE_PIE_TIMES, both variants, C and C++.",
 "The tests are built in one configuration.",
 ["CMakeLists.txt","src/lace_config.h.in","src/lace.h","src/lace14.h","src/lace.c","src/lace14.c"],[("option() and configure_file","CMakeLists.txt, src/lace_config.h.in"),("conditional code","src/lace.h, src/lace.c")])
prop("C28","SYNC and DROP always refer to the latest unsynced SPAWN",
 "Within a task body every SPAWN pushes at the body's current queue position and every SYNC or DROP pops exactly the most recent task not yet synced, so nested and consecutive spawns pair up last-in first-out. CALL runs its task above all pending tasks and leaves the position unchanged.",
 ["programs"],"All sequences of SPAWN, SYNC, DROP and CALL in a task body, all arities.",
 "The tests use a few fixed patterns; code above an incorrect position overwrites a pending task only for some patterns.",
 HDR,[("SPAWN, SYNC, DROP, CALL, WRAP macros","src/lace.h"),("NAME_WRAP, NAME_CALL pass the position on","src/lace.h")])
prop("C29","Parallel programs compute what their sequential reading computes",
 "For every deterministic fork-join program whose tasks do not race, the result is the same as executing every SPAWN as a call, for any number of workers and any schedule.",
 ["programs","schedules"],"All programs, all schedules.",
 "Quantifies over whole executions.",
 HDR+LIB,[("the whole framework","src")])
prop("C30","Every operation eventually completes under a fair scheduler",
 "Under a fair scheduler every RUN, SYNC, NEWFRAME, TOGETHER, suspend, resume and stop issued according to the documentation eventually returns.",
 ["schedules","histories"],"All fair infinite schedules.",
 "Liveness over infinite schedules.",
 HDR+LIB,[("the whole framework","src")])
prop("C31","Suspending and resuming takes at most a few milliseconds; overhead is low",
 "Suspending and resuming typically requires at most 1-2 ms, and task overhead stays low and scalable, as documented.",
 ["schedules","configurations"],"All machines and loads.",
 "Timing.",
 LIB,[("lace_suspend, lace_resume","src/lace.c")])
prop("C32","TASK_IS_STOLEN, TASK_IS_COMPLETED and TASK_RESULT tell the truth",
 "For a task returned by SPAWN and not yet synced, TASK_IS_STOLEN is false until a thief has claimed it and true afterwards once the thief has announced itself, TASK_IS_COMPLETED becomes true only after its execution by the thief has finished and its result is stored, and TASK_RESULT points at that result.",
 ["programs","schedules"],"All arities and result types, all timings of the thief.",
 "No test uses these macros.",
 HDR,[("TASK_IS_STOLEN, TASK_IS_COMPLETED, TASK_RESULT","src/lace.h"),("thief field: marks written by SPAWN and lace_steal","src/lace.h"),("result stored by NAME_WRAP","src/lace.h")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
