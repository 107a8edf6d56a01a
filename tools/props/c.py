
P = [
dict(id='C12', title='Memory stays bounded and what is forgotten is the least worthy',
 statement='When its reduction is due, the set of waiting judgements shrinks to at most 30, none of negligible priority, no forgotten one of higher priority than a kept one. Only judgements still known can be premises afterwards. The declarative memory shrinks to 3000 concepts, the procedural one to its configured number, keeping the highest rated ones unchanged. Tables of evidence keep their limit, best first. Between these moments nothing is forgotten.',
 over=['histories', 'inputs'], text='for all histories of inputs, ages, priorities and limits, at every moment the reduction is or is not due',
 why='The limits only act after hundreds of cycles or thousands of concepts, which no test reaches; a wrong order or an index that is not rebuilt loses knowledge silently.',
 files=['src/NarWorkingCycle.rs', 'src/NarMem.rs', 'src/NarProc.rs'],
 mech=[('reasonCycle (limits)', 'src/NarWorkingCycle.rs'), ('limitMemory', 'src/NarMem.rs'), ('storeInConcepts2', 'src/NarMem.rs')],
 tech='random populations driven across the reduction points in lock step, against a reference ranking', note='waiting judgements, declarative concepts, procedural concepts, tables of evidence'),
dict(id='C13', title='Observation yields exactly the evidence that the events support, counted once',
 statement='Every perceived implication has the form (condition, operations) =/> consequence of events which happened in that order, with operations known to the system, the evidence of just these events, the weight of the operation and the measured interval class. Every such relation of the recent events can be perceived. Storing it raises each equal, independent belief of at least that interval exactly once, or adds it, with its generalisation over a shared object, when there is none. The trace is the last 20 events in order.',
 over=['histories', 'inputs'], text='for all sequences of events, operations, pauses and told implications, and all random choices of perception',
 why='Perception is randomised and stored by a worker thread; tests run a few fixed traces. Missing or invented evidence depends on order, timing and overlap.',
 files=['src/NarProc.rs', 'src/NarInfProcedural.rs', 'src/NarMem.rs', 'src/Nar.rs'],
 mech=[('TraceDefault::step', 'src/NarProc.rs'), ('store worker (narInit)', 'src/NarProc.rs'), ('mem_add_evidence', 'src/NarProc.rs'), ('matchandintro_var1', 'src/NarInfProcedural.rs')],
 tech='stateful histories with the storage worker in lock step, against the enumeration of all observable relations and a model of the evidence', note='soundness and completeness of perception, exact evidence memory'),
dict(id='C14', title='A prediction that was acted on is confirmed or counted against its evidence',
 statement='When an operation is executed because of a piece of evidence, its consequence is anticipated until now plus the interval of that evidence. When the consequence is among the last two events it is confirmed and the evidence is unchanged; when the deadline passes without it, exactly one negative observation is added to that evidence; else it stays pending. Nothing else is anticipated, no other evidence changes, and nothing is anticipated when anticipation is disabled.',
 over=['histories', 'inputs'], text='for all knowledge, goals and event histories, any number of pending predictions at any deadlines',
 why='Depends on the history between decision and deadline; no test checks negative evidence.',
 files=['src/NarProc.rs', 'src/NarGoalSystem.rs'],
 mech=[('narStep0 (anticipation)', 'src/NarProc.rs'), ('narStep1 (add anticipated event)', 'src/NarProc.rs')],
 tech='stateful histories with per-step prediction of pending anticipations and evidence counts; behavioural runs where an operation works or does not', note='identity of the evidence is followed'),
dict(id='C15', title='Subgoals are exactly what goals and procedural knowledge imply',
 statement='Deriving goals adds only goals that follow from a stored goal by detaching the first element of a sequence or by an implication with that goal as consequence and independent evidence, with the goal-deduction truth value, the merged evidence, the depth one below, and the implication they rest on. For the goal worked on every such direct subgoal is added once. Repeated derivation finds every subgoal. Stored goals are not changed.',
 over=['histories', 'inputs'], text='for all goals, procedural knowledge and random choices of the deriver, and the goal rules for all terms and truth values',
 why='Random sampling over a growing goal tree; tests only run whole environments and look at nothing in between.',
 files=['src/NarGoalSystem.rs', 'src/NarInfProcedural.rs'],
 mech=[('sampleAndInference', 'src/NarGoalSystem.rs'), ('deriveGoalsHelper', 'src/NarGoalSystem.rs'), ('infGoalBelief', 'src/NarInfProcedural.rs'), ('infGoalDetach', 'src/NarInfProcedural.rs')],
 tech='random knowledge and goals, each derivation against the reference closure; rules against a reference over arbitrary terms', note='soundness of all new goals, completeness for the sampled goal'),
dict(id='C16', title='Operations are executed exactly when goals and knowledge call for them',
 statement='In each step at most one operation is executed. It is the most expected desired operation above the decision threshold, where an operation becomes desired when the current events fulfil the condition of a goal sequence, or start a known chain of at most two implications to a goal. It is called with exactly the decided arguments, recorded as an event of that moment, and its goal is removed. Otherwise only a babbling operation with {SELF}, if enabled, may be called. Unknown operations are never called.',
 over=['histories', 'inputs'], text='for all goals, knowledge, events, registered operations, thresholds and random choices of prediction and babbling',
 why='Deciding combines competing goals, unification, prediction and thresholds; the tests check only that environments do not score too low.',
 files=['src/NarProc.rs', 'src/NarGoalSystem.rs'],
 mech=[('narStep1', 'src/NarProc.rs'), ('selHighestExpGoalByState', 'src/NarGoalSystem.rs'), ('query_by_antecedent', 'src/NarGoalSystem.rs')],
 tech='stateful histories with the set of allowed decisions computed by a reference per step; multi-step plans in a simulated world', note='calls, trace, goals for operations after each step'),
dict(id='C17', title='Goals are kept, satisfied, forgotten and sampled as they deserve',
 statement='A goal is stored once per term and evidence. An event satisfies all goals with its term, unless satisfaction is disabled, and no others. Reducing the goals, every 13 steps, keeps the most useful ones by expectation, desirability and age, up to the limit, unchanged and still findable and recognised as duplicates. Each depth level gets the same attention, within it each goal by its desirability: every desired goal is sampled, a satisfied one is not while others are desired.',
 over=['histories', 'inputs'], text='for all histories of goals with any term, evidence, truth and depth, events, passing time and reductions',
 why='Duplicates, stale indices and starved goals only show after particular histories of adding, satisfying and reducing.',
 files=['src/NarGoalSystem.rs', 'src/BinSearch.rs'],
 mech=[('addEntry', 'src/NarGoalSystem.rs'), ('limitMemory', 'src/NarGoalSystem.rs'), ('sample', 'src/NarGoalSystem.rs'), ('event_occurred', 'src/NarGoalSystem.rs'), ('binSearch', 'src/BinSearch.rs')],
 tech='stateful model of the goal memory; sampling frequencies against the expected shares with wide bounds', note='statistical bounds of 8 standard deviations'),
dict(id='C26', title='The judgement most worth the effort is worked on next, and all get their turn',
 statement='Every cycle with waiting judgements works on one of highest priority and removes it from the waiting ones. Priority is credit plus a fifth of the question credit, decayed by age and weighted by descent. Each cycle pays base credit and the credit of questions sharing terms, and divides by complexity. New judgements start with the credit of their simplicity and at most the weight of their parent, and none waits twice. Without new input all waiting judgements and all questions get their turn.',
 over=['histories', 'inputs'], text='for all populations of judgements and questions, ages and credits, over all cycles of a run',
 why='Priorities evolve over many cycles and no test looks at them; a starving judgement or question is invisible in short runs.',
 files=['src/NarWorkingCycle.rs'],
 mech=[('reasonCycle', 'src/NarWorkingCycle.rs'), ('taskCalcCredit', 'src/NarWorkingCycle.rs'), ('taskSelByCreditTop', 'src/NarWorkingCycle.rs'), ('memAddTask', 'src/NarWorkingCycle.rs')],
 tech='lock-step runs against an exact model of credits and selection', note='exact credits of all waiting judgements each cycle'),
]
