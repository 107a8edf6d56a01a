
P = [
dict(id='C02', title='No input stops, hangs or corrupts the reasoner',
 statement='Whatever lines of text are entered, in any order and number (valid or malformed Narsese, commands with right, wrong or missing arguments, any Unicode, large and deeply nested sentences, questions and goals about anything, operations with any arguments), each is processed in bounded time or rejected with a message. Neither the caller nor a worker thread panics, and afterwards a fact that is told is still stored and found when asked for.',
 over=['histories', 'inputs'], text='for all sequences of input lines of any content, interleaved with reasoning steps',
 why='A panic in a worker thread silently stops reasoning. The shapes of terms that reach each rule, and the combinations of commands, are far too many for examples.',
 files=['src/NarInputFacade.rs', 'src/Nar.rs', 'src/NarseseParser.rs', 'src/NarWorkingCycle.rs', 'src/NarProc.rs', 'src/NarGoalSystem.rs', 'src/OpLib.rs'],
 mech=[('input', 'src/NarInputFacade.rs'), ('inputN', 'src/Nar.rs'), ('deriverWorker', 'src/NarWorkingCycle.rs'), ('narInit (store worker)', 'src/NarProc.rs')],
 tech='grammar-based and mutational fuzzing of whole sessions with live workers; liveness probe by a told fact', note='panics on any thread and hangs are violations; sessions of up to ~30 generated lines'),
dict(id='C18', title='Each line of input does what its command says and nothing else',
 statement='A judgement is added to memory and waits, a question becomes an open question, an event happens now and a goal event is pursued, each exactly once. !s runs the given number of cycles, !sp a procedural step, !spA and !spB one half of it each, !peb switches babbling, !por registers an operation, !dtf clears the waiting judgements, !dt, !dmd and !pse report truthfully and change nothing, !QQ quits. All else stays unchanged; comments and invalid lines change nothing. A file is as good as its lines up to the one that quits.',
 over=['histories', 'inputs'], text='for all histories of valid and invalid input lines',
 why='What else a line changes, in any state reached by a history, cannot be settled by looking at the answers of a few lines; there are no tests of the input facade.',
 files=['src/NarInputFacade.rs', 'src/Nar.rs', 'src/NarUtilReadn.rs'],
 mech=[('input', 'src/NarInputFacade.rs'), ('inputN', 'src/Nar.rs'), ('inputT2', 'src/Nar.rs'), ('readNarseseFile', 'src/NarUtilReadn.rs')],
 tech='stateful histories of lines against a model of which part of the observable state each line may change, and how', note='halves of a step against the whole step on a twin'),
dict(id='C19', title='Reasoner and workers run concurrently without deadlock, loss or double counting',
 statement='While the derivation worker draws conclusions and the storage worker stores perceived evidence, the caller may tell, ask, step, display and act: every call returns, nothing that was told is lost or counted twice, tables and indices stay consistent, conclusions follow from what was known and answer the questions which wait for them, and the evidence which results from a history of events is the same as if it had been stored step by step.',
 over=['schedules', 'histories', 'inputs'], text='for all interleavings of the caller with the two workers, for all histories of input',
 why='Locks are taken in several orders by three threads; a test runs one schedule and none looks at the state afterwards.',
 files=['src/NarWorkingCycle.rs', 'src/NarProc.rs', 'src/NarMem.rs', 'src/Nar.rs'],
 mech=[('deriverWorker', 'src/NarWorkingCycle.rs'), ('reasonCycle', 'src/NarWorkingCycle.rs'), ('narInit (store worker)', 'src/NarProc.rs'), ('debugTasks', 'src/Nar.rs')],
 tech='random histories under perturbed schedules (lock jitter), with a watchdog and comparison to the sequential result', note='schedules are perturbed at random, not enumerated'),
dict(id='C20', title='Library operations have exactly the effect they promise',
 statement='^nal9_exeAndInject calls the operations of its sequence in order, with their arguments, if they are known, then the given event happens now; nested calls likewise; with other arguments it does nothing. ^nlpRel0 adds the relation it is given as a judgement of truth 1.0/0.9 with new evidence, a conjunction "(x, and, y)" in the second place of a binary relation becoming the intersection of x and y. Both can be reached by deciding, and change nothing else.',
 over=['inputs', 'histories'], text='for all arguments of any shape, registered operations and states of the reasoner',
 why='No test executes these operations; arguments come from unification, hence can be anything.',
 files=['src/OpLib.rs', 'src/NarProc.rs'],
 mech=[('OpNal9__exec_and_inject::call', 'src/OpLib.rs'), ('Op__nlp_rel_0::call', 'src/OpLib.rs')],
 tech='generated calls against a reference of calls, events and beliefs; sessions where the decision has to reach the operation', note='wrong shapes included'),
]
