P = [
dict(id='C10', title='Each reasoning step concludes exactly what its premises license and stores it',
 statement='In every step of a running reasoner, each new or changed belief is a conclusion licensed by the selected judgement alone or together with its partners, or the revision of such conclusions with a held belief of the same statement and independent evidence. A told judgement which is pooled with what is known already is worked on together with the pooled belief. Every licensed conclusion reaches the memory unless it is trivial, too complex, too weak, already known or displaced by the capacity limit. Nothing else in the memory changes, and the worker which derives never dies.',
 over=['histories', 'inputs'], text='for all knowledge bases told in any order, and every step of the run that follows',
 why='The tests run a few fixed input files and look at one conclusion; soundness and completeness of a step are over all knowledge bases, and a wrong evidence base or lost conclusion needs particular histories.',
 files=['src/NarWorkingCycle.rs', 'src/Nar.rs', 'src/NarMem.rs'],
 mech=[('reasonCycle', 'src/NarWorkingCycle.rs'), ('deriver worker', 'src/NarWorkingCycle.rs'), ('inference', 'src/NarWorkingCycle.rs'), ('memAddTask', 'src/NarWorkingCycle.rs')],
 tech='stateful histories in lock step with the real derivation worker against the reference rules and revision', note='the worker message is intercepted to know the premises; the resulting memory is compared with the reference'),
dict(id='C11', title='Questions are answered with the best matching belief, and only with that',
 statement='Every reported answer is a judgement held or derived by the reasoner which matches the question under a consistent assignment of its query variables, and is better than every answer reported to that question before. A matching belief the reasoner holds when the question is worked on is reported unless a better one was. This holds for declarative questions and for questions about temporal implications, eternal or not.',
 over=['histories', 'inputs'], text='for all questions with any placement of query variables, all offered candidates in any order, and all knowledge bases and runs',
 why='The tests ask a few questions; wrong, worse or missing answers depend on the variables in the question, the order of candidates and the state of the memory.',
 files=['src/NarWorkingCycle.rs', 'src/Nar.rs', 'src/NarUnify.rs'],
 mech=[('qaTryAnswer', 'src/NarWorkingCycle.rs'), ('question tasks in reasonCycle', 'src/NarWorkingCycle.rs'), ('inputN (questions)', 'src/Nar.rs')],
 tech='random questions and candidate orders, and running reasoners, against a reference matcher and rating', note='offered candidates, running reasoner, temporal questions'),
]
