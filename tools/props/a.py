P = [
dict(id='C01', title='Reading Narsese yields exactly the written sentence, malformed text is rejected',
 statement='Every well-formed Narsese line is read as exactly the written term, truth value, punctuation and tense, with 100% frequency and 0.9 confidence as defaults. Every line outside the grammar (unbalanced, text left over, bad or out-of-range truth value, missing punctuation) is rejected without being partially accepted. Reading ends promptly and without a crash for any text, however long, deeply nested or non-ASCII.',
 over=['inputs'], text='for all input lines: generated from the grammar, mutated from it, random token sequences, and deeply nested text',
 why='The existing parser tests fix about fifteen lines; the grammar has unbounded nesting, all copula/connector combinations, white space, truth value and tense variants and an unbounded set of malformed texts.',
 files=['src/NarseseParser.rs', 'src/Term.rs'],
 mech=[('parseNarsese', 'src/NarseseParser.rs'), ('parse (term grammar)', 'src/NarseseParser.rs'), ('convVarsRec', 'src/Term.rs')],
 tech='grammar-based generation, mutation and token-soup fuzzing against an independent reference reader',
 note='differential against a reference reader written from the grammar; nesting to thousands of levels under a hang limit'),
dict(id='C03', title='Term identity, structure and printed form are mutually consistent',
 statement='Two terms are equal exactly when they have the same structure (set-like compounds compared by their stored components), equal terms hash alike, and different terms print differently. Complexity, subterm listing, occurrence counts and variable detection agree with the structure of the term. A term inside the input grammar that is printed reads back as the same term, and an operator call decodes to exactly the operator name and arguments it was built from.',
 over=['inputs'], text='for all terms over every copula, connector, variable kind and nesting',
 why='The tests compare a handful of fixed terms; identity must hold for all pairs including near misses which differ in one place.',
 files=['src/Term.rs', 'src/TermApi.rs', 'src/TermUtils.rs'],
 mech=[('Term equality and hash', 'src/Term.rs'), ('calcComplexity, retSubterms, occurences', 'src/Term.rs'), ('convTermToStr', 'src/Term.rs'), ('encodeOp/decodeOp', 'src/Term.rs')],
 tech='random terms with near-miss mutation against a reference term algebra; print/parse round trip',
 note='independent reference term type; equality, hashing, printing, subterms, complexity, operator encoding'),
dict(id='C04', title='Unification and substitution are exact',
 statement='Matching two terms succeeds exactly when one consistent assignment of the variables makes them the same term, and the returned assignment does so. Applying an assignment replaces every occurrence of each assigned variable, leaves everything else unchanged, and never changes the kind of a copula or compound.',
 over=['inputs'], text='for all pairs of terms (patterns with their instances, near misses, unrelated) and all assignments',
 why='The tests unify a few fixed pairs; consistency matters for repeated variables at any depth and for every term form.',
 files=['src/NarUnify.rs'], mech=[('unify, unify2', 'src/NarUnify.rs'), ('unifySubst', 'src/NarUnify.rs')],
 tech='random patterns, instances and near misses against a reference unifier', note='differential against a reference unifier, plus instance metamorphic relation'),
dict(id='C05', title='Truth-value functions compute the NAL definitions and stay in range',
 statement='Each truth function returns the NAL frequency and confidence for its premises, with frequency in [0,1] and confidence in [0,1). Revision is commutative and associative, never loses evidence and keeps the frequency between the premises; derived confidence never exceeds that of the weaker premise. Counted evidence maps to frequency pos/total and total/(total+1) confidence, and usefulness falls with age and rises with use.',
 over=['inputs'], text='for all truth values in range, evidence counts and usage histories',
 why='Tests sample two or three truth values; range, monotonicity and algebraic laws quantify over all of them.',
 files=['src/Tv.rs', 'src/TvVec.rs', 'src/NarSentence.rs', 'src/NarMem.rs'],
 mech=[('truth functions', 'src/Tv.rs'), ('retTv', 'src/NarSentence.rs'), ('calcUsefulness', 'src/NarMem.rs')],
 tech='random truth values against reference definitions and algebraic laws', note='definitions, laws, evidence counts'),
dict(id='C06', title='Evidence stamps never let evidence be counted twice',
 statement='Stamp overlap is reported exactly when two stamps share evidence, and is symmetric. Pooling stamps keeps the most recent evidence of both sides in alternation, never repeats an id beyond its sources, and never exceeds the maximum length. Over any history of poolings of non-overlapping stamps no piece of evidence is ever contained twice. Every judgement told to the reasoner, eternal or temporal, rests on one piece of evidence of its own, different from that of all others however many were told.',
 over=['inputs', 'histories'], text='for all stamps up to and beyond the maximum length and all sequences of pooling',
 why='The stamp tests pool two short stamps; truncation and double counting only show with long stamps and long histories.',
 files=['src/NarStamp.rs', 'src/Nar.rs'], mech=[('merge', 'src/NarStamp.rs'), ('checkOverlap', 'src/NarStamp.rs'), ('checkSame', 'src/NarStamp.rs')],
 tech='random stamps and pooling histories against a reference stamp model', note='operations and histories'),
dict(id='C07', title='Two-premise inference yields exactly the conclusions of the rule table',
 statement='For any two premises the reasoner derives exactly the conclusions which the NAL rules license, each with the term, truth value and punctuation the rule assigns, regardless of which premise comes first. Premises sharing evidence yield nothing, the evidence of each conclusion is the union of both premises, and an operator call or variable never arises from nothing.',
 over=['inputs'], text='for all pairs of premise terms in every structural combination, punctuation, truth value and evidence base',
 why='The tests each fix one premise pair of a rule; the rule table has to be right for all combinations of copulas, connectors, shared positions and variables, and must not fire elsewhere.',
 files=['src/NarWorkingCycle.rs'], mech=[('inference, inf2', 'src/NarWorkingCycle.rs'), ('inf0 and rule helpers', 'src/NarWorkingCycle.rs')],
 tech='random structured premise pairs against an independent rule table (set comparison)', note='sound and complete against a reference rule table'),
dict(id='C08', title='Single-premise inference yields exactly the licensed restructurings',
 statement='For any single premise the reasoner derives exactly the structural conclusions licensed for it (set/property conversions, negation, product-image conversions, decompositions), with their truth value. The premise evidence is kept unchanged in every conclusion. Converting a relation to an image and back reproduces the original statement.',
 over=['inputs'], text='for all premise terms and truth values',
 why='Tests fix a few premises; soundness and completeness are over all term shapes, arities and image positions.',
 files=['src/NarWorkingCycle.rs'], mech=[('infSinglePremise, infSinglePremise2', 'src/NarWorkingCycle.rs')],
 tech='random premises against an independent rule table and an image round trip', note='judgements only: the reasoner never uses a question or goal as primary premise'),
dict(id='C09', title='Beliefs are stored and revised without loss, duplication or double counting',
 statement='After any history of incoming judgements each concept of the statement holds at most one belief per term and independent evidence base, revised exactly once by each new independent piece of evidence, ranked by expectation and limited in number with the weakest dropped. Overlapping evidence never strengthens a belief. Reducing the memory to its limit keeps exactly the highest ranked concepts intact.',
 over=['histories', 'inputs'], text='for all histories of added judgements over overlapping terms, truth values and evidence bases, and all memory limits',
 why='No test covers revision histories, capacity limits or overlapping evidence; violations require particular sequences.',
 files=['src/NarWorkingCycle.rs', 'src/NarMem.rs'],
 mech=[('memAddTask, concept__checkAndTryRevision, concept__reviseBelief', 'src/NarWorkingCycle.rs'), ('storeInConcepts, updateConceptMem, limitMemory', 'src/NarMem.rs')],
 tech='stateful model-based histories against a reference belief store', note='relational step oracle tolerant of tie order'),
]
