P = [
dict(id='C21', title='Automatic differentiation and networks compute right values and derivatives',
 statement='Forward-mode differentiation gives the value and the derivative of every expression built from its operations (sum, difference, product, quotient, exponential, inner product, ReLU, sigmoid) with respect to the chosen input. A network maps any input to the documented function of its weights, biases and activations, with the derivative with respect to the parameter that is varied; so does the linear network of the language module. Vector helpers compute sum, multiple, inner product, length and cosine similarity.',
 over=['inputs'], text='for all expressions, networks and finite inputs of moderate size, and every varied parameter',
 why='A wrong derivative still gives plausible numbers and a training that converges slowly; there are no tests, and a sample of points cannot cover compositions of operations.',
 files=['src/ad.rs', 'src/Nn.rs', 'src/mlutils.rs', 'src/ModNlpA.rs'],
 mech=[('add, sub, mul, div, exp, dot, reluAct, sigmoidAct', 'src/ad.rs'), ('calc', 'src/ad.rs'), ('buildNnFromParameters', 'src/Nn.rs'), ('forward', 'src/ModNlpA.rs'), ('calcCosineSim', 'src/mlutils.rs')],
 tech='generated expression graphs and networks against reverse-mode and finite-difference references', note='values where exp does not overflow and away from the kinks of ReLU'),
dict(id='C22', title='Maps are drawn and filtered right, prototypes are learned and recognised right',
 statement='Drawing changes exactly the pixels of the shape that lie in the map; map arithmetic works pixel by pixel; convolution, Gabor filters, quantisation and pooling compute their definition at every pixel, without touching the border. A prototype classifier returns the prototype most similar to the stimulus, if that is similar enough, revises it by what was seen and notes the time; else it adds the stimulus if told so and changes nothing if not. Truth-vector operations work component by component.',
 over=['inputs', 'histories'], text='for all maps, shapes, kernels and histories of stimuli',
 why='No test covers these modules; off-by-one errors at borders and with odd sizes show only for particular inputs.',
 files=['src/Map2d.rs', 'src/ModVisionB.rs', 'src/ModVisionC.rs', 'src/ModVisionD.rs', 'src/TvVec.rs', 'src/AeraishPerceptionComp.rs'],
 mech=[('drawing and convolution', 'src/Map2d.rs'), ('classify', 'src/ModVisionB.rs'), ('classify', 'src/ModVisionD.rs'), ('filters', 'src/ModVisionC.rs')],
 tech='generated images, kernels and stimulus histories against a naive reference model', note='lines of zero length excluded; values for quantisation in [0,1]'),
dict(id='C23', title='The environments are simulated as their rules say',
 statement='In Pong the ball moves with its speed and bounces at the walls, the bat moves as decided and stays inside, a ball at the bat counts as a hit or a miss and starts again, and whether the ball is left of, right of or at the bat is perceived in each step. In tic-tac-toe players take turns, a move is made on a free square, is the one decided by the reasoner, and the board perceived is the board; the winner, and nobody else, is reported, and a new game starts from an empty board. The stress environment runs to its end.',
 over=['histories'], text='for all histories of moves and states of the environments',
 why='The environments measure the reasoner; a wrong rule spoils the measurement without failing anything. No test plays.',
 files=['src/EnvPong3.rs', 'src/Reasoner1Entry.rs', 'src/ProcTicTacToe.rs', 'src/ProcChaosEntry.rs'],
 mech=[('simStep', 'src/EnvPong3.rs'), ('OpPong::call', 'src/Reasoner1Entry.rs'), ('run', 'src/ProcTicTacToe.rs'), ('procChaosEntry', 'src/ProcChaosEntry.rs')],
 tech='generated histories of moves against the rules; whole games judged by the reported trace', note='games are played in a child process with generated seeds'),
dict(id='C24', title='Simple English is translated as the stored network says and told to the reasoner',
 statement='For !.nlp the words are tagged and encoded, the network stored in the database is evaluated again and again, each action extracting one relation of the words at the given places, until it says stop or the limit of ten actions; each relation is told to the reasoner as the judgement <(first*second) --> head> of truth 1.0/0.998, once and in order, and nothing else changes. Unknown words, a missing database and places beyond the end of the sentence are reported or skipped.',
 over=['inputs', 'histories'], text='for all stored networks and all sentences of known and unknown words, in any order',
 why='The behaviour depends on thousands of stored weights and on the words; no test runs it.',
 files=['src/ModNlpA.rs', 'src/NarModuleNlp3.rs', 'src/NarInputFacade.rs'],
 mech=[('network_run', 'src/ModNlpA.rs'), ('conv_tokens_to_poss', 'src/ModNlpA.rs'), ('process', 'src/NarModuleNlp3.rs'), ('input (!.nlp)', 'src/NarInputFacade.rs')],
 tech='generated networks in a scratch database and generated sentences against a reference evaluation and a twin reasoner', note='cases where two actions are equally strong are skipped; training is not run'),
dict(id='C25', title='The server serves all clients: lines in order, each message once to each client',
 statement='Lines of a client reach the reasoner in the order they were sent, each once. Every message (result of a command, answer to a question, temporal ones included) is sent to every connected client exactly once, whole however long it is and however late the client reads, in the same order, when the client sends its next line. Clients may come, go, send nothing or garbage, or break the connection without any effect on the server or the other clients.',
 over=['histories', 'schedules'], text='for all histories of clients that connect, send, poll and leave (with fewer than 50 messages unread)',
 why='It takes several clients over time, some misbehaving; there is no test of the server.',
 files=['src/NarServer.rs'],
 mech=[('acceptLoop', 'src/NarServer.rs'), ('connectionLoop', 'src/NarServer.rs'), ('QHandlerImpl::answer', 'src/NarServer.rs')],
 tech='stateful sessions of several generated clients against a real server process, compared with a twin reasoner', note='uses 127.0.0.1:2039 (the port is fixed in the code)'),
dict(id='C27', title='The program runs files, the session and the benchmarks as promised',
 statement='Files given at the command line are taken line by line before the session; each line of the session is echoed, has the effect of the line, and its results are printed; an empty line repeats the last one; the session ends, with success, at !QQ or at the end of the input, and nothing later is taken. The benchmark gives each file up to 180 cycles and reports the number of the cycle in which its question was answered, or None; the score is the sum of exp(-0.002 cycles) over the answered ones divided by the runs, with the ratio of unanswered ones.',
 over=['inputs', 'histories'], text='for all files, sequences of input lines, line ends and ends of input',
 why='No test runs the program; sessions are arbitrary sequences and end in several ways.',
 files=['src/NarInteractive.rs', 'src/NarUtilReadn.rs', 'src/Eval.rs', 'src/bin/main.rs'],
 mech=[('runInteractive', 'src/NarInteractive.rs'), ('readNarseseFile', 'src/NarUtilReadn.rs'), ('run', 'src/Eval.rs'), ('main', 'src/bin/main.rs')],
 tech='generated sessions and files fed to the program in a child process, compared with a twin reasoner', note='judged by what the program prints'),
dict(id='C28', title='What works is learned from experience, and unlearned when it no longer works',
 statement='If in each of several situations one operation (or a chain of two) always leads to the goal, then after enough trials by babbling the reasoner chooses the right operations by itself in (nearly) all situations. If the world changes and other operations are the right ones, it learns those after further trials. Playing Pong it hits the ball far more often than without a goal.',
 over=['histories', 'inputs'], text='for all generated worlds of situations, operations and right choices, and random trials',
 why='It is a property of long histories through all procedural parts together (perception, evidence, anticipation, goals, decision); tests check single functions.',
 files=['src/NarProc.rs', 'src/NarGoalSystem.rs', 'src/NarInfProcedural.rs', 'src/Reasoner1Entry.rs'],
 mech=[('narStep0', 'src/NarProc.rs'), ('narStep1', 'src/NarProc.rs'), ('sampleAndInference', 'src/NarGoalSystem.rs'), ('reasoner1Entry', 'src/Reasoner1Entry.rs')],
 tech='generated worlds with simulated feedback; success rate in an exam without babbling against a wide-margin threshold', note='statistical: thresholds 5/6, 1/2 (chains), 0.33 (Pong), measured values clearly above'),
dict(id='C29', title='What is used is counted, and what is used most and latest is kept',
 statement='Every cycle counts one use, at the current time, of the judgement worked on and of each of its partners, both in the judgement and in the beliefs stored from it, and of nothing else. Usefulness is the number of uses over the time since the last one, put into 0..1. A concept ranks its second table of beliefs by usefulness: when it is full, no belief gives way to a less useful one, nothing is forgotten while there is room, and nothing but the new belief comes in.',
 over=['histories', 'inputs'], text='for all histories of judgements and cycles, all limits, numbers and times of use',
 why='It depends on the history of what was worked on together with what; the tests never look at the use of beliefs.',
 files=['src/NarMem.rs', 'src/NarWorkingCycle.rs', 'src/NarSentence.rs'],
 mech=[('storeInConcepts2', 'src/NarMem.rs'), ('reasonCycle', 'src/NarWorkingCycle.rs'), ('usageUpdate', 'src/NarSentence.rs'), ('calcUsageUsefulness', 'src/NarSentence.rs')],
 tech='generated histories of a running reasoner with an account of every use; generated tables against a reference ranking', note='in running histories forgetting is judged by dominance (used more and later), because the reasoner has several clocks'),
]
