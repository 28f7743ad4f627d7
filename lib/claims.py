SOURCE_COMMITS = ['e8aa8d2']
CLAIMS = {
 'C01': ('TLA+ model of the boundary between host and interpreter: TLC shows every call comes back with a value or an error if each stage has its guards (and that leaving out any one breaks it) and enumerates token strings and malformed forms; they, mutated programs and nesting, recursive and self-containing inputs go to real interpreters by every entry point and to the command; TLC runs every recorded history on the protocol',
         'model_checking', 'all token strings to length 2 over 87 tokens, random to 9; every head x 99 argument shapes and every part of 91 legal templates replaced, random to 5 arguments; mutated corpus; text nested 3 000 000 deep; 390 uses of self-containing values; 7 entry points and the command'),
 'C02': ('TLA+ CEK reference machine of the core language: TLC executes each recorded program on it and compares value, error, printed effects and traced calls with the real interpreter',
         'model_checking', 'systematic and seeded random core programs (arithmetic, arrays, lists, hashes, binding forms, loops, functions, apply/map), run once per entry point'),
 'C03': ('TLA+ CEK reference machine (closures capture environments): TLC executes maker x use x update programs and compares with the real interpreter',
         'model_checking', 'all combinations of closure makers, uses and update kinds, shadowing chains, typed func forms, plus seeded random closure programs'),
 'C04': ('TLA+ machine of the evaluation stacks (RestGen): TLC shows balance and enumerates contexts x constructs; each is evaluated by the real interpreter and its recorded stack depths, one-text/one-at-a-time results and sizes over many rounds are checked; random and jump programs validated by the CEK machine',
         'model_checking', '59 contexts nested to depth 2 around 75 constructs, 4 entry points, growth over 1200 (quick) or 3000 (thorough) rounds, jump contexts to depth 3'),
 'C05': ('TLA+ model of failures and rollback (FailGen): TLC enumerates failure points in nested contexts with the marks that precede them; each is run, and the interpreter is compared with a twin that never failed; CEK machine with injected faults',
         'model_checking', '59 contexts nested to depth 2 (3 thorough) x 32 kinds of failure, histories of failures, 28 stateful retries, faults at random effects of Core programs'),
 'C06': ('TLA+ precedence table, said as a binding-power machine and declaratively: TLC shows they agree with one legal tree per sequence, then reads recorded texts and compares the real expansion of each; blocks run against their prefix forms, Core programs and range loops written in infix against the CEK machine',
         'model_checking', 'every operator/operand sequence to length 5 (samples of 6; all of 7 over the levels in thorough), spaced and tight, 3500 random blocks, 2400 run blocks, 1400 Core programs written in infix'),
 'C07': ('TLA+ number contract (exact order, wrapping integers, correctly rounded doubles) evaluated by TLC on recorded results of the real interpreter',
         'model_checking', 'every ordered pair of a boundary pool of ints, uint64s, chars and floats, plus seeded random pairs; 6 comparisons and 5 arithmetic operations each'),
 'C08': ('TLA+ model of the sandbox (what a name reachable from a sandboxed program may do): TLC shows no route through the allowed set reaches the host and enumerates name x route x setup; each is run on the real sandboxed interpreter with canaries, as are the commands; TLC validates every recorded effect',
         'model_checking', 'every builtin name and candidate word x 20+ routes x bare, standard, demo, duplicated and cloned sandboxes, canaries for files, environment, processes, exit and imports'),
 'C09': ('TLC enumerates tail positions from a TLA+ grammar; the CEK machine gives the meaning of each generated function; real runs are compared with it and their recorded stack high-water marks must not depend on the depth',
         'model_checking', 'all tail positions nested to depth 2 (quick) or 3 (thorough), recursion depths to 60000'),
 'C11': ('TLA+ JSON and msgpack codecs (grammar, escapes, exact numerals, record metadata): TLC shows the encoding is unambiguous on every small value; the real encoders and decoders run on those and random values, TLC parses every text and message and compares every value that comes back',
         'model_checking', 'every value to depth 2 over a small alphabet, every code point to 0x180 and the UTF borders, 8 000 random values to depth 4, also decoded in another interpreter'),
 'C12': ('TLA+ reader and printer (exact numerals, escapes, nesting): TLC shows a printer exists that round-trips every small value; the real printer prints those and random values, the real reader reads them back by nine routes, TLC validates text and readings; every literal notation is compared with its exact value',
         'model_checking', '6 400 enumerated values, 5 700 random values to depth 4 plus nesting to 60, 6 400 literals in 21 settings per run, floats and strings over their full ranges'),
 'C13': ('TLA+ reader (lexer state machine per character, token grammar, exact numerals): TLC shows it asks for more exactly when something is open; the real parser is fed every small text character by character, larger ones in pieces, queued, after histories and through other entry points, and TLC validates every answer',
         'model_checking', 'every text to length 3-4 over 8 alphabets one character at a time, 5000 texts in random pieces and queued, 1800 parse histories, file/read/REPL routes'),
 'C14': ('TLA+ ordered-map model: TLC enumerates operation histories, the real hash replays them, TLC validates every observation',
         'model_checking', 'exhaustive histories to length 4 over colliding key universes, plus seeded long random histories'),
 'C15': ('TLA+ template semantics: TLC enumerates templates token by token and validates the recorded value and evaluation order of each real expansion; macro programs compared with the CEK machine running the hand-written form',
         'model_checking', 'every template to 6 tokens over list/array/dotted/hash nesting with unquotes and splices, 22 000 templates in 15 settings per run, 2 300 random macro programs'),
 'C16': ('TLA+ CEK reference machine with explicit promises: TLC executes pairwise combinations of formal shape, use, argument, route and caller, and compares with the real interpreter',
         'model_checking', 'pairwise combinations of formal shapes, uses, argument kinds, call routes and callers, named arguments, plus seeded random lazy programs'),
 'C17': ('TLA+ model of declared structs and their instances: TLC shows an accepted write leaves every instance well typed and a refused one leaves it alone, and enumerates histories of declarations and writes; each is run by every write route on the real interpreter, as are random histories; TLC validates every acceptance, refusal and the instances afterwards',
         'model_checking', 'all histories to length 5 (17 000, of which 12 000 run per quick run), 86 write routes x 8 types, 4 000 random histories with nested structs, slices and pointers'),
 'C18': ('TLA+ heap model of packages: TLC shows that a private value is only learnt from, or changed by, the package\'s own functions and enumerates every short operation; each is run by every route and setting on the real interpreter, as are random operations on random packages; TLC validates every answer and the members afterwards',
         'model_checking', '1 305 operations on a heap of 37 nodes x 3-30 routes, 1 500 (quick) or 12 000 random packages to depth 4 with aliases, 15 settings incl. other packages\' functions and imports'),
 'C19': ('TLA+ symbol-table model: TLC shows the mechanism refines the contract, real interpreter families replay its histories, TLC validates the recorded symbols',
         'model_checking', 'exhaustive histories to length 4 with up to 3 interpreters, plus seeded long random histories'),
 'C20': ('TLA+ model of runs: TLC shows the contract does not depend on map order, interpreter counts or addresses and that each faulty variant breaks it, and enumerates process histories and order-sensitive programs; all are run many times on the real interpreter and TLC validates that equal programs gave equal observations',
         'model_checking', '39 600 enumerated programs (3 500 sampled per quick run), 1 500 builtin calls, 900 other programs, 8 runs each over 157 process histories in 200 processes, 72 scripts x 3 processes'),
}
NOT_APPLICABLE = {p: 'not claimed' for p in ['C%02d' % i for i in range(1, 21)]}
NOT_APPLICABLE['C10'] = ('the family applies, but no check was completed: the conversion from Go values to records loses information for many kinds (embedded structs, '
                         'times, typed slices and maps, interface-typed fields), which is neither a small safe repair nor a finite list of known findings, so a sound check would not be quiet on this tree')
