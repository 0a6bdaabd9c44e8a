NOTES = {
 'C01': ('explicit enumeration of operator chains on the real dice objects against an exact reference distribution', 'All operator chains up to length 2 over the stated operand alphabet, both sides, with the operands observed again after every step; nothing is said about values outside the alphabet.'),
 'C02': ('exhaustive enumeration of construction inputs (value/weight lists, settings) on the real constructor against exact fractions', 'Complete within the list length and value alphabet; long lists only in fixed patterns.'),
 'C03': ('exhaustive enumeration of count form x die form on the real roll against repeated convolution', 'Complete for the stated counts and dice; larger counts are covered only at the listed values.'),
 'C04': ('exhaustive enumeration of pools and position tuples on the real selection against brute-force enumeration of all ordered outcomes', 'Complete within pool size, faces and tuple length; longer tuples as blocks with one position replaced.'),
 'C05': ('exhaustive enumeration of signatures x arguments x calling styles on the real decorator against enumeration of all joint outcomes', 'Complete for one and two parameters over the alphabet, reduced alphabet for three.'),
 'C06': ('exhaustive enumeration of library function arguments on the real functions against their definitions on every outcome', 'Complete over the argument alphabet; pools beyond it only at listed sizes.'),
 'C07': ('exhaustive enumeration of sequences, pairs and nesting shapes on the real sequence objects against list semantics', 'Complete up to the length bound over four values.'),
 'C08': ('explicit-state exploration of operation histories: every history up to the depth executed by the real library in forked copies of the prefix state, differential oracle is the pristine process', 'Complete for the operation alphabet and depth; state outside the Python process is not involved.'),
 'C09': ('exhaustive exploration of call trees (all endings, limit changes, faults) on the real decorators against a counter model', 'Complete for the event alphabet up to the stated depth and number of calls.'),
 'C10': ('explicit-state exploration of all setting-change sequences on the real settings against a register model', 'Complete for the operation alphabet up to the sequence length; influence of settings is judged through 24 expressions.'),
 'C11': ('exhaustive enumeration of dice, cuts, widths and names on the real listing and report code against exact fractions', 'Complete over the dice and report alphabet; rounding half-way cases accept both digits.'),
 'C12': ('exhaustive exploration of the answers of the random source (depth-first over every draw), probability mass compared exactly', 'Every value of the scripted random source is explored on a grid that resolves every weight; unknown ways of drawing raise an error of the check rather than passing.'),
 'C13': ('exhaustive enumeration of expression trees, compiled and executed by the real compiler, against an independent parser and exact interpreter', 'Complete for the operators and operand assignments stated; deeper expressions are not explored.'),
 'C14': ('exhaustive enumeration of statement sequences and function shapes, compiled and executed by the real compiler, against an independent interpreter', 'Complete for the statement alphabets and depths; one recorded finding (names of outputs of comparisons).'),
 'C15': ('exhaustive exploration of token and character sequences through the real lexer and parser against an independent lexer and predictive parser', 'Complete for all token sequences, viable prefixes and edits up to the bounds.'),
 'C16': ('exhaustive enumeration of names and strings through the real compiler and executors against an independent interpreter, structural whitelist on every emitted text', 'Complete for the vocabulary, roles and string alphabets; one recorded finding (names of outputs of comparisons).'),
 'C17': ('exhaustive enumeration of roll counts and operation chains across the precision limit on the real code against exact big-integer convolution', 'Complete for the stated dice, counts and chains.'),
 'C18': ('exhaustive enumeration of text dice, sums, comparisons and pairs/triples of text values on the real code against multiset enumeration', 'Complete for the universe of text values and dice; operators without a documented meaning for texts are excluded.'),
 'C19': ('explicit-state exploration of all chains of operations from the empty and the undetermined die on the real code against the written operator table', 'Complete to the depth over the operand alphabet; each distinct value expanded once.'),
 'C20': ('stateless exploration of thread interleavings of the real code under a controlled scheduler, preemption bounded', 'Every schedule with at most the stated number of preemptions for every pair of operations; two threads only.'),
 'C21': ('explicit-state exploration of compilation and execution histories of the real compiler, differential oracle is a pristine process', 'Complete for the text/option alphabet and history length, and for the listed hash seeds.'),
 'C22': ('exhaustive enumeration of rejected texts (character strings, token sequences, edits, layouts) through the real compiler against an independent lexer with positions and the stopping point of a predictive parser', 'Complete for the alphabets, layouts and lengths stated; only the first syntax error of a text is judged.'),
 'C23': ('explicit-state exploration of the objects reachable by a program run by the real safe_exec, exhaustive over names, imports, writes and calls of the given modules', 'Complete for attribute chains to the depth and calls with up to 3 arguments of the alphabet; longer multi-step bypasses only as listed.'),
}
NA = {}
