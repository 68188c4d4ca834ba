# per property: (oracle, what is outside the bounds)
O['C01']=("a least-fixpoint table of which non-terminal derives which part of the input (`ref.Derive`), written from the definition of derivation and sharing nothing with the parser.","larger grammars and longer inputs than listed; symbols longer than one byte (the parser only compares them for equality).")
O['C02']=("the tree is walked and checked node by node against the grammar's rules and the given lexemes (`ref.Derivation`), parents by `ref.Links`.","as for C01.")
O['C03']=("the derivation table of C01: no production listed before the one a node uses may derive the same part of the input; grouping is checked on the operator grammars.","as for C01; cyclic grammars are excluded by the property. Only the grouping of binary productions is claimed about splits.")
O['C04']=("transitive closure of the begins-with relation, with nullability by fixpoint.","free right sides of more non-terminals or longer productions than listed (larger grammars only with one free link, HNet).")
O['C05']=("a direct recursive definition of ordered choice, without memo.","as for C01.")
O['C06']=("a direct definition of longest/first match at a position by anchored matching of each rule (`ref.Lex`), without a cache of next matches.","patterns other than those in the menus; symbolic bytes at or above 0x80 are limited to the byte classes of HBytes.")
O['C07']=("the same definition with a stack of sub-lexers.","as for C06; more than three sub-lexers.")
O['C08']=("an expansion of inheritance written from the property; definitions that must be rejected are built with the defect at every place. The order in which maps are iterated is a symbolic choice (`sym.MapOrder`).","definitions with more lines and sub-lexers than listed; map orders beyond the first elements of a large map.")
O['C09']=("counting newlines before the offset at which the reference lexer finds the lexeme.","as for C06.")
O['C10']=("a line reader written from the property, and structural comparison of grammars symbol by symbol.","longer texts; symbols with bytes at or above 0x80 beyond the names in HNames.")
O['C11']=("bounded language equality: for every string of terminals up to the bound both grammars derive it or both do not (derivation table of C01); left recursion by the closure of C04.","strings longer than the bound; larger grammars; grammars outside the precondition.")
O['C12']=("the edits on a plain list-of-children model (`ref/edit.go`), compared with kind, value, position, order and parents; indices are 64-bit symbolic integers over the whole range.","nodes with more children than listed.")
O['C13']=("a bottom-up fold over the plain model; the given tree is compared with a copy taken before.","trees deeper than three levels or wider than listed.")
O['C14']=("structural comparison after printing and reading; for texts, a reader of the printed form written from its definition.","values longer than listed; three-level shapes.")
O['C15']=("strings of a regular expression by derivative-like matching over positions, compared with derivability in the resulting grammar; trees reduced and compared with the flattened derivation.","longer expressions and inputs; symbol names other than those used.")
O['C16']=("the composed Go reductions on the model of C12, and Go's own unquoting rules for strings.","longer texts and larger trees.")
O['C17']=("closure of the begins-with relation, as for C04.","larger grammars.")
O['C18']=("an association list of strings in order of insertion; structural comparison for casts.","longer histories; names longer than listed.")
O['C19']=("the order of outcomes in the statement, with components that behave in any way (each of their results is a symbolic choice) and record their calls.","more lexemes or reducers than listed.")
O['C20']=("a fresh instance given the same input alone; everything handed out earlier is compared again afterwards.","longer histories than two or three inputs; uses at the same time are C25's.")
O['C21']=("a tokenizer, recogniser and printer for the dialect written from the statement.","longer documents; non-ASCII text in strings only as fixed samples.")
O['C22']=("a precedence-climbing evaluator and a postfix evaluator. Numbers are concrete on every path: the digits are decided by forks because floating point is executed concretely.","longer expressions; values where floating point is not exact (compared with the same operations in the same order).")
O['C23']=("the reference lexer of C06 for the rules a definition lists.","patterns other than those used; longer definitions.")
O['C24']=("the texts as the statement gives them; quoting by strconv.Quote.","values with bytes at or above 0x80 beyond the fixed samples; numbers outside the list in HNumbers.")
O['C25']=("the same use of another value made in the same way, alone, for the results. For the schedules: the two uses are executed one after the other with every read and write of shared memory recorded; two accesses of one place, at least one a write, that are not ordered by a lock, a sync.Once, a pool, a channel or an atomic operation are a conflict under some schedule. Without conflicts every interleaving gives what the one executed gives, so one order stands for all of them; at synchronising operations the order is a path choice, with at most two switches. A conflict is replayed as two goroutines under Go's race detector.","three or more uses at once (a conflict is between two); more than two switches at synchronising operations; reads done inside functions of the standard library that the engine runs natively (they are given copies of strings and byte slices of the code under check).")
