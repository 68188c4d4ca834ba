#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Packrat accepts exactly the language of the grammar",
  "For every context-free grammar (left-recursive, nullable, ambiguous or cyclic included) and every sequence of lexemes, the packrat parser terminates without panicking and returns a non-nil tree if and only if the kinds of the lexemes can be derived from the grammar's start symbol (the first non-terminal). Lexemes of a kind the grammar does not know, or that carry the name of a non-terminal, never match anything.",
  ["inputs","programs"],"every grammar and every lexeme sequence",
  "packrat_test.go parses six inputs with five grammars, all of them accepted; rejection, cyclic and mostly-nullable grammars are never sampled.",
  ["parser/packrat/packrat.go","symbol/setsymbol/set.go"],
  [("worklist of partial productions and memo of recognised spans","parser/packrat/packrat.go: Parse, addProds, update, addToMemo, addPartial")],
  ["packrat.New(g).Parse(lexemes) == nil"])
p("C02","Packrat trees are derivations of exactly the input",
  "Whenever the packrat parser returns a tree, the root is the start symbol, the kinds of every interior node's children are one of that symbol's productions in order, and reading the terminal leaves left to right gives back exactly the input lexemes with their kinds, values and positions; an interior node has no value and the position of its first child. Every node's Parent() is the node that lists it as a child, the root's Parent() is nil, and no node occurs twice.",
  ["inputs","programs"],"every grammar and every lexeme sequence that is accepted",
  "The tests compare four printed trees; positions, parent links and node lexemes are not printed, and only four derivations are looked at.",
  ["parser/packrat/packrat.go","tree/parsetree.go"],
  [("memo-to-tree conversion","parser/packrat/packrat.go: toPN"),("parent accessor","tree/parsetree.go: Parent")],
  ["the parse tree"])
p("C03","Packrat prefers the production that is listed first",
  "In a tree returned by the packrat parser for a grammar in which no symbol derives itself, every node uses the first of its symbol's productions that can derive the part of the input the node covers. For the same production, ties between ways to split the input are decided so that a binary production of the form E -> E op E, listed before the operands' own productions, groups to the left.",
  ["inputs","programs"],"every non-cyclic grammar and every accepted lexeme sequence",
  "Priorities are checked in three hand-picked inputs; which alternative is found first depends on worklist order, grammar and input together.",
  ["parser/packrat/packrat.go"],
  [("priority comparison on memo replacement","parser/packrat/packrat.go: addToMemo, comparePriority, createsCircularDep")],
  ["the parse tree"])
p("C04","Left recursion is reported exactly when it exists",
  "For every grammar the left-recursion test answers true if and only if some non-terminal can derive a sentential form that begins with itself, counting symbols that can vanish before it (directly or through other productions), independently of the order of non-terminals and productions. The top-down parser's constructor returns an error exactly for those grammars.",
  ["programs"],"every grammar",
  "TestIsRecursive covers three grammars and is not even built here; nullability that was computed earlier or through several productions is never sampled.",
  ["leftrecursion.go","parser/topdown/topdown.go"],
  [("depth-first search with nullable tracking","leftrecursion.go: check"),("constructor guard","parser/topdown/topdown.go: New")],
  ["parlex.IsLeftRecursive(g)","topdown.New(g)"])
p("C05","Top-down parsing is ordered choice and yields a derivation of the input",
  "For every grammar that is not left recursive and every lexeme sequence, the top-down parser terminates and returns a tree exactly if ordered choice accepts: at each position a symbol commits to its first production whose symbols match one after another, and only the start symbol additionally goes on to later productions until one consumes the whole input. The tree is that derivation: root the start symbol, each interior node's children one of its productions, leaves the input lexemes in order with kind, value and position, every node's Parent() the node that lists it (nil for the root), and no node occurring twice.",
  ["inputs","programs"],"every non-left-recursive grammar and every lexeme sequence",
  "topdown_test.go parses three accepted inputs and compares one tree; no rejected input, no backtracking, no unconsumed rest.",
  ["parser/topdown/topdown.go"],
  [("memoised ordered choice","parser/topdown/topdown.go: accept, tryAccept, acceptProd")],
  ["topdown Parse result"])
p("C06","The simple lexer splits any input losslessly by its rules",
  "For every rule set and every input, the simple lexer's output is exactly: scanning left to right, at each position the rule with the longest non-empty match (earliest rule on a tie; in by-priority mode the earliest rule with a non-empty match) consumes its match and yields one lexeme with that rule's kind and the matched text unless the rule discards, and each maximal run of bytes where no rule matches yields one error lexeme with that text. The inserted start and end lexemes, if set, come first and last, and lexing never panics. Printing a lexer and reading the text gives a lexer with the same rules in the same order. (Patterns that look behind the current position, such as ^ and \\b, are outside this.)",
  ["inputs","configurations"],"every set of rules, both match modes, and every input string",
  "lexer_test.go lexes five short inputs with one rule set by length; by-priority mode, empty matches and ties other than keyword/word are never run.",
  ["lexer/simplelexer/lexer.go","lexer/simplelexer/construct.go"],
  [("next-match cache and comparison","lexer/simplelexer/lexer.go: Lex, findNextMatch, updateNext, checkError")],
  ["Lexer.Lex"])
p("C07","The stack lexer follows push, pop and priority rules on any input",
  "For every well-formed definition and every input, the stack lexer's output is exactly: in the current sub-lexer the longest non-empty match (earliest rule on a tie; by priority if so configured) consumes its match and yields a lexeme unless discarded; a push rule enters the named sub-lexer, a pop rule leaves that many levels (stopping at the outermost), and when nothing matches inside a pushed sub-lexer it is left without consuming input, whereas at the outermost level the maximal run of unmatched bytes becomes one error lexeme. Lexing never panics and inserted start and end lexemes come first and last. (Patterns that look behind the current position, such as ^ and \\b, are outside this.)",
  ["inputs","configurations"],"every definition with existing push targets, every input",
  "stacklexer_test.go lexes six inputs; pops at the outermost level, empty matches, error runs before cached matches are not sampled.",
  ["lexer/stacklexer/lex.go"],
  [("stack of sub-lexers with cached next matches","lexer/stacklexer/lex.go: lex, pop, populateNext, updateNext, findNextMatch")],
  ["StackLexer.Lex"])
p("C08","Stack lexer definitions mean the same on every construction",
  "Constructing a stack lexer is deterministic: the order of lines gives the priority of rules, an inherited sub-lexer's rules take their own order at the place of the inheriting line, and the first rule for a kind wins, whatever order the sub-lexers are visited in. A definition that inherits cyclically, has an invalid regular expression, has no sub-lexer, names a group the pattern does not have or pushes to a sub-lexer that does not exist is rejected with an error, and group lists such as (1|\":\"|2) build the value from the named groups and the quoted literals.",
  ["schedules","configurations"],"every definition and every map iteration order during construction",
  "Construction iterates over a map, so a run samples one of the possible orders; tests use definitions where the order does not matter and no invalid definition.",
  ["lexer/stacklexer/construct.go","lexer/stacklexer/lex.go"],
  [("recursive parse with inheritance","lexer/stacklexer/construct.go: New, parse, addMatch, addRule, addHeir, parseSubmatches")],
  ["stacklexer.New","StackLexer.Lex"])
p("C09","Lexeme positions are where the text starts in the input",
  "For every input, every lexeme and every error lexeme of both lexers that stems from the input reports the line and column at which its text starts: the line is the lexer's first line number (0 for the simple lexer, 1 for the stack lexer) plus the number of newlines before it and the column is the 1-based byte offset after the last newline before it. This holds also after discarded text, multi-line lexemes and multi-line errors; a lexeme whose value is built from capture groups is at the start of its match.",
  ["inputs"],"every input, with newlines anywhere, for both lexers",
  "Positions are compared in four stack-lexer inputs without newlines inside errors and never for the simple lexer.",
  ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go"],
  [("line counting and last-newline search","lexer/simplelexer/lexer.go: findNextMatch, checkError; lexer/stacklexer/lex.go: handleLineCol, checkError")],
  ["Lexeme.Pos()"])
p("C10","Grammar text and grammar agree in both directions",
  "For every grammar text, with symbols separated by spaces and white space around a line ignored, each line contributes its production, in order, to the non-terminal on its left or, if there is none, to the latest one (START if there was none yet); non-terminals are listed in order of first definition, a symbol without definition is not a non-terminal, and more than one arrow on a line is an error. Printing a grammar and parsing the text gives a grammar with the same non-terminals and productions in the same order, and building it by adding productions one by one gives the same as parsing its text.",
  ["inputs","programs"],"every grammar text and every grammar with symbols free of white space and arrows",
  "grammar_test.go checks three texts and compares printed forms only, so a defect in printing and parsing together is invisible.",
  ["grammar/grammar.go","symbol/setsymbol/set.go"],
  [("line parser","grammar/grammar.go: New, productionFromLine, trimAndSplit"),("printer","grammar/grammar.go: String"),("incremental construction","grammar/grammar.go: Add")],
  ["grammar.New","Grammar.String","Grammar.Productions","Grammar.NonTerminals"])
p("C11","Removing left recursion keeps the language and removes the recursion",
  "For every grammar without vanishing symbols and without symbols that derive themselves, removing left recursion terminates and gives a grammar that starts with the same symbol, derives exactly the same terminal strings from it and is not left recursive. The given grammar is not changed.",
  ["programs"],"every grammar without empty productions and without cycles",
  "left_recursion_test.go compares two results with expected texts.",
  ["grammar/left_recursion.go"],
  [("substitution of processed non-terminals, then direct removal","grammar/left_recursion.go: RemoveLeftRecursion, safeAdd, removeDirectLeftRecursion")],
  ["grammar.RemoveLeftRecursion"])
p("C12","Tree edits do what their index says and nothing else",
  "For every node and every child index, the node edits (remove one, several or all of a kind, promote a child, its value, its children or all grandchildren, replace with a child) count negative indices from the end, change exactly the addressed children, keep all other nodes with kind, value, position and relative order, and do nothing, reporting so where they report, for an index out of range. Afterwards every node's Parent() in the tree is the node that lists it and the edited node keeps its own parent.",
  ["inputs"],"every node with any number of children and grandchildren, every index in the integer range",
  "reduce_test.go uses one index per operation, mostly in range and positive, on fresh trees and checks one or two fields.",
  ["tree/node_reductions.go","tree/parsetree.go","tree/chain_reductions.go"],
  [("index normalisation and slice surgery","tree/node_reductions.go")],
  ["*tree.PN methods"])
p("C13","Reducing works bottom-up on a copy",
  "For every tree and reducer, reducing applies each node's rule exactly once, children before parents, to a copy: the given tree is unchanged afterwards, nodes without a rule keep kind, value, position and children, and every node's Parent() in the result is the node that lists it. A merged reducer applies the first reducer's rule and then the second's for each kind and is independent of both, and chained and conditional reductions run their parts in order.",
  ["inputs","configurations"],"every tree and every reducer",
  "TestReduce and TestMerge check two trees; the input tree is never compared afterwards and parents never checked.",
  ["tree/reducer.go","tree/chain_reductions.go"],
  [("recursive copy and apply","tree/reducer.go: RawReduce, Merge"),("composition","tree/chain_reductions.go: Chain, If")],
  ["tree.Reducer.Reduce","tree.Merge"])
p("C14","A printed tree reads back as the same tree",
  "For every tree whose kinds are non-empty and free of white space, quotes, colons and braces, and whatever its values contain, reading the printed form gives a tree with the same shape, kinds and values and correct parent links. Text that is not one complete tree (nothing, an unmatched brace, several roots, a malformed line) gives an error, never a panic or another tree; cloning gives an equal tree with kinds, values, positions and parent links that shares no node. The size of a tree is the number of its nodes.",
  ["inputs"],"every tree and every text",
  "parsetree_test.go round-trips two trees and one malformed line; values other than plain and quoted text are not sampled.",
  ["tree/parsetree.go"],
  [("printer","tree/parsetree.go: String, string"),("line reader","tree/parsetree.go: New"),("copy","tree/parsetree.go: Clone")],
  ["tree.New","PN.String","tree.Clone","PN.Size"])
p("C15","Regex grammars mean what their operators say",
  "For every grammar text with the operators ?, *, | and groups in any nesting, the resulting grammar gives each listed non-terminal exactly the strings of its regular expression over symbols, and a malformed text gives an error, never a panic. White space, blank lines and comment lines make no difference. Applying the returned reducer to a parse tree leaves the repeated parts as direct children of the node in whose production the repetition stands, in input order, with no helper node left.",
  ["programs","inputs"],"every regex grammar text and every parse tree of the resulting grammar",
  "regexgram_test.go compares four expansions by text; most operator nestings and every name clash are unsampled.",
  ["grammar/regexgram/regexgram.go"],
  [("expansion of operators","grammar/regexgram/regexgram.go: evalProd, evalSymbol, addRepeatAsProduction, mergeRules, reduce, getName"),("flattening reducer","grammar/regexgram/regexgram.go: bludgeon")],
  ["regexgram.New"])
p("C16","Reducer text behaves like the composed reductions it names",
  "For every reducer text, parsing gives a reducer that acts on every tree exactly like the Go reductions of the same names and arguments composed in the written order, including negative indices, several arguments, string arguments as Go unquotes them, conditionals with nested chains and Nil; white space and // comments do not matter and rules for different kinds do not affect each other. Malformed text gives an error, never a panic.",
  ["programs","inputs"],"every reducer text and every tree",
  "reducer_test.go applies one rule per operation to one tree each.",
  ["tree/reducer/reducer.go"],
  [("grammar of reducer texts and evaluation","tree/reducer/reducer.go: Parse, evalReduction, evalVarNumArgs, evalOneNumArg, evalConditional")],
  ["reducer.Parse"])
p("C17","Grammar analysis gives exact first sets",
  "For every grammar (recursive ones included), a terminal is reported as a possible first symbol of a symbol exactly if some string of symbols derived from it by productions begins with that terminal (symbols before it vanishing), and a terminal is its own only first. A symbol is reported as contained exactly if it occurs in the grammar, as non-terminal exactly if it has productions, and nil-in-first exactly if an empty production can be reached through leftmost children only.",
  ["programs"],"every grammar",
  "analysis_test.go checks two non-recursive grammars.",
  ["analyze/analysis.go"],
  [("first-set computation","analyze/analysis.go: Analyze, firsts"),("queries","analyze/analysis.go: HasFirst, Contains, NonTerminal, HasNilInFirst")],
  ["analyze.Analyze"])
p("C18","Symbol sets number strings one to one",
  "In every history of operations on a symbol set, equal strings always get the same index and different strings different ones, indices are dense from 0 in order of first insertion and never change, and index, string, membership and size agree, whichever symbol type or other set the symbol comes from. Casting productions between the string and set representations or iterating over them gives the same symbols in the same order, and productions in a collection do not change when a production taken from it or put into it, or another collection made from it, is extended.",
  ["histories","inputs"],"every sequence of insertions and queries with any strings",
  "set_test.go inserts three symbols and looks one up.",
  ["symbol/setsymbol/set.go","symbol/stringsymbol/symbol.go","helpers.go"],
  [("interning","symbol/setsymbol/set.go: Str, Symbol, Idx, ByIdx, HasSymbol"),("casts","symbol/setsymbol/set.go, symbol/stringsymbol/symbol.go"),("iterators","helpers.go: Next")],
  ["setsymbol.Set","stringsymbol casts","iterators"])
p("C19","Running a pipeline reports the first failure and otherwise the reduced tree",
  "For every lexer, parser and list of reducers, running an input returns the could-not-lex error if the lexer yields nil, else the first error lexeme if there is one (without parsing), else the could-not-parse error if the parser yields nil (without reducing), else the could-not-reduce error as soon as a reducer yields nil, else the tree after all non-nil reducers in order; a tree is returned if and only if the error is nil. A stored runner behaves the same on every use, and error lexemes are collected completely and in order.",
  ["inputs","histories"],"every behaviour of the three components and every sequence of runs",
  "No test calls the pipeline directly; the examples reach two of its six outcomes.",
  ["parlex.go","helpers.go"],
  [("pipeline","parlex.go: Run, Runner"),("error collection","helpers.go: LexErrors")],
  ["parlex.Run","Runner.Run","LexErrors"])
p("C20","Lexers, parsers and reducers keep no state between uses",
  "For every sequence of inputs given to one lexer, parser, reducer or runner, each result is the same as from a freshly constructed one given that input alone, and neither the lexemes nor earlier results handed out are changed by later calls. Adding rules to a lexer between inputs only adds those rules, whatever was lexed before.",
  ["histories"],"every sequence of inputs, failing ones included",
  "Tests use every instance once.",
  ["lexer/simplelexer/lexer.go","lexer/simplelexer/construct.go","lexer/stacklexer/lex.go","parser/packrat/packrat.go","parser/topdown/topdown.go","grammar/grammar.go"],
  [("per-call operation structs","simplelexer.lexOp, stacklexer.lexOp, packrat.prOp, topdown.tdOp")],
  ["Lex","Parse","Reduce"])
p("C21","JSON formatting keeps the document",
  "For every input string, formatting succeeds exactly if its tokens form a JSON value in the example's dialect (numbers without sign or exponent, strings, true, false, null, arrays, objects), and then the output has exactly the same tokens in the same order. The layout depends on the structure alone, not on the white space of the input: an array or object within an array starts a line of its own, with the closing bracket of that array on a new line after it; an object of two or more members has one per line; a line is indented by two spaces for each such broken array or object it is in; everything else is on one line. Formatting the output again returns it unchanged.",
  ["inputs"],"every input string",
  "json_test.go formats one document and rejects two.",
  ["examples/parlexjson/json.go","parser/topdown/topdown.go","grammar/regexgram/regexgram.go"],
  [("lexer, grammar, reducer and printer","examples/parlexjson/json.go: Format, prettyPrint")],
  ["parlexjson.Format"])
p("C22","The calculators compute ordinary arithmetic",
  "For every infix expression of unsigned or signed decimal numbers, + - * / and parentheses, the infix calculator returns the value given by the usual precedence and left-to-right grouping, and an error for any other string. For every sequence of numbers, unary and binary operators without stack underflow, the stack calculator returns the final stack a postfix evaluation gives, each value with the highest number of decimals among its operands, which it is printed with; a stack operator (len, sum, avg, min, max, first, last) after it gives the one value it names, and swap, drop or clear after it change the top. Three values and a '?' give the second if the third is positive, else the first.",
  ["inputs"],"every expression",
  "math_test.go evaluates nine expressions and scalc_test.go about fifty.",
  ["examples/parlexmath/math.go","examples/scalc/scalc.go","parser/packrat/packrat.go"],
  [("grammar priorities and evaluation","examples/parlexmath/math.go: eval; examples/scalc/scalc.go: evalStack, evalE, evalBop, evalUop")],
  ["parlexmath.Eval","scalc.Eval"])
p("C23","A simple lexer's definition means its rules",
  "A simplelexer made from definition strings has one rule for every line that holds a word, in order: the word is the kind, the text between slashes (in which \\/ stands for a slash) is the pattern, or the word itself (as a pattern) when there is none, and a '-' after it marks the kind as discarded. White space around and between the parts, blank lines and the division of the lines into several strings make no difference. A pattern that is no regular expression, or a second rule for a kind, is an error and no lexer. Add for a kind that is already defined is an error and changes nothing. Printing a lexer gives a definition of a lexer that lexes every input in the same way, whatever its patterns contain.",
  ["inputs"],"every definition and every input",
  "simplelexer's tests build four lexers from well-formed text and compare one printed form.",
  ["lexer/simplelexer/construct.go","lexer/simplelexer/lexer.go"],
  [("definition reader and printer","lexer/simplelexer/construct.go: New, Add, String")],
  ["simplelexer.New","Lexer.Add","Lexer.String"])
p("C24","Printed lexemes and lex errors name kind, value and position",
  "For every lexeme, the short form is the kind, followed by ': ' and the value unless that is empty; several lexemes are joined with ', ' in brackets, and nothing is printed for none. The list has one line per lexeme, in order, with the kind, ': ', the value in Go quotes, so that any value stays on its line, and ' (line, column)' if the line or the column is positive. A lexeme that is built or copied has exactly the kind, value and position it was given, line -1 where none was given, and does not change with its copy. The error of either lexer prints as 'Lex Error line:column) text' with the position and the unmatched text.",
  ["inputs"],"every kind, value and position and every sequence of lexemes; every input of the lexers",
  "lex_test.go prints six lexemes with plain values; quotes, line breaks, missing positions and error texts are not sampled.",
  ["helpers.go","lexeme/lexeme.go","lexer/simplelexer/lexer.go","lexer/stacklexer/construct.go"],
  [("printing","helpers.go: LexemeString, LexemeList; lexeme/lexeme.go: String"),("copies","lexeme/lexeme.go: Copy, Set, At"),("error texts","errLexeme.Error in both lexers")],
  ["parlex.LexemeString","parlex.LexemeList","lexeme.Lexeme","LexError.Error()"])
p("C25","Uses at the same time do not disturb each other",
  "One lexer, parser, grammar, analysis, reducer, runner, tree or collection of productions can be used by several goroutines at once, as long as none of them is being changed (rules added, options set, children edited, symbols or productions added), and so can the functions that read definitions, grammars, reducers and trees and the examples' functions. For every pair of such uses (lexing, parsing, analysing, asking, printing, cloning, reducing, running), whatever their inputs, failing ones included, and for every interleaving, there is no data race, each gives the result it gives alone, and the shared value gives the same afterwards.",
  ["inputs","schedules"],"every pair of uses, their inputs and every interleaving of them",
  "No test starts a goroutine, and a race shows only under some schedules.",
  ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go","parser/packrat/packrat.go","parser/topdown/topdown.go","grammar/grammar.go","symbol/setsymbol/set.go","analyze/analysis.go","tree/reducer.go","tree/reducer/reducer.go","grammar/regexgram/regexgram.go","parlex.go","examples"],
  [("state of one call","simplelexer.lexOp, stacklexer.lexOp, packrat.prOp, topdown.tdOp"),("shared, only read","Lexer.set, Grammar.set, Grammar.productions, the package-level runners of regexgram, reducer and the examples")],
  ["Lex","Parse","Run","Reduce","Clone","Productions","NonTerminals","String","Analyze","New, Parse and Format functions"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
