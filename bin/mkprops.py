import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TG="pkg/bnf/tablegen/tablegen.go"; PA="pkg/parser/parser.go"; CS="pkg/cst/cst.go"; FC="pkg/bnf/fromcst/fromcst.go"; AS="pkg/bnf/ast.go"; SG="pkg/bnf/selfgrammar.go"; BS="pkg/bnf/tablegen/byteset/byteset.go"; EX="examples/json/main.go"; IF="pkg/parser/interface.go"
p("C01","A parser table is generated exactly for LL(1) grammars",
 "For every well-formed grammar, table generation succeeds if and only if the grammar is LL(1): for no rule can two of its alternatives both apply on the same next input byte or at end of input, judged by the bytes each alternative can start with and, for an alternative that can be empty, by what can follow the rule anywhere in the grammar. A grammar that is not LL(1) is refused with an error and no table, whichever order its rules and alternatives are written in, and an LL(1) grammar is never refused.",
 ["inputs","programs"],"every well-formed grammar: any number of rules, any alternatives, terminals over any bytes (other than a leading NUL), any chain of rules that can be empty",
 "The quantifier is over all grammars. The tests build tables for four grammars that are LL(1) and one that is not (and that one fails at the pinned commit); no test has an alternative followed by two or more symbols that can be empty, a conflict between two non-empty alternatives in either order, or a byte above 0x7f.",
 [TG,BS],[("FIRST fixpoint","findFirsts/ruleFirsts/sequenceFirsts in "+TG),("FOLLOW fixpoint","findFollows/ruleFollowsInSequence in "+TG),("cell conflict check","makeTableRow in "+TG)],
 ["return values of tablegen.FromGrammar"],[("firsts","bytes each rule can start with, 0 = can be empty",TG),("follows","bytes that can follow each rule, 0 = end of input",TG)])
p("C02","A generated parser accepts exactly the language of its grammar",
 "For every grammar accepted by table generation and every byte string, the generated parser accepts the string if and only if the string can be derived from the grammar's first rule. The whole input must be consumed: nothing after a complete sentence is ignored and nothing missing at the end is assumed, whatever byte values (NUL and bytes above 127 included) are involved.",
 ["inputs","programs"],"every LL(1) grammar and every byte string given to the parser built from it",
 "Tests parse nine short strings with three toy grammars and two BNF texts. They cannot reach combinations of rules that can be empty, long inputs, inputs containing NUL, or truncated and extended sentences of arbitrary grammars.",
 [TG,PA],[("table cells","makeTableRow in "+TG),("table lookup by next byte","processTableNonTerminal in "+PA),("end of input check","processEOS in "+PA),("byte match","processChar in "+PA)],
 ["err == nil of LL1Parser.Parse on a parser built from tablegen.FromGrammar"],[("operation stack","what is still to be matched",PA),("scanner offset","number of bytes consumed",PA)])
p("C03","The parse tree is the derivation of the input",
 "When a generated parser accepts an input, the tree it returns is the derivation of that input: the root is the first rule and spans the whole input, every rule node's children are, in order, exactly the symbols of one alternative of that rule, a terminal is a leaf of the literal kind whose span is exactly the terminal's text in the input, and a rule that matches the empty string has a single leaf of the nothing kind instead. Every node's span is the concatenation of its children's spans, half open, in byte offsets.",
 ["inputs","programs"],"every LL(1) grammar and every sentence of it, of any length and nesting depth",
 "Reference trees exist for six inputs of three toy grammars; a mistake in spans, child order, the number of children or the empty leaf that needs a longer alternative, a longer terminal, deeper nesting or several empty symbols in a row is out of their reach.",
 [PA,CS],[("reduce step building nodes","processFunction in "+PA),("literal node from matched bytes","processTerminal/processChar in "+PA),("node accessors",CS)],
 ["Type/Pos/End/Childs of the tree returned by LL1Parser.Parse"],[("production stack","subtrees finished so far",PA)])
p("C04","A rejection is clean and names the first impossible byte",
 "When a generated parser rejects an input it returns no tree, no name map and an error. The error reports the first byte (or the end of input, as code 0) that no sentence of the grammar can have at that place after the bytes before it - never an earlier or a later one - together with what was expected there: a particular byte, an alternative of a particular rule (by name), or the end of input.",
 ["inputs","programs"],"every LL(1) grammar in which every rule derives some string, and every byte string that is not a sentence, including proper prefixes of sentences and sentences followed by other bytes",
 "Tests compare four error messages of one non-recursive grammar. Which byte is first impossible depends on the whole prefix and on FOLLOW sets, so it has to be compared with the language for arbitrary grammars and inputs.",
 [PA],[("error on a missing cell","processTableNonTerminal in "+PA),("error on a byte mismatch","processChar in "+PA),("error on trailing input","processEOS in "+PA)],
 ["the three results of LL1Parser.Parse"])
p("C05","A hand-written table is executed exactly as written",
 "A parser made from any table of the public operations behaves as the pushdown machine that table describes, starting from row 0: a rule operation looks up the row by rule number and the cell by next byte (0 at end of input) and expands to that cell's operations in order, a terminal matches its bytes, and the built-in end-of-line rule (-2) matches a line feed or carriage return plus line feed. Missing rows, missing cells, unknown built-in numbers and an absent row 0 give errors that name the rule and never a tree, and an accepted input gives the tree of exactly the expansions performed.",
 ["inputs","configurations"],"every table (rows, cells, operation lists, name maps, sparse or negative rule numbers) in which no row can expand to itself without consuming input, and every input",
 "One hand-written table with one accepted input is tested. Missing rows, cells with several operations, empty cells, shared operation lists, built-in rules and absent names are never run.",
 [PA,IF],[("dispatch on operation kind","realParser.parse in "+PA),("built-in end-of-line rule","processBuiltinNonTerminal in "+PA),("row/cell lookup","processTableNonTerminal in "+PA)],
 ["results of parser.NewLL1Parser(table, names).Parse(src)"])
p("C06","Calls leave no trace: same call, same result, inputs untouched",
 "The result of generating a table, parsing, printing a grammar or building a grammar from a tree depends only on the arguments of that call, never on earlier calls on the same or other values, successful or failed. No call modifies what it was given (grammar, table, name map, source bytes, source buffer, tree, bindings) or a result handed out earlier, a result belongs to the caller who may modify it without affecting later calls, and the library writes nothing to standard output or standard error.",
 ["histories","inputs"],"every sequence of library calls on shared grammars, tables, name maps, sources and parsers, in which the caller may also overwrite results it was given",
 "Every test makes a fresh parser and most parse once; none looks at its arguments again after a call, repeats a call after a failed one, or looks at an old result after a new call.",
 [PA,TG,FC,AS],[("fresh machine per call","ll1parser_t.Parse in "+PA),("name map returned to the caller","processEOS in "+PA),("set values copied by value",BS),("bindings used by value","BNFCSTtoASTBindings.ToAST in "+FC)],
 ["results and arguments of every public call, before and after each later call","standard output and error of the process"],[("parser table and names","shared by all parses of a parser",PA)])
p("C07","How the source is supplied makes no difference",
 "Parsing the same bytes gives the same result whether they are supplied as a string, a byte slice, a bytes buffer or any reader, however the reader splits them into chunks, including empty reads and end of input reported together with or after the last bytes. A reader that fails at any point makes the parse fail with that error and no tree, and a missing source, a nil buffer or a value of any other kind is an error.",
 ["inputs","fault_sequences"],"every byte string, every way a reader may deliver it, and a read fault after any number of bytes",
 "Tests only pass strings. Chunk boundaries, zero-length reads, faults and the other source kinds are never exercised.",
 [PA],[("source normalisation","readSource in "+PA)],["results of LL1Parser.Parse for each kind of source"])
p("C08","BNF text is read as the grammar it denotes, other text is refused",
 "Any text in the library's BNF notation - lines ended by LF or CRLF, blank lines after the first line, optional spaces, alternatives separated by |, single- or double-quoted literals with their escapes, \"\" for nothing - is read, by the parser of the shipped BNF grammar followed by grammar construction, as exactly the grammar it denotes: the same rules, alternatives and symbols, in order, with escapes replaced. Text that does not follow the notation is refused with an error, and is never read as some other grammar.",
 ["inputs"],"every byte string, in and out of the notation",
 "Tests only check that two BNF texts parse without error; no test constructs a grammar from text at all (pkg/bnf/fromcst has no test).",
 [SG,FC,PA,TG],[("grammar of the notation","SelfGrammar in "+SG),("tree to grammar","ToAST/parseRule/parseSequence/parseSymbol/parseTerminalName in "+FC),("bindings for the shipped grammar","SelfCSTtoASTBindings in "+FC)],
 ["grammar or error from Parse followed by SelfCSTtoASTBindings().ToAST"])
p("C09","Printing a grammar and reading it back gives the same grammar",
 "For every grammar whose rule names fit the notation (a letter, then letters, digits or -), whose terminals are non-empty strings of printable ASCII, tab, line feed and carriage return, and whose rules and alternatives are non-empty, the printed text is valid notation that denotes exactly that grammar, and reading it back through the library yields an equal grammar. Printing what was read back gives the same text again.",
 ["inputs"],"every grammar in the printable domain, in particular every mix of quotes, backslashes, spaces, control escapes and notation characters inside terminals",
 "Only the shipped grammar is round-tripped, by an example program that is built but not run; literals mixing both quotes, escapes and backslashes are not in it.",
 [AS,FC,SG],[("quoting and escaping","SymbolTerminal.String in "+AS),("line layout","Rule.String/Grammar.String in "+AS),("unescaping","parseEscape/parseTerminalName in "+FC)],
 ["Grammar.String() and the grammar read back from it"])
p("C10","Every stage returns: no crash, no endless run, malformed input is an error",
 "Table generation returns for every grammar value built from the library's symbol kinds, and parsing with any generated table returns for every input: neither panics, runs forever or grows without bound. A malformed grammar - no rules, an alternative without symbols, an empty terminal, the empty string next to other symbols, a terminal that starts with NUL (the byte reserved for end of input), a name used but not defined, or a name defined twice - is refused with an error wherever in the grammar the flaw is.",
 ["inputs","programs"],"every grammar value, well-formed or not, left-recursive or not, productive or not, and every input for the parsers that result",
 "Tests never pass a malformed grammar, and the only left-recursive one they pass is one for which the pinned commit does not loop. Absence of panics and of endless expansion is a statement about all grammars and inputs.",
 [TG,PA],[("grammar checks","sequenceFirsts/ruleFollowsInSequence/makeTableRow and FromGrammar in "+TG),("conflict check that rules out endless expansion","makeTableRow in "+TG),("main loop","realParser.parse in "+PA)],
 ["whether tablegen.FromGrammar and LL1Parser.Parse return, and with an error or not"])
p("C11","Nodes and names use the numbering of the grammar's rules",
 "A rule's number in the table, in tree nodes and in name maps is its position in the grammar, starting at 0. The names returned with a table map every number to that rule's name and contain nothing else; the names returned by a parse are the parser's names plus one name each for literal leaves (-1) and nothing leaves (-2), so that every node of every tree has a name.",
 ["inputs","configurations"],"every accepted grammar and every successful parse, including parsers created with partial, empty or absent name maps",
 "Tests compare one name map of each kind, for the shipped grammar only, and never create a parser without names.",
 [TG,PA],[("rule numbering","enumerate and FromGrammar in "+TG),("names of built-in leaves","processEOS in "+PA)],
 ["the name maps returned by tablegen.FromGrammar and LL1Parser.Parse, and node types"])
p("C12","Walking visits exactly the nodes the visitors ask for, in order",
 "Walking a tree visits its root and then, for a node whose visit returned a visitor, its children from first to last, each with the visitor returned for their parent, every subtree being finished before the next sibling starts. A visit that returns no visitor cuts off that node's descendants and nothing else, and no node is visited twice or skipped otherwise.",
 ["inputs","histories"],"every tree shape, every choice of which visits return nothing, and every way visitors hand on new visitors or change state during the walk",
 "One tree with one visitor that never cuts anything off is tested.",
 [CS],[("recursive walk","Walk in "+CS)],["sequence of Visit calls made by cst.Walk"])
p("C13","Byte sets behave as sets of bytes under every history",
 "After any sequence of additions, removals and unions, a byte set contains exactly the bytes that set algebra says it should, for all 256 byte values. Membership, size, the increasing listing, the text form, equality, subset and superset tests all agree with that set, copies are independent, and only adding and removing change a set.",
 ["histories","inputs"],"every history of operations on any number of byte sets, every byte value",
 "No test touches byte sets directly; table generation for the tested grammars uses only ASCII bytes, that is two of the four words, and never the text form.",
 [BS],[("bit per byte in four words","Add/Remove/Contains in "+BS),("lowest set bit by De Bruijn table","realBytesF/log2pow2n in "+BS),("word-wise algebra","Union/Equal/IsSubSet in "+BS)],
 ["all methods of byteset.ByteSet"],[("data","256 bits",BS)])
p("C14","Order and spelling carry no meaning",
 "Reordering the alternatives of a rule, reordering all rules but the first, or renaming rules consistently changes neither whether a table is generated nor which inputs the parser accepts, and the trees differ only by the renumbering of rules. The same holds for consistently replacing one terminal byte by another that is not in use.",
 ["inputs","programs"],"every well-formed grammar, every permutation of its rules (first one fixed) and alternatives, every renaming, every input",
 "No test compares two presentations of the same grammar; conflicts that are only noticed in one order of alternatives, or sets that are only complete for one order of rules, need such pairs.",
 [TG,PA],[("fixpoints over rules in order","findFirsts/findFollows in "+TG),("cells filled in order of alternatives","makeTableRow in "+TG)],
 ["results of tablegen.FromGrammar and Parse on both presentations"])
p("C15","Building a grammar from a tree is governed by the bindings",
 "Given any tree, its text and any bindings of node kinds to notation roles, grammar construction collects rules, alternatives and symbols in text order from the nodes of the bound kinds, skips subtrees of ignored kinds, and takes the first head and tail found in each rule. Names and literals are the text under their nodes with every escape sequence replaced through the escape mapping; a rule without head or tail, a symbol of no known kind and an unknown escape are errors and give no grammar.",
 ["inputs","configurations"],"every tree, text and binding, in particular trees of other BNF-like grammars with another numbering of rules",
 "Nothing in the test suite builds a grammar from a tree; the example that does uses only the shipped bindings and a text without ignored or unknown parts.",
 [FC,CS],[("search with cut-off","lrTraverse in "+FC),("role by node kind","parseRule/parseSubstitution/parseSequence/parseSymbol in "+FC),("escapes","parseTerminalName/parseEscape in "+FC)],
 ["grammar or error returned by BNFCSTtoASTBindings.ToAST"])
p("C16","Concurrent calls on shared values behave as if made alone",
 "A parser, a table, a name map, a grammar and a tree may be used by any number of goroutines at once: every parse, generation, print, walk and grammar construction gives the result it would give on its own, whatever the interleaving. No call writes memory that another call on the same values reads or writes.",
 ["schedules","inputs"],"every interleaving of any number of calls on shared parsers, tables, name maps, grammars, trees and bindings, with distinct or equal inputs, succeeding or failing",
 "The tests contain no goroutine; at the pinned commit two simultaneous successful parses write the same map.",
 [PA,TG,FC,CS],[("all parse state in a per-call value","ll1parser_t.Parse/realParser in "+PA),("no package-level mutable state",TG),("name map returned by a parse","processEOS in "+PA)],
 ["result of each concurrent call; reports of the race detector"])
p("C17","The example programs do what they print",
 "The self-syntax example reports that the shipped grammar survives printing, reading and rebuilding. The JSON example, given any document of its documented JSON subset, reports success and prints every object key in document order, indented by the number of objects and arrays around it, and given any other text it fails with an error message and a non-zero exit status.",
 ["inputs"],"every JSON document of the subset (any nesting of objects, arrays, strings with escapes, numbers, literals and whitespace) and every text outside it",
 "The examples are built but never run by the tests; the shipped JSON grammar is not parsed by any test.",
 [EX,"examples/json/json.bnf","examples/parseownsyntax/main.go",TG,PA,FC],[("whole pipeline from BNF text to parser","main in "+EX),("JSON grammar","examples/json/json.bnf"),("key printing visitor","keyPrintingVisitor.Visit in "+EX)],
 ["standard output, standard error and exit status of the example programs"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
