package main

// The JSON shapes shared with the TLA+ trace specifications. Every slice
// that a specification reads must be non-nil, so that it is written as [].

type Sym struct {
	K string `json:"k"` // "t" terminal, "n" rule reference, "e" nothing
	V []int  `json:"v"`
	N string `json:"n"`
}

type Rule struct {
	Head string  `json:"head"`
	Alts [][]Sym `json:"alts"`
}

type Gram []Rule

// Op is an operation of a hand-written table.
type Op struct {
	K string `json:"k"` // "n" or "t"
	V []int  `json:"v"`
	I int    `json:"i"`
}

type Cell struct {
	B   int  `json:"b"`
	Ops []Op `json:"ops"`
}

type Row struct {
	R     int    `json:"r"`
	Cells []Cell `json:"cells"`
}

type Name struct {
	K int    `json:"k"`
	V string `json:"v"`
}

// Chunk is one Read of a scripted reader.
type Chunk struct {
	N   int    `json:"n"`   // bytes delivered
	Err string `json:"err"` // "", "eof", "fault"
}

// Parse is one call of Parse and what it returned.
type Parse struct {
	Src    []int    `json:"src"`
	Form   string   `json:"form"`   // how the source is supplied
	Chunks []Chunk  `json:"chunks"` // script of a reader, then what was read
	Res    string   `json:"res"`    // "ok" "err" "panic" "hang" "crash"
	Nodes  [][4]int `json:"nodes"`  // preorder: kind, start, end, number of children
	CNodes []CNode  `json:"cnodes"` // the same with child indices, for big trees
	Names  []Name   `json:"names"`
	Codes  []int    `json:"codes"` // numbers in parentheses in the error
	Words  []string `json:"words"` // words of the error
	Clean  bool     `json:"clean"` // an error comes without tree and names
	Same   bool     `json:"same"`  // the error returned is the reader's error
	Left   int      `json:"left"`  // bytes left in a buffer after the call
	Kept   bool     `json:"kept"`  // the source bytes are unchanged
	Note   string   `json:"note"`
	Digest int      `json:"digest"` // of tree and names, or of the error
	Size   int      `json:"size"`   // bytes of the source
	Fault  string   `json:"fault"`  // which error the reader fails with
	Dress  string   `json:"dress"`  // what else the reader can do
}

type CNode struct {
	T int   `json:"t"`
	S int   `json:"s"`
	X int   `json:"x"`
	C []int `json:"c"`
}

// GramObs is what table generation returned.
type GramObs struct {
	Gen   string `json:"gen"`
	Names []Name `json:"names"`
	Rows  []int  `json:"rows"`
	Clean bool   `json:"clean"` // an error comes without table and names
	Note  string `json:"note"`
}

type Case struct {
	ID    int      `json:"id"`
	Kind  string   `json:"kind"`
	Check []string `json:"check"`
	Tag   string   `json:"tag"`
	Mode  string   `json:"mode"`

	// gram, table
	G      Gram    `json:"g"`
	Obs    GramObs `json:"obs"`
	Table  []Row   `json:"table"`
	NoNm   bool    `json:"nonames"`
	Names  []Name  `json:"names"`
	Parses []Parse `json:"parses"`

	// pair
	G2      Gram    `json:"g2"`
	Obs2    GramObs `json:"obs2"`
	Parses2 []Parse `json:"parses2"`
	Perm    []int   `json:"perm"` // rule i of g is rule perm[i] of g2 (0-based)
	Swap    []int   `json:"swap"` // two bytes exchanged in g2

	// text, print
	Text    []int   `json:"text"`
	Res     string  `json:"res"`
	Clean   bool    `json:"clean"` // an error comes without a grammar
	Rules   []TRule `json:"rules"`
	Printed []int   `json:"printed"`
	Again   []int   `json:"again"`
	Given   []TRule `json:"given"` // print: the grammar with names as bytes
	Note    string  `json:"note"`

	// toast
	Tree *TNode    `json:"tree,omitempty"`
	TN   []CNode   `json:"tn"`
	Bind *Bindings `json:"bind,omitempty"`
	Flat [][4]int  `json:"flat,omitempty"` // a tree too deep for nested JSON: type, start, end, parent (from 1) in preorder

	// walk
	Script []Visit `json:"script"`
	Visits []Visit `json:"visits"`

	// byteset
	SetOps []SetOp `json:"setops"`

	// histories
	Hist   []HistOp `json:"hist"`
	Sys    []SysOp  `json:"sys,omitempty"`
	Rounds int      `json:"rounds"` // how often each goroutine repeats its calls
	Races  int      `json:"races"`  // conflicting accesses inside the library

	// example
	Out  [][]int `json:"out"`
	Exit int     `json:"exit"`
	Size int     `json:"size"` // bytes on standard error
}

// TRule is a rule as read from text: all strings are byte lists.
type TRule struct {
	Head []int    `json:"head"`
	Alts [][]TSym `json:"alts"`
}

type TSym struct {
	K string `json:"k"`
	V []int  `json:"v"`
}

type TNode struct {
	T int      `json:"t"`
	S int      `json:"s"`
	X int      `json:"x"`
	C []*TNode `json:"c"`
}

type Bindings struct {
	Ignore []int     `json:"ignore"`
	Rule   int       `json:"rule"`
	Head   int       `json:"head"`
	Tail   int       `json:"tail"`
	Seq    int       `json:"seq"`
	Sym    int       `json:"sym"`
	Term   []int     `json:"term"`
	NT     int       `json:"nt"`
	Esc    int       `json:"esc"`
	EscCh  int       `json:"escch"`
	Map    []EscPair `json:"map"`
}

type EscPair struct {
	From []int `json:"from"`
	To   []int `json:"to"`
}

type Visit struct {
	Node int `json:"node"` // preorder number
	Vis  int `json:"vis"`  // label of the visitor
	Ret  int `json:"ret"`  // label returned, -1 for none
}

type SetOp struct {
	Op    string `json:"op"`
	A     int    `json:"a"`
	B     int    `json:"b"`
	D     int    `json:"d"`
	V     int    `json:"v"`
	Vs    []int  `json:"vs"`
	Bool  bool   `json:"bool"`
	Int   int    `json:"int"`
	List  []int  `json:"list"`
	Text  []int  `json:"text"`
	Panic bool   `json:"panic"`
}

// HistOp is one call of a history. Objects are named by the call that made
// them (its number, from 0).
type HistOp struct {
	Op   string `json:"op"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	W    []int  `json:"w"`
	G    Gram   `json:"g"`
	Rows []Row  `json:"rows"`
	Nm   []Name `json:"nm"`

	Key     string `json:"key"`    // identifies the call: equal key, equal result
	Res     string `json:"res"`    // ok err panic, skip (an argument is missing), caller
	Digest  int    `json:"digest"` // of the result
	Watch   []int  `json:"watch"`  // digest of every object after the call, by number
	Touch   []int  `json:"touch"`  // objects the caller itself overwrote (from 1)
	Printed int    `json:"printed"`
	Who     int    `json:"who"` // goroutine
	Note    string `json:"note"`

	// of the call just made
	clean  bool
	text   string
	visits [][4]int

	// of a call that pauses: sizes of what its reader delivers; pause
	Cuts  []int `json:"cuts,omitempty"`
	pause func()
}

// SysOp is a call of a history with all it gave.
type SysOp struct {
	HistOp
	Rules  []TRule   `json:"rules"`  // given or made
	Bind   *Bindings `json:"bind"`   // given or made
	BNames []BName   `json:"bnames"` // given or made
	Nodes  [][4]int  `json:"nodes"`
	Codes  []int     `json:"codes"`
	Words  []string  `json:"words"`
	Msg    []int     `json:"msg"`
	Clean  bool      `json:"clean"`
	Text   []int     `json:"text"`
	Visits [][4]int  `json:"visits"`
}

type BName struct {
	K int   `json:"k"`
	V []int `json:"v"`
}
