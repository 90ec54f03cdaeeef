package main

import (
	"math/rand"
	"strings"
)

// ---------------------------------------------------------------------------
// Texts in the notation.

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const nameRest = letters + "0123456789-"

func randName(r *rand.Rand) string {
	b := []byte{letters[r.Intn(len(letters))]}
	n := r.Intn(6)
	if r.Intn(10) == 0 {
		n = r.Intn(40)
	}
	for ; n > 0; n-- {
		b = append(b, nameRest[r.Intn(len(nameRest))])
	}
	return string(b)
}

// bytes a printed terminal may have
func printableByte(r *rand.Rand) byte {
	switch r.Intn(4) {
	case 0:
		return "\t\n\r \"'\\|<>:=-tnr"[r.Intn(16)]
	case 1:
		return letters[r.Intn(len(letters))]
	default:
		return byte(32 + r.Intn(95))
	}
}

func printableTerminal(r *rand.Rand) string {
	n := 1 + r.Intn(3)
	if r.Intn(6) == 0 {
		n = 1 + r.Intn(20)
	}
	b := []byte{}
	for ; n > 0; n-- {
		b = append(b, printableByte(r))
	}
	return string(b)
}

// printableGram makes a grammar that has a text: names and literals fit the
// notation, rules and alternatives have something in them.
func printableGram(r *rand.Rand, maxRules int) Gram {
	g := Gram{}
	nm := []string{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		nm = append(nm, randName(r))
	}
	if r.Intn(4) == 0 {
		nm = lookalikes(r, r.Intn(plainFamilies+1), len(nm))
	}
	for i := 1 + r.Intn(maxRules); i > 0; i-- {
		ru := Rule{Head: nm[r.Intn(len(nm))]}
		for a := 1 + r.Intn(3); a > 0; a-- {
			alt := []Sym{}
			for s := 1 + r.Intn(4); s > 0; s-- {
				switch r.Intn(5) {
				case 0:
					alt = append(alt, E())
				case 1, 2:
					alt = append(alt, N(nm[r.Intn(len(nm))]))
				default:
					alt = append(alt, T(printableTerminal(r)))
				}
			}
			ru.Alts = append(ru.Alts, alt)
		}
		g = append(g, ru)
	}
	return g
}

func asText(g Gram) []TRule {
	res := []TRule{}
	for _, ru := range g {
		t := TRule{Head: toInts([]byte(ru.Head)), Alts: [][]TSym{}}
		for _, alt := range ru.Alts {
			x := []TSym{}
			for _, y := range alt {
				switch y.K {
				case "n":
					x = append(x, TSym{"n", toInts([]byte(y.N))})
				case "t":
					x = append(x, TSym{"t", append([]int{}, y.V...)})
				default:
					x = append(x, TSym{"e", []int{}})
				}
			}
			t.Alts = append(t.Alts, x)
		}
		res = append(res, t)
	}
	return res
}

// render writes a grammar in the notation, with formatting of every kind.
func render(r *rand.Rand, g Gram) string {
	sb := strings.Builder{}
	loose := r.Intn(3)
	sp := func() string {
		switch loose {
		case 0:
			return " "
		case 1:
			return strings.Repeat(" ", r.Intn(3))
		default:
			return ""
		}
	}
	eolStyle := r.Intn(3)
	eol := func() string {
		if eolStyle == 1 || (eolStyle == 2 && r.Intn(2) == 0) {
			return "\r\n"
		}
		return "\n"
	}
	literal := func(v []byte) string {
		q := byte('"')
		if r.Intn(2) == 0 {
			q = '\''
		}
		t := []byte{q}
		for _, b := range v {
			if b == '\'' && q == '\'' {
				// cannot be written between single quotes
				return ""
			}
			switch {
			case b == '\t':
				t = append(t, '\\', 't')
			case b == '\n':
				t = append(t, '\\', 'n')
			case b == '\r':
				t = append(t, '\\', 'r')
			case b == '\\':
				t = append(t, '\\', '\\')
			case b == '"' && (q == '"' || r.Intn(3) == 0):
				t = append(t, '\\', '"')
			default:
				t = append(t, b)
			}
		}
		return string(append(t, q))
	}
	for i, ru := range g {
		if i > 0 {
			sb.WriteString(eol())
			for r.Intn(3) == 0 {
				sb.WriteString(sp() + eol())
			}
		}
		sb.WriteString(sp() + "<" + ru.Head + ">" + sp() + "::=" + sp())
		for a, alt := range ru.Alts {
			if a > 0 {
				sb.WriteString(sp() + "|" + sp())
			}
			for s, y := range alt {
				if s > 0 {
					sb.WriteString(sp())
				}
				switch y.K {
				case "n":
					sb.WriteString("<" + y.N + ">")
				case "e":
					sb.WriteString([]string{`""`, `''`}[r.Intn(2)])
				case "t":
					t := ""
					for t == "" {
						t = literal(toBytes(y.V))
					}
					sb.WriteString(t)
				}
			}
		}
		if r.Intn(3) == 0 {
			sb.WriteString(sp())
		}
	}
	for r.Intn(2) == 0 {
		sb.WriteString(eol() + strings.Repeat(" ", r.Intn(2)))
	}
	return sb.String()
}

const noise = " \t\n\r<>:=|\"'\\abZ9-_\x00\x7f\x80\xff\x1f~"

func mutateText(r *rand.Rand, t string) string {
	b := []byte(t)
	for k := 1 + r.Intn(2); k > 0; k-- {
		nb := noise[r.Intn(len(noise))]
		if r.Intn(3) == 0 {
			nb = byte(r.Intn(256))
		}
		switch r.Intn(6) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			if len(b) > 0 {
				i := r.Intn(len(b))
				b = append(b[:i], b[i+1:]...)
			}
		case 2, 3:
			i := r.Intn(len(b) + 1)
			b = append(b[:i], append([]byte{nb}, b[i:]...)...)
		case 4:
			if len(b) > 0 {
				b[r.Intn(len(b))] = nb
			}
		case 5: // exchange two pieces
			if len(b) > 2 {
				i := 1 + r.Intn(len(b)-1)
				b = append(append([]byte{}, b[i:]...), b[:i]...)
			}
		}
	}
	return string(b)
}

var pieces = []string{"<a>", "<b-1>", "::=", " ", "|", "\"x\"", "'y'", "\"\"", "\n", "\r\n", "\r", "\\n", "\"\\t\"",
	"'\\\"'", "<", ">", "\"", "'", "a", "::= ", "<a> ::= \"x\"", "\n\n", "  ", "\\"}

// textplaces: a text and the places where every byte is tried.
var textPlaces = []struct{ before, after string }{
	{"", "<a> ::= \"x\""},
	{"<", "> ::= \"x\""},
	{"<a", "> ::= \"x\""},
	{"<a>", "::= \"x\""},
	{"<a> ::=", "\"x\""},
	{"<a> ::= \"", "\""},
	{"<a> ::= '", "'"},
	{"<a> ::= \"\\", "\""},
	{"<a> ::= '\\", "'"},
	{"<a> ::= <", ">"},
	{"<a> ::= <a", ">"},
	{"<a> ::= \"x\"", ""},
	{"<a> ::= \"x\"", "'y'"},
	{"<a> ::= \"x\"\r", ""},
	{"<a> ::= \"x\"\n", ""},
	{"<a> ::= \"x\"\n", "<b> ::= 'y'"},
	{"<a> ::= \"", "\\n\""},
	{"<a> ::= 'y", "z' | <b>"},
}

func init() {
	plans["text"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			var t string
			switch i % 8 {
			case 0, 1, 2:
				t = render(r, printableGram(r, 4))
			case 3, 4:
				t = mutateText(r, render(r, printableGram(r, 3)))
			case 5:
				for k := r.Intn(14); k >= 0; k-- {
					t += pieces[r.Intn(len(pieces))]
				}
			case 6:
				p := textPlaces[r.Intn(len(textPlaces))]
				t = p.before + string([]byte{byte(r.Intn(256))}) + p.after
			case 7:
				t = printableText(r, 3)
				if r.Intn(2) == 0 {
					t = mutateText(r, t)
				}
			}
			emit(&Case{Kind: "text", Text: toInts([]byte(t))})
		}
	}
	// every byte in every kind of place; n is ignored, size is the shard
	plans["textbytes"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for _, p := range textPlaces {
			for b := 0; b < 256; b++ {
				if size > 0 && r.Intn(size) > 0 {
					continue
				}
				emit(&Case{Kind: "text", Text: toInts([]byte(p.before + string([]byte{byte(b)}) + p.after))})
			}
		}
	}
	plans["textlong"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			g := Gram{}
			for len(g) < 40+r.Intn(60) {
				g = append(g, printableGram(r, 10)...)
			}
			emit(&Case{Kind: "text", Text: toInts([]byte(render(r, g)))})
		}
	}
	plans["print"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			g := printableGram(r, 3)
			switch i % 4 {
			case 0:
				// one terminal, up to four bytes out of the difficult ones
				b := []byte{}
				for k := 1 + r.Intn(4); k > 0; k-- {
					b = append(b, "\"'\\\t\n\r tnr"[r.Intn(10)])
				}
				g = Gram{{randName(r), [][]Sym{{T(string(b))}}}}
			case 1:
				if i%100 == 1 {
					for len(g) < 40 {
						g = append(g, printableGram(r, 10)...)
					}
				}
			}
			emit(&Case{Kind: "print", G: g, Given: asText(g)})
		}
	}
	// all terminals of one byte, and of two difficult ones
	plans["printbytes"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		one := []byte{9, 10, 13}
		for b := 32; b < 127; b++ {
			one = append(one, byte(b))
		}
		put := func(s string) {
			g := Gram{{"a", [][]Sym{{T(s)}}}}
			emit(&Case{Kind: "print", G: g, Given: asText(g)})
		}
		for _, b := range one {
			put(string([]byte{b}))
		}
		hard := "\"'\\\t\n\r tnra"
		for _, a := range []byte(hard) {
			for _, b := range []byte(hard) {
				put(string([]byte{a, b}))
				for _, c := range []byte(hard) {
					put(string([]byte{a, b, c}))
				}
			}
		}
	}
}

func printableText(r *rand.Rand, k int) string {
	t := ""
	for ; k > 0; k-- {
		t += "<" + randName(r) + "> ::= "
		for s := r.Intn(4); s >= 0; s-- {
			switch r.Intn(4) {
			case 0:
				t += "| "
			case 1:
				t += "<" + randName(r) + "> "
			default:
				q := `"'`[r.Intn(2) : r.Intn(2)+1]
				if q == "" {
					q = `"`
				}
				t += q
				for j := r.Intn(6); j > 0; j-- {
					if r.Intn(4) == 0 {
						t += "\\"
					}
					t += string([]byte{printableByte(r)})
				}
				t += q + " "
			}
		}
		t += []string{"\n", "\r\n", "\n\n"}[r.Intn(3)]
	}
	return t
}
