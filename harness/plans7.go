package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// ---------------------------------------------------------------------------
// Documents for the JSON example.

type jsonGen struct {
	r     *rand.Rand
	b     strings.Builder
	room  int
	style int // 0 compact, 1 some blanks, 2 many blanks and CR LF
}

func (j *jsonGen) ws() {
	switch j.style {
	case 0:
		return
	case 1:
		if j.r.Intn(3) > 0 {
			return
		}
	}
	for k := j.r.Intn(4); k > 0; k-- {
		j.b.WriteString([]string{" ", "\n", "\r\n", "  "}[j.r.Intn(4)])
	}
}

const plain = "|abcxyzABCXYZ0123456789 !#$%&()*+,-./:;>=<?@[]^_`{}~'"

func (j *jsonGen) str() {
	r := j.r
	j.b.WriteByte('"')
	if r.Intn(6) > 0 {
		for k := r.Intn(7); k > 0; k-- {
			switch r.Intn(8) {
			case 0:
				j.b.WriteByte('\\')
				j.b.WriteByte(`"\/bfnrt`[r.Intn(8)])
			case 1:
				j.b.WriteString("\\u")
				for i := 0; i < 4; i++ {
					j.b.WriteByte("0123456789abcdefABCDEF"[r.Intn(22)])
				}
			case 2:
				j.b.WriteByte(byte(32 + r.Intn(95)))
				if s := j.b.String(); s[len(s)-1] == '\\' || s[len(s)-1] == '"' {
					j.b.WriteString([]string{"a", "\\", "\""}[r.Intn(3)])
				}
			default:
				j.b.WriteByte(plain[r.Intn(len(plain))])
			}
		}
	}
	j.b.WriteByte('"')
}

func (j *jsonGen) digits() {
	for k := 1 + j.r.Intn(3); k > 0; k-- {
		j.b.WriteByte(byte('0' + j.r.Intn(10)))
	}
}

func (j *jsonGen) num() {
	r := j.r
	if r.Intn(3) == 0 {
		j.b.WriteByte('-')
	}
	if r.Intn(3) == 0 {
		j.b.WriteByte('0')
	} else {
		j.b.WriteByte(byte('1' + r.Intn(9)))
		if r.Intn(2) == 0 {
			j.digits()
		}
	}
	if r.Intn(3) == 0 {
		j.b.WriteByte('.')
		j.digits()
	}
	if r.Intn(3) == 0 {
		j.b.WriteByte("eE"[r.Intn(2)])
		j.b.WriteString([]string{"", "+", "-"}[r.Intn(3)])
		j.digits()
	}
}

func (j *jsonGen) value(depth int) {
	j.room--
	k := j.r.Intn(9)
	if depth <= 0 || j.room <= 0 {
		k = 4 + j.r.Intn(5)
	}
	switch k {
	case 0, 1, 2:
		j.b.WriteByte('{')
		j.ws()
		for n, i := j.r.Intn(5), 0; i < n; i++ {
			if i > 0 {
				j.b.WriteByte(',')
				j.ws()
			}
			j.str()
			j.ws()
			j.b.WriteByte(':')
			j.ws()
			j.value(depth - 1)
			j.ws()
		}
		j.b.WriteByte('}')
	case 3:
		j.b.WriteByte('[')
		for n, i := j.r.Intn(5), 0; i < n; i++ {
			if i > 0 {
				j.b.WriteByte(',')
			}
			j.ws()
			j.value(depth - 1)
			j.ws()
		}
		j.b.WriteByte(']')
	case 4, 5:
		j.str()
	case 6, 7:
		j.num()
	case 8:
		j.b.WriteString([]string{"true", "false", "null"}[j.r.Intn(3)])
	}
}

func jsonDoc(r *rand.Rand, room int) string {
	j := &jsonGen{r: r, room: room, style: r.Intn(3)}
	j.ws()
	depth := 2 + r.Intn(5)
	switch r.Intn(6) {
	case 0: // straight down
		n := 1 + r.Intn(12)
		ends := ""
		for k := 0; k < n; k++ {
			if r.Intn(3) > 0 {
				j.b.WriteByte('{')
				j.ws()
				j.str()
				j.ws()
				j.b.WriteByte(':')
				ends = "}" + ends
			} else {
				j.b.WriteByte('[')
				ends = "]" + ends
			}
			j.ws()
		}
		j.value(1)
		j.b.WriteString(ends)
	default:
		j.value(depth)
	}
	j.ws()
	return j.b.String()
}

const jsonBytes = "{}[]\",:0123456789.eE+-truefalsn\\/bu \n\r\t\x00\x7f\x80\xff'|aA"

func jsonMutant(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(2); k > 0; k-- {
		at := r.Intn(len(b) + 1)
		x := jsonBytes[r.Intn(len(jsonBytes))]
		switch r.Intn(8) {
		case 0, 1:
			b = append(b[:at:at], append([]byte{x}, b[at:]...)...)
		case 2, 3:
			if at < len(b) {
				b = append(b[:at:at], b[at+1:]...)
			}
		case 4:
			if at < len(b) {
				b[at] = x
			}
		case 5:
			b = b[:at]
		case 6:
			if at+1 < len(b) {
				b[at], b[at+1] = b[at+1], b[at]
			}
		case 7:
			b = append(b, []string{"{}", ",", "]", "}", "x", "\x00", "null", "\n\n", "\""}[r.Intn(9)]...)
		}
	}
	return string(b)
}

func example(mode, text string) *Case {
	return &Case{Kind: "example", Mode: mode, Text: toInts([]byte(text))}
}

func init() {
	plans["json"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			s := jsonDoc(r, 4+r.Intn(20))
			if i%2 == 1 {
				s = jsonMutant(r, s)
			}
			emit(example("json", s))
		}
	}
	// bigger documents
	plans["jsonbig"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			s := ""
			switch i % 4 {
			case 0:
				s = strings.Repeat("[", 150) + strings.Repeat("]", 150)
			case 1:
				s = strings.Repeat(`{"a":`, 100) + "1" + strings.Repeat("}", 100)
			case 2:
				s = `{"long":"` + strings.Repeat("x", 1500) + `"`
				for k := 0; k < 50; k++ {
					s += fmt.Sprintf(`,"k%d": [%d, {"v": %d}]`, k, k, k)
				}
				s += "}"
			case 3:
				for len(s) < 800 {
					s = jsonDoc(r, 200)
				}
				if len(s) > 6000 {
					s = "[" + strings.Repeat(" 10,\r\n", 300) + "1e5]"
				}
			}
			if i%8 > 4 {
				s = jsonMutant(r, s)
			}
			emit(example("json", s))
		}
	}
	// every byte in every kind of place
	plans["jsonbytes"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		emit(example("self", ""))
		frames := [][2]string{
			{"", ""}, {"", "1"}, {"1", ""}, {"-", ""}, {"0", ""}, {"1.", ""}, {"1.5", ""}, {"1e", ""}, {"1e+", "2"}, {"1e1", ""},
			{`"`, `"`}, {`"\`, `"`}, {`"\u`, `000"`}, {`"\u000`, `"`}, {`"\u000`, `0"`}, {`"a"`, ""},
			{"[", "]"}, {"[1", "]"}, {"[1", "2]"}, {"[1,", "]"}, {"[]", ""}, {"[[]", "]"},
			{"{", "}"}, {"{", `"a":1}`}, {`{"a`, `":1}`}, {`{"a"`, "1}"}, {`{"a"`, ":1}"}, {`{"a":`, "}"}, {`{"a":`, "1}"}, {`{"a":1`, "}"},
			{`{"a":1`, `"b":2}`}, {`{"a":1,`, `"b":2}`}, {`{"a":1,"b`, `":{}}`}, {`{"a":{"b":2}`, "}"}, {"{}", ""},
			{"t", "ue"}, {"fals", ""}, {"nul", ""}, {"true", ""}, {"\r", "1"}, {"1\r", ""},
		}
		k := 0
		for _, f := range frames {
			for b := 0; b < 256; b++ {
				if k++; size > 1 && k%size != 0 {
					continue
				}
				emit(example("json", f[0]+string([]byte{byte(b)})+f[1]))
			}
		}
		for _, s := range []string{`"\u123"`, `"\u12"`, `{"\u123":1}`, "", " ", "\n", "\r\n", "\r", "{}{}", "[][]", "1 2", `"a" "b"`, "null,", ",1", "truefalse", "01", "-", "--1", "+1", ".5", "1.", "1e", "0x10", "1_000", "NaN",
			"'a'", `{a:1}`, `{"a":1,}`, `[1,]`, `[,1]`, `{,}`, `[1 2]`, `{"a" 1}`, `{"a"::1}`, `{1:2}`, `{null:1}`, `"`, `"\"`, "\"\t\"", "\"\n\"", "\ufeff1", "{\"a\":1}\x00", "\x00", "//", "[1]//c"} {
			emit(example("json", s))
		}
	}
}
