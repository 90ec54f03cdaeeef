package main

import (
	"bufio"
	"bytes"
	"io"
	"os"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

// Readers that can do more than read. What else they can do is no part of
// being a reader and may have any meaning.

// Len tells something, such as the number of lines.
type lenReader struct {
	*scripted
	n int
}

func (l lenReader) Len() int    { return l.n }
func (l lenReader) Size() int64 { return int64(l.n) }

type textReader struct{ *scripted }

func (textReader) String() string { return "a reader" }
func (textReader) Bytes() []byte  { return []byte("a reader") }
func (textReader) Error() string  { return "a reader" }

// writerTo writes what it reads, as bufio.Reader does.
type writerTo struct{ *scripted }

func (w writerTo) WriteTo(to io.Writer) (int64, error) {
	var all int64
	buf := make([]byte, 100)
	for {
		n, err := w.Read(buf)
		m, werr := to.Write(buf[:n])
		all += int64(m)
		if err == io.EOF {
			return all, nil
		}
		if err == nil {
			err = werr
		}
		if err != nil {
			return all, err
		}
	}
}

// closer notices being closed: the parser has no business doing so.
type closer struct{ *scripted }

func (c closer) Close() error {
	c.err = os.ErrClosed
	return os.ErrClosed
}

// seeker can go back to where it was opened, which is before what is left.
type seeker struct{ *scripted }

func (s seeker) Seek(off int64, whence int) (int64, error) { return 0, os.ErrInvalid }
func (s seeker) ReadAt(p []byte, off int64) (int, error) {
	n := copy(p, "something else")
	return n, io.EOF
}

type byteReader struct{ *scripted }

func (b byteReader) ReadByte() (byte, error) { return 0, io.EOF }
func (b byteReader) ReadRune() (rune, int, error) {
	return 0, 0, io.EOF
}
func (b byteReader) ReadString(byte) (string, error) { return "", io.EOF }

var dresses = []string{"", "len0", "len1", "len-half", "len-more", "text", "writerto", "closer", "seeker", "bytes", "bufio", "limited", "tee", "struct"}

func (s *scripted) dressed(how string, n int) io.Reader {
	switch how {
	case "len0":
		return lenReader{s, 0}
	case "len1":
		return lenReader{s, 1}
	case "len-half":
		return lenReader{s, n / 2}
	case "len-more":
		return lenReader{s, n + 10}
	case "text":
		return textReader{s}
	case "writerto":
		return writerTo{s}
	case "closer":
		return closer{s}
	case "seeker":
		return seeker{s}
	case "bytes":
		return byteReader{s}
	case "bufio":
		return bufio.NewReaderSize(s, 16)
	case "limited":
		return io.LimitReader(s, int64(n)+1000)
	case "tee":
		return io.TeeReader(s, io.Discard)
	case "struct":
		return struct{ io.Reader }{s}
	}
	return s
}

var lastFile *os.File

// usedReader gives readers of which a part was read before.
func usedReader(form string, src []byte) (any, bool) {
	whole := append([]byte("##"), src...)
	var r io.Reader
	switch form {
	case "usedstringsreader":
		r = strings.NewReader(string(whole))
	case "usedbytesreader":
		r = bytes.NewReader(whole)
	case "usedbufio":
		r = bufio.NewReaderSize(bytes.NewReader(whole), 16)
	case "usedsection":
		r = io.NewSectionReader(bytes.NewReader(append(whole, "more"...)), 0, int64(len(whole)))
	case "usedfile":
		f, err := os.CreateTemp("", "source")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		if lastFile != nil {
			lastFile.Close()
		}
		lastFile = f
		f.Write(whole)
		f.Seek(0, 0)
		r = f
	default:
		return nil, false
	}
	io.ReadFull(r, make([]byte, 2))
	return r, true
}

// notSources have something to do with text but are no sources.
func notSource(form string, src []byte) (any, bool) {
	switch form {
	case "builder":
		b := &strings.Builder{}
		b.Write(src)
		return b, true
	case "namedstring":
		return namedString(src), true
	case "grammar":
		return bnf.SelfGrammar(), true
	case "symbol":
		return bnf.SymbolTerminal{Name: string(src)}, true
	case "strings":
		return []string{string(src)}, true
	case "onlywriterto":
		return onlyWriterTo(src), true
	case "onlybytes":
		return onlyBytes(src), true
	case "byte":
		return byte('a'), true
	case "rune":
		return 'a', true
	case "chan":
		c := make(chan byte, len(src))
		for _, b := range src {
			c <- b
		}
		close(c)
		return c, true
	case "preader":
		var r io.Reader = bytes.NewReader(src)
		return &r, true
	case "buffers":
		return []*bytes.Buffer{bytes.NewBuffer(src)}, true
	case "readfunc":
		return bytes.NewReader(src).Read, true
	case "marshaler":
		return marshaler(src), true
	}
	return nil, false
}

type namedString string
type onlyWriterTo []byte

func (o onlyWriterTo) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(o)
	return int64(n), err
}

type onlyBytes []byte

func (o onlyBytes) Bytes() []byte                { return o }
func (o onlyBytes) ReadByte() (byte, error)      { return 'a', nil }
func (o onlyBytes) Len() int                     { return len(o) }
func (o onlyBytes) GoString() string             { return string(o) }
func (o onlyBytes) MarshalText() ([]byte, error) { return o, nil }

type marshaler []byte

func (m marshaler) MarshalText() ([]byte, error)   { return m, nil }
func (m marshaler) MarshalBinary() ([]byte, error) { return m, nil }
func (m marshaler) MarshalJSON() ([]byte, error)   { return m, nil }
