package main

import (
	"encoding/json"
	"fmt"
	"unicode/utf16"
	"unicode/utf8"
)

// marshal writes JSON in ASCII: TLC reads files in the encoding of the
// platform, and two letters outside of it would be the same one.
func marshal(v any) ([]byte, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	i := 0
	for i < len(b) && b[i] < utf8.RuneSelf {
		i++
	}
	if i == len(b) {
		return b, nil
	}
	res := make([]byte, 0, len(b)+64)
	for _, c := range string(b) {
		switch {
		case c < utf8.RuneSelf:
			res = append(res, byte(c))
		case c > 0xffff:
			x, y := utf16.EncodeRune(c)
			res = fmt.Appendf(res, "\\u%04x\\u%04x", x, y)
		default:
			res = fmt.Appendf(res, "\\u%04x", c)
		}
	}
	return res, nil
}
