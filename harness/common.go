package ics

import (
	"bytes"
	"io"
	"strings"
	"time"
)

// vString returns a string of n unconstrained bytes.
func vString(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vByte()
	}
	return string(b)
}

// vText returns a string of n bytes that is valid UTF-8 and has no control characters other
// than tab and newline (the others cannot be written in a calendar stream).
func vText(n int) string {
	s := vString(n)
	for i := 0; i < n; i++ {
		vAssume(!vControl(s[i]) || s[i] == '\n')
	}
	vAssume(vUTF8(s))
	return s
}

// vControl reports whether c may not appear inside a content line.
func vControl(c byte) bool { return c < 0x20 && c != '\t' || c == 0x7F }

// vUTF8 reports whether s is valid UTF-8 (written without the library so that it is an
// independent statement of the domain).
func vUTF8(s string) bool {
	for i := 0; i < len(s); {
		c := s[i]
		n := 0
		lo, hi := byte(0x80), byte(0xBF)
		switch {
		case c < 0x80:
			i++
			continue
		case c < 0xC2:
			return false
		case c < 0xE0:
			n = 1
		case c < 0xF0:
			n = 2
			if c == 0xE0 {
				lo = 0xA0
			} else if c == 0xED {
				hi = 0x9F
			}
		case c < 0xF5:
			n = 3
			if c == 0xF0 {
				lo = 0x90
			} else if c == 0xF4 {
				hi = 0x8F
			}
		default:
			return false
		}
		if i+n >= len(s) {
			return false
		}
		for j := 1; j <= n; j++ {
			if s[i+j] < lo || s[i+j] > hi {
				return false
			}
			lo, hi = 0x80, 0xBF
		}
		i += n + 1
	}
	return true
}

func vCal() *Calendar {
	return &Calendar{Version: "2.0", ProductID: "p"}
}

func vStamp() time.Time { return time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC) }

func vEvent() Event {
	return Event{
		DateTimeStamp: PropDateTimeStamp{Time: vStamp()},
		UID:           "u",
		DateTimeStart: &PropDateTimeStart{DateTime: &DateTime{Time: vStamp()}},
	}
}

// vEncode encodes cal; it must be accepted.
func vEncode(cal *Calendar) string {
	var b bytes.Buffer
	err := Encode(&b, cal)
	vAssert(err == nil, "Encode refuses a valid calendar")
	return b.String()
}

// vDecode decodes text; it must be accepted.
func vDecode(s string) *Calendar {
	cal, err := Decode(strings.NewReader(s))
	vAssert(err == nil, "Decode refuses a valid stream")
	vAssert(cal != nil, "Decode returns no calendar")
	return cal
}

var _ io.Reader
