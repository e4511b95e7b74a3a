package ics

import "strings"

// C09: output lines are folded at 75 octets without damaging content.

// vFolded checks the physical lines of out and returns the unfolded content lines.
func vFolded(out string) []string {
	vAssert(strings.HasSuffix(out, "\r\n"), "output does not end with a line break")
	var lines []string
	for len(out) > 0 {
		n := strings.Index(out, "\r\n")
		vAssert(n >= 0, "line break missing")
		l := out[:n]
		out = out[n+2:]
		vAssert(len(l) <= 75, "line longer than 75 octets")
		vAssert(len(l) > 0, "empty line")
		if l[0] == ' ' {
			vAssert(len(l) > 1 && len(lines) > 0, "fold without content")
			prev := lines[len(lines)-1]
			if vFork(l[1] >= 0x80 && l[1] <= 0xBF) {
				vAssert(!vAcross(prev, l[1:]), "fold inside a character")
			}
			lines[len(lines)-1] = prev + l[1:]
		} else {
			lines = append(lines, l)
		}
	}
	return lines
}

// vAcross tells whether a character starts in a and ends in b, b starting with a continuation byte.
func vAcross(a, b string) bool {
	for i := 1; i <= 3 && i <= len(a); i++ {
		for j := 1; i+j <= 4 && j <= len(b); j++ {
			c := a[len(a)-i:] + b[:j]
			if c[0] >= 0xC2 && vUTF8(c) {
				return true
			}
		}
	}
	return false
}

func vHasLine(lines []string, l string) bool {
	for _, k := range lines {
		if len(k) == len(l) && vFork(k == l) {
			return true
		}
	}
	return false
}

// vEscaped writes text as RFC 5545 prescribes.
func vEscaped(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case vFork(c == '\n'):
			b = append(b, '\\', 'n')
		case vFork(c == '\\' || c == ',' || c == ';'):
			b = append(b, '\\', c)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

// H_C09_text: p0 letters, p1 arbitrary bytes and p2 letters in one text, followed by another.
func H_C09_text() {
	vReset()
	s := vText(vParam(1))
	t := strings.Repeat("a", vParam(0)) + s + strings.Repeat("b", vParam(2))
	cal := vCal()
	e := vEvent()
	e.Summary = &PropSummary{Text: Text(t)}
	e.URL = &PropURL{}
	e.URL.Path = strings.Repeat("c", 80)
	cal.Event = []Event{e}
	out := vEncode(cal)
	lines := vFolded(out)
	vAssert(vHasLine(lines, "SUMMARY:"+strings.Repeat("a", vParam(0))+vEscaped(s)+strings.Repeat("b", vParam(2))), "folding damages the text")
	vAssert(vHasLine(lines, "URL:"+e.URL.Path), "folding damages the following line")
	got := vDecode(out)
	vAssert(vEqual(got, cal), "calendar changed by encoding and decoding")
	vCover("C09 text")
}

// H_C09_pieces: a line of several parts: parameters, a list and their separators, around the
// fold position.
func H_C09_pieces() {
	vReset()
	cal := vCal()
	e := vEvent()
	switch vParam(0) {
	case 0:
		a := vAttendee(0, strings.Repeat("n", vParam(1))+vText(vParam(2)))
		a.Language = NewLanguage("en")
		e.Attendee = []PropAttendee{a}
	case 1:
		e.Categories = []PropCategories{{MText: MText{Text(strings.Repeat("n", vParam(1))), Text(vText(vParam(2))), "x", Text(strings.Repeat("m", 70))}}}
	case 2:
		b := Binary(vString(vParam(1)))
		e.Attachment = []PropAttachment{{Binary: &b}}
	case 3:
		e.Comment = []PropComment{{Text: Text(strings.Repeat("n", vParam(1)))}, {Text: Text(vText(vParam(2)) + strings.Repeat("m", vParam(1)))}}
	}
	cal.Event = []Event{e}
	out := vEncode(cal)
	vFolded(out)
	got := vDecode(out)
	vAssert(vEqual(got, cal), "calendar changed by encoding and decoding")
	vCover("C09 pieces")
}
