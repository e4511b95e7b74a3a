package ics

import (
	"bytes"
	"strings"
)

// C03: text values come back unchanged.

func H_C03_text() {
	n := vParam(0)
	s := vText(n)
	cal := vCal()
	e := vEvent()
	e.Summary = &PropSummary{Text: Text(s)}
	cal.Event = []Event{e}
	out := vEncode(cal)
	vObserve("out", out)
	got := vDecode(out)
	vAssert(len(got.Event) == 1, "event lost")
	vAssert(got.Event[0].Summary != nil, "summary lost")
	vAssert(string(got.Event[0].Summary.Text) == s, "text changed")
	vCover("C03 text round trip")
}

// H_C03_hosts: p1 arbitrary bytes in each text of every property of component kind p0.
func H_C03_hosts() {
	kind, n := vParam(0), vParam(1)
	cal := vHost(kind, vField(kind), func() { vTextMode = n })
	vRound(cal)
	vCover("C03 every text property")
}

// H_C03_list: a list of texts of the given lengths.
func H_C03_list() {
	var m MText
	for i := 0; vParam(i) >= 0; i++ {
		m = append(m, Text(vText(vParam(i))))
	}
	cal := vCal()
	e := vEvent()
	if vFork(vBool()) {
		e.Categories = []PropCategories{{MText: m}}
	} else {
		e.Resources = []PropResources{{MText: m}}
	}
	cal.Event = []Event{e}
	if len(m) == 0 {
		// either refused or kept as a list without values
		var b bytes.Buffer
		if Encode(&b, cal) != nil {
			vCover("C03 empty list refused")
			return
		}
	}
	vRound(cal)
	vCover("C03 text list")
}

// vUnescape reads encoded text up to an unescaped comma or semicolon.
func vUnescape(s string) (string, string) {
	var d []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if vFork(c == ',' || c == ';') {
			return string(d), s[i:]
		}
		if vFork(c == '\\' && i+1 < len(s)) {
			i++
			switch {
			case vFork(s[i] == 'n' || s[i] == 'N'):
				d = append(d, '\n')
			case vFork(s[i] == '\\' || s[i] == ';' || s[i] == ','):
				d = append(d, s[i])
			default:
				d = append(d, c, s[i])
			}
			continue
		}
		d = append(d, c)
	}
	return string(d), ""
}

// vLine returns a stream holding one event with the given additional line.
func vLine(line string) string {
	return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200203T040506Z\r\n" + line + "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"
}

func vDecodeLine(line string) (*Event, error) {
	cal, err := Decode(strings.NewReader(vLine(line)))
	vAssert((cal == nil) == (err != nil), "Decode returns a calendar with an error or neither")
	if err != nil {
		return nil, err
	}
	vAssert(len(cal.Event) == 1, "event lost or added")
	return &cal.Event[0], nil
}

// vRaw returns n bytes that may stand in a content line value.
func vRaw(n int) string {
	s := vString(n)
	for i := 0; i < n; i++ {
		vAssume(!vControl(s[i]))
	}
	vAssume(vUTF8(s))
	return s
}

// H_C03_decode: every encoded text of p0 bytes is read as the RFC says.
func H_C03_decode() {
	s := vRaw(vParam(0))
	want, rest := vUnescape(s)
	e, err := vDecodeLine("SUMMARY:" + s)
	if rest != "" {
		vAssert(err != nil, "unescaped separator accepted in a single text")
		vCover("C03 separator rejected")
		return
	}
	vAssert(err == nil, "text rejected")
	vAssert(e.Summary != nil, "text lost")
	vAssert(string(e.Summary.Text) == want, "text read wrongly")
	vCover("C03 text read")
}

// H_C03_mdecode: the same for lists.
func H_C03_mdecode() {
	s := vRaw(vParam(0))
	var want []string
	ok := true
	for rest := s; ; {
		var t string
		t, rest = vUnescape(rest)
		want = append(want, t)
		if rest == "" {
			break
		}
		if rest[0] == ';' {
			ok = false
			break
		}
		rest = rest[1:]
		if rest == "" {
			want = append(want, "")
			break
		}
	}
	e, err := vDecodeLine("CATEGORIES:" + s)
	if !ok {
		vAssert(err != nil, "unescaped semicolon accepted in a text list")
		vCover("C03 list separator rejected")
		return
	}
	vAssert(err == nil, "text list rejected")
	vAssert(len(e.Categories) == 1, "list lost")
	got := e.Categories[0].MText
	vAssert(len(got) == len(want), "number of texts")
	for i := range want {
		vAssert(string(got[i]) == want[i], "text of a list read wrongly")
	}
	vCover("C03 text list read")
}
