package ics

import "strings"

// C11: Decode always terminates and never panics. Panics and runs without end are reported by
// the engine for every harness; here the input is arbitrary.

func vTotal(s string) {
	cal, err := Decode(strings.NewReader(s))
	vAssert((cal == nil) == (err != nil), "Decode returns a calendar with an error or neither")
	if err == nil {
		vCover("C11 accepted")
	} else {
		vCover("C11 refused")
	}
}

// H_C11_stream: p0 arbitrary bytes.
func H_C11_stream() {
	vTotal(vString(vParam(0)))
}

// H_C11_behind: p1 arbitrary bytes behind the first lines of a stream and at its end.
func H_C11_behind() {
	s := ""
	switch vParam(0) {
	case 0:
		s = "BEGIN:VCALENDAR\r\n"
	case 1:
		s = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:"
	case 2:
		s = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:X\r\n"
	case 3:
		s = vHead
	case 4:
		s = vHead + "BEGIN:VALARM\r\n"
	case 5:
		s = vHead + "BEGIN:VALARM\r\nACTION:"
	case 6:
		s = vHead + "END:"
	case 7:
		s = vHead + "X;"
	case 8:
		s = vHead + "SUMMARY;LANGUAGE="
	case 9:
		s = vHead + "END:VEVENT\r\nBEGIN:VTIMEZONE\r\n"
	}
	vTotal(s + vString(vParam(1)))
}

// vInto places a line of component kind in a stream that is otherwise complete.
func vInto(s *vSpec, p *vProp, tail string) string {
	return s.wrap(s.complete(p.name) + p.name + tail + "\r\n")
}

// H_C11_value: each property of component kind p0 with p1 arbitrary bytes as its value.
func H_C11_value() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	vTotal(vInto(&s, &p, ":"+vString(vParam(1))))
}

// H_C11_mutate: each property of component kind p0 with p1 arbitrary bytes in place of p2
// bytes of its sample line, at any position.
func H_C11_mutate() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	i := vChoice(len(p.tail) + 1)
	j := i + vParam(2)
	vAssume(j <= len(p.tail))
	vTotal(vInto(&s, &p, p.tail[:i]+vString(vParam(1))+p.tail[j:]))
}

// H_C11_cut: each property of component kind p0 with p1 arbitrary bytes in place of the rest
// of its sample line.
func H_C11_cut() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	i := vChoice(len(p.tail) + 1)
	vTotal(vInto(&s, &p, p.tail[:i]+vString(vParam(1))))
}

var vParamNames = [...]string{"ALTREP", "CN", "CUTYPE", "DELEGATED-FROM", "DELEGATED-TO", "DIR", "ENCODING", "FMTTYPE", "FBTYPE", "LANGUAGE", "MEMBER", "PARTSTAT", "RANGE", "RELATED", "RELTYPE", "ROLE", "RSVP", "SENT-BY", "TZID", "VALUE", "URI", "ID", "AGENT-ID", "X"}

// vParamForm returns p1 arbitrary bytes as one or two parameter values.
func vParamForm(form, n int) string {
	switch form {
	case 1:
		return "\"" + vString(n) + "\""
	case 2:
		return vString(n) + ",b"
	case 3:
		return "\"a\",\"" + vString(n) + "\""
	}
	return vString(n)
}

// H_C11_param: each property of component kind p0 with each parameter holding p1 arbitrary
// bytes; p2 is the form of the parameter values.
func H_C11_param() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	n := vParamNames[vChoice(len(vParamNames))]
	f := vParamForm(vParam(2), vParam(1))
	vTotal(vInto(&s, &p, ";"+n+"="+f+p.tail))
}

var vValueTypes = [...]string{"BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET"}

// H_C11_type: each property of component kind p0 with each VALUE type and p1 arbitrary bytes.
func H_C11_type() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	v := vValueTypes[vChoice(len(vValueTypes))]
	t := ""
	if vFork(vBool()) {
		t = ";TZID=America/New_York"
	}
	vTotal(vInto(&s, &p, t+";VALUE="+v+":"+vString(vParam(1))))
}
