package ics

import (
	"bytes"
	"strings"
)

// C18: what Decode returns can be encoded and read again.

func vAgain(s string) {
	cal, err := Decode(strings.NewReader(s))
	if err != nil {
		vCover("C18 refused")
		return
	}
	var b bytes.Buffer
	vAssert(Encode(&b, cal) == nil, "Encode refuses a decoded calendar")
	again, err := Decode(strings.NewReader(b.String()))
	vAssert(err == nil, "the encoding of a decoded calendar is refused")
	vAssert(vSame(again, cal), "decoded calendar changed by encoding it")
	vCover("C18 encoded again")
}

// vSame compares two calendars, which it may change: URIs by what they are written as, and an
// empty parameter is the same as none.
func vSame(a, b *Calendar) bool {
	vTidy(a)
	vTidy(b)
	us, ws := vURLs(a), vURLs(b)
	if len(us) != len(ws) {
		return false
	}
	for i := range us {
		if !vFork(us[i].String() == ws[i].String()) {
			return false
		}
		*us[i] = *ws[i]
	}
	return vEqual(a, b)
}

// vUBytes returns n arbitrary bytes of UTF-8.
func vUBytes(n int) string {
	s := vString(n)
	vAssume(vUTF8(s))
	return s
}

// H_C18_value: each property of component kind p0 with p1 arbitrary bytes as its value.
func H_C18_value() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	vAgain(vInto(&s, &p, ":"+vUBytes(vParam(1))))
}

// H_C18_mutate: each property of component kind p0 with p1 arbitrary bytes in place of p2
// bytes of its sample line, at any position.
func H_C18_mutate() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	i := vChoice(len(p.tail) + 1)
	j := i + vParam(2)
	vAssume(j <= len(p.tail))
	tail := p.tail[:i] + vUBytes(vParam(1)) + p.tail[j:]
	vAgain(vInto(&s, &p, tail))
}

// H_C18_cut: each property of component kind p0 with p1 arbitrary bytes in place of the rest
// of its sample line.
func H_C18_cut() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	i := vChoice(len(p.tail) + 1)
	tail := p.tail[:i] + vUBytes(vParam(1))
	vAgain(vInto(&s, &p, tail))
}

// H_C18_param: each property of component kind p0 with each parameter holding p1 arbitrary
// bytes; p2 is the form of the parameter values.
func H_C18_param() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	n := vParamNames[vChoice(len(vParamNames))]
	f := vParamForm(vParam(2), vParam(1))
	vAssume(vUTF8(f))
	tail := ";" + n + "=" + f + p.tail
	vAgain(vInto(&s, &p, tail))
}

// H_C18_type: each property of component kind p0 with each VALUE type and p1 arbitrary bytes.
func H_C18_type() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	v := vValueTypes[vChoice(len(vValueTypes))]
	t := ""
	if vFork(vBool()) {
		t = ";TZID=America/New_York"
	}
	vAgain(vInto(&s, &p, t+";VALUE="+v+":"+vUBytes(vParam(1))))
}

// H_C18_forms: as H_C18_mutate, with every form in which the value may be written.
func H_C18_forms() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	forms := vForms(p.gen)
	if len(forms) == 0 {
		return
	}
	f := forms[vChoice(len(forms))]
	i := vChoice(len(f[1]) + 1)
	j := i + vParam(2)
	vAssume(j <= len(f[1]))
	vAgain(vInto(&s, &p, f[0]+f[1][:i]+vUBytes(vParam(1))+f[1][j:]))
}

// H_C18_select: component kind p0 with p1 properties in any order and repetition in front of or
// behind the required ones.
func H_C18_select() {
	s := vSpecOf(vParam(0))
	l := &vLines{s: &s, count: make([]int, len(s.props))}
	front := vFork(vBool())
	for i := 0; i < 2; i++ {
		if front == (i == 0) {
			for j := 0; j < vParam(1); j++ {
				l.add(vChoice(len(s.props)))
			}
		} else {
			for k, p := range s.props {
				if p.req && l.count[k] == 0 {
					l.add(k)
				}
			}
		}
	}
	l.part()
	vAgain(s.wrap(l.text))
}

// H_C18_line: an arbitrary line of p1 bytes at any place of a stream with component kind p0.
func H_C18_line() {
	text, starts := vStream(vParam(0))
	i := starts[vChoice(len(starts))]
	vAgain(text[:i] + vUBytes(vParam(1)) + "\r\n" + text[i:])
}
