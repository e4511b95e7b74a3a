package ics

import (
	"bytes"
	"net/url"
)

// C12: encoded output is always well-formed content lines; data cannot inject lines.

// A reader of the RFC 5545 content line grammar, independent of the package.

type vContent struct {
	name   string
	params []string // names, with one comma for each further value
	vals   [][]vPValue
	value  string
}

type vPValue struct {
	text   string
	quoted bool
}

func vNameByte(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '-'
}

// vReadLine splits a content line; ok is false when it does not match the grammar.
func vReadLine(l string) (c vContent, ok bool) {
	i := 0
	for i < len(l) && vFork(vNameByte(l[i])) {
		i++
	}
	if i == 0 || i == len(l) {
		return c, false
	}
	c.name = l[:i]
	for i < len(l) && vFork(l[i] == ';') {
		i++
		j := i
		for i < len(l) && vFork(vNameByte(l[i])) {
			i++
		}
		if i == j || i == len(l) || vFork(l[i] != '=') {
			return c, false
		}
		p := l[j:i]
		var vals []vPValue
		for {
			i++
			k, q := i, false
			if i < len(l) && vFork(l[i] == '"') {
				i++
				for i < len(l) && vFork(l[i] != '"' && !vControl(l[i])) {
					i++
				}
				if i == len(l) || vFork(l[i] != '"') {
					return c, false
				}
				vals = append(vals, vPValue{l[k+1 : i], true})
				i++
				q = true
			} else {
				for i < len(l) && vFork(l[i] != '"' && l[i] != ';' && l[i] != ':' && l[i] != ',' && !vControl(l[i])) {
					i++
				}
			}
			if !q {
				vals = append(vals, vPValue{l[k:i], false})
			}
			if i == len(l) || vFork(l[i] != ',') {
				break
			}
			p += ","
		}
		c.params = append(c.params, p)
		c.vals = append(c.vals, vals)
	}
	if i == len(l) || vFork(l[i] != ':') {
		return c, false
	}
	c.value = l[i+1:]
	for k := 0; k < len(c.value); k++ {
		if vFork(vControl(c.value[k])) {
			return c, false
		}
	}
	return c, true
}

// vWellFormed reads a whole stream; lines are folded, components nested.
func vWellFormed(out string) []vContent {
	var cs []vContent
	var open []string
	for i, l := range vFolded(out) {
		c, ok := vReadLine(l)
		vAssert(ok, "output line is not a content line")
		switch c.name {
		case "BEGIN":
			vAssert(len(c.params) == 0, "BEGIN with parameters")
			open = append(open, c.value)
		case "END":
			vAssert(len(open) > 0 && vFork(open[len(open)-1] == c.value), "END does not match BEGIN")
			open = open[:len(open)-1]
		}
		vAssert((i == 0) == (len(cs) == 0), "lines")
		cs = append(cs, c)
	}
	vAssert(len(open) == 0, "component not closed")
	return cs
}

// vSameLines compares everything but the values of properties.
func vSameLines(a, b []vContent) {
	vAssert(len(a) == len(b), "data changed the number of lines")
	for i := range a {
		vAssert(a[i].name == b[i].name, "data changed a property name")
		vAssert(len(a[i].params) == len(b[i].params), "data changed the parameters")
		for j := range a[i].params {
			vAssert(a[i].params[j] == b[i].params[j], "data changed a parameter name or the number of its values")
		}
		if a[i].name == "BEGIN" || a[i].name == "END" {
			vAssert(a[i].value == b[i].value, "data changed the components")
		}
	}
}

// vInject encodes cal, which has arbitrary data, and compares it with a plain calendar of the
// same form.
func vInject(cal, plain *Calendar) {
	var b bytes.Buffer
	if err := Encode(&b, cal); err != nil {
		vAssert(b.Len() == 0, "refused calendar partly written")
		vCover("C12 refused")
		return
	}
	vSameLines(vWellFormed(b.String()), vWellFormed(vEncode(plain)))
	vCover("C12 written")
}

// vRawHost returns the calendar with the at-th string of the field arbitrary.
func vRawHost(kind, field, n, at, way int) *Calendar {
	vRawDone = false
	cal := vHost(kind, field, func() { vAll, vRawLen, vRawAt, vZoneRaw, vURIWay = true, n, at, true, way })
	vAssume(vRawDone)
	return cal
}

// H_C12_hosts: p1 arbitrary bytes as each string of every property of component kind p0, all
// parameters being present.
func H_C12_hosts() {
	kind, n := vParam(0), vParam(1)
	field := vField(kind)
	at, way := vChoice(12), vChoice(2)
	vInject(vRawHost(kind, field, n, at, way), vRawHost(kind, field, -1, at, way))
}

// H_C12_calendar: the texts of the calendar itself.
func H_C12_calendar() {
	cal, plain := vCal(), vCal()
	s := vString(vParam(0))
	if vFork(vBool()) {
		cal.ProductID = PropProductID(s)
	} else {
		cal.Version = PropVersion(s)
	}
	e := vEvent()
	cal.Event, plain.Event = []Event{e}, []Event{e}
	vInject(cal, plain)
}

// vURLWith returns a URL with s in its which-th field.
func vURLWith(which int, s string) url.URL {
	u := url.URL{Scheme: "http", Host: "h", Path: "/p"}
	switch which {
	case 0:
		u.Scheme = s
	case 1:
		u = url.URL{Scheme: "cid", Opaque: s}
	case 2:
		u.Host = s
	case 3:
		u.Path = s
	case 4:
		u.Path, u.RawPath = "/"+s, "/"+s
	case 5:
		u.RawQuery = s
	case 6:
		u.Fragment = s
	case 7:
		u.Fragment, u.RawFragment = s, s
	case 8:
		u.User = url.User(s)
	case 9:
		u.User = url.UserPassword("u", s)
	case 10:
		u = url.URL{Path: s}
	case 11:
		u = url.URL{Host: s}
	}
	return u
}

// H_C12_url: p1 arbitrary bytes in the p0-th field of a URL, as a property, an address and
// parameters.
func H_C12_url() {
	cal, plain := vCal(), vCal()
	u := vURLWith(vParam(0), vString(vParam(1)))
	w := url.URL{Scheme: "cid", Opaque: "x"}
	host := vChoice(5)
	for i, c := range []*Calendar{cal, plain} {
		e := vEvent()
		if i == 1 {
			u = w
		}
		switch host {
		case 0:
			e.URL = &PropURL{URL: u}
		case 1:
			e.Organizer = &PropOrganizer{CalendarAddress: CalendarAddress{URL: u}}
		case 2:
			p := ParamAlternativeRepresentation(URI{URL: u})
			e.Summary = &PropSummary{AlternativeRepresentation: &p, Text: "t"}
		case 3:
			e.Attendee = []PropAttendee{{Delagatee: ParamDelagatee{{URL: w}, {URL: u}}, CalendarAddress: CalendarAddress{URL: w}}}
		case 4:
			e.Attachment = []PropAttachment{{URI: &URI{URL: u}}}
		}
		c.Event = []Event{e}
	}
	vInject(cal, plain)
}
