package ics

import (
	"net/url"
	"strings"
)

// C08: binary attachments and URIs survive unchanged.

// H_C08_binary: an attachment of p0 arbitrary bytes.
func H_C08_binary() {
	vReset()
	n := vParam(0)
	b := Binary(vString(n))
	if n == 0 {
		b = Binary{}
	}
	cal := vCal()
	e := vEvent()
	p := PropAttachment{Binary: &b}
	if vFork(vBool()) {
		f := ParamFormatType("a/" + vWord())
		p.FormatType = &f
	}
	e.Attachment = []PropAttachment{p}
	cal.Event = []Event{e}
	out := vEncode(cal)
	got := vDecode(out)
	vAssert(len(got.Event) == 1 && len(got.Event[0].Attachment) == 1, "attachment lost")
	q := got.Event[0].Attachment[0]
	vAssert(q.URI == nil && q.Binary != nil && string(*q.Binary) == string(b), "attachment changed")
	vAssert((q.FormatType == nil) == (p.FormatType == nil) && (q.FormatType == nil || *q.FormatType == *p.FormatType), "format type changed")
	line := vOutLine(out, "ATTACH")
	head, _, _ := strings.Cut(line, ":")
	vAssert(strings.Contains(head, ";VALUE=BINARY") && strings.Contains(head, ";ENCODING=BASE64"), "attachment not labelled as base64 binary data")
	vCover("C08 binary")
}

var vURIForms = [...][2]string{{"", ""}, {"a:", ""}, {"a://", ""}, {"a://h/", ""}, {"a:b?", ""}, {"//h", ""}, {"a://h:", "/p"}, {"a://u@", "/"}, {"a:/p#", ""}, {"mailto:", "@h"}}

// vSymURI returns the URI parsed from form p0 with p1 arbitrary bytes in it.
func vSymURI() *url.URL {
	f := vURIForms[vParam(0)]
	u, err := url.Parse(f[0] + vRaw(vParam(1)) + f[1])
	vAssume(err == nil)
	return u
}

func vSameURI(u, v url.URL) bool { return u.String() == v.String() }

// H_C08_uri: the URI as the value of a URI or calendar address property.
func H_C08_uri() {
	vReset()
	u := vSymURI()
	cal := vCal()
	e := vEvent()
	switch vChoice(3) {
	case 0:
		p := PropURL(URI{*u})
		e.URL = &p
	case 1:
		e.Attachment = []PropAttachment{{URI: &URI{*u}}}
	case 2:
		e.Attendee = []PropAttendee{{CalendarAddress: CalendarAddress{*u}}}
	}
	cal.Event = []Event{e}
	got := vDecode(vEncode(cal))
	vAssert(len(got.Event) == 1, "event lost")
	g := got.Event[0]
	switch {
	case e.URL != nil:
		vAssert(g.URL != nil && vSameURI(g.URL.URL, *u), "URI changed")
	case e.Attachment != nil:
		vAssert(len(g.Attachment) == 1 && g.Attachment[0].URI != nil && g.Attachment[0].Binary == nil && vSameURI(g.Attachment[0].URI.URL, *u), "URI changed")
	default:
		vAssert(len(g.Attendee) == 1 && vSameURI(g.Attendee[0].URL, *u), "calendar address changed")
	}
	vCover("C08 URI value")
}

// H_C08_param: the URI as a parameter.
func H_C08_param() {
	vReset()
	u := vSymURI()
	cal := vCal()
	e := vEvent()
	p := ParamAlternativeRepresentation(URI{*u})
	s := PropSummary{Text: "s", AlternativeRepresentation: &p}
	e.Summary = &s
	cal.Event = []Event{e}
	got := vDecode(vEncode(cal))
	vAssert(len(got.Event) == 1 && got.Event[0].Summary != nil && got.Event[0].Summary.Text == "s", "summary changed")
	q := got.Event[0].Summary.AlternativeRepresentation
	if u.String() == "" && q == nil {
		return // an empty parameter is not written
	}
	vAssert(q != nil && vSameURI(q.URL, *u), "URI parameter changed")
	vCover("C08 URI parameter")
}
