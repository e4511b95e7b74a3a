package ics

// C04: parameter values survive quoting and RFC 6868 escaping.

// vAttendee returns an attendee whose which-th string parameter is s.
func vAttendee(which int, s string) (p PropAttendee) {
	p.CalendarAddress.Scheme, p.CalendarAddress.Opaque = "mailto", "a"
	switch which {
	case 0:
		p.CommonName = NewCommonName(ParamCommonName(s))
	case 1:
		p.DirectoryEntry = NewDirectoryEntry(ParamDirectoryEntry(s))
	case 2:
		p.SentBy = NewSentBy(ParamSentBy(s))
	case 3:
		p.Language = NewLanguage(ParamLanguage(s))
	case 4:
		p.Member = ParamMember{s}
	}
	return
}

// H_C04_param: parameter p0 of p1 arbitrary bytes, alone.
func H_C04_param() {
	cal := vCal()
	e := vEvent()
	e.Attendee = []PropAttendee{vAttendee(vParam(0), vText(vParam(1)))}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C04 parameter round trip")
}

// H_C04_pair: two string parameters and a list of two on one line.
func H_C04_pair() {
	cal := vCal()
	e := vEvent()
	a := vAttendee(0, vText(vParam(0)))
	a.Language = NewLanguage(ParamLanguage(vText(vParam(1))))
	a.Member = ParamMember{vText(vParam(2)), vText(vParam(3))}
	e.Attendee = []PropAttendee{a}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C04 several parameters")
}

// H_C04_hosts: p1 arbitrary bytes in each string parameter of every property of kind p0.
func H_C04_hosts() {
	kind, n := vParam(0), vParam(1)
	cal := vHost(kind, vField(kind), func() { vRich, vPickMax, vParamMode = true, 1, n })
	vRound(cal)
	vCover("C04 every string parameter")
}

// v6868 undoes caret escapes.
func v6868(s string) string {
	var d []byte
	for i := 0; i < len(s); i++ {
		if vFork(s[i] == '^') && i+1 < len(s) {
			switch {
			case vFork(s[i+1] == '^'):
				d = append(d, '^')
				i++
				continue
			case vFork(s[i+1] == '\''):
				d = append(d, '"')
				i++
				continue
			case vFork(s[i+1] == 'n'):
				d = append(d, '\n')
				i++
				continue
			}
		}
		d = append(d, s[i])
	}
	return string(d)
}

// H_C04_decode: every written parameter value of p0 bytes is read as RFC 6868 says; p1 selects
// the parameter and p2 whether it is quoted.
func H_C04_decode() {
	s := vRaw(vParam(0))
	quoted := vParam(2) == 1
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != '"' && (quoted || s[i] != ';' && s[i] != ':' && s[i] != ','))
	}
	want := v6868(s)
	q := ""
	if quoted {
		q = "\""
	}
	names := [...]string{"CN", "DIR", "SENT-BY", "LANGUAGE", "MEMBER"}
	e, err := vDecodeLine("ATTENDEE;" + names[vParam(1)] + "=" + q + s + q + ":mailto:a")
	vAssert(err == nil, "parameter rejected")
	vAssert(len(e.Attendee) == 1, "attendee lost")
	a := e.Attendee[0]
	got := ""
	switch vParam(1) {
	case 0:
		vAssert(a.CommonName != nil, "parameter lost")
		got = string(*a.CommonName)
	case 1:
		vAssert(a.DirectoryEntry != nil, "parameter lost")
		got = string(*a.DirectoryEntry)
	case 2:
		vAssert(a.SentBy != nil, "parameter lost")
		got = string(*a.SentBy)
	case 3:
		vAssert(a.Language != nil, "parameter lost")
		got = string(*a.Language)
	default:
		vAssert(len(a.Member) == 1, "parameter lost")
		got = a.Member[0]
	}
	vAssert(got == want, "parameter read wrongly")
	vAssert(a.CalendarAddress.Opaque == "a", "value read wrongly")
	vCover("C04 parameter read")
}
