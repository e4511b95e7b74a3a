package ics

import (
	"net/url"
	"strings"
	"time"
)

// C23: names and words are those of the standards.

// vFieldNames gives the property, or the component, each field stands for.
var vFieldNames = map[string]string{
	"Acknowledged": "ACKNOWLEDGED", "Alarm": "BEGIN:VALARM", "AlarmAgent": "ALARM-AGENT", "AlarmStatus": "STATUS",
	"Attachment": "ATTACH", "Attendee": "ATTENDEE", "Categories": "CATEGORIES", "Class": "CLASS", "Comment": "COMMENT",
	"Completed": "COMPLETED", "Contact": "CONTACT", "Created": "CREATED", "DateTimeEnd": "DTEND", "DateTimeStart": "DTSTART",
	"Daylight": "BEGIN:DAYLIGHT", "DefaultAlarm": "DEFAULT-ALARM", "Description": "DESCRIPTION", "Due": "DUE",
	"Duration": "DURATION", "ExceptionDateTime": "EXDATE", "FreeBusy": "FREEBUSY", "Geo": "GEO", "GeoLocation": "GEO-LOCATION",
	"LastModified": "LAST-MODIFIED", "LastTriggered": "LAST-TRIGGERED", "Location": "LOCATION", "Organizer": "ORGANIZER",
	"PercentComplete": "PERCENT-COMPLETE", "Priority": "PRIORITY", "Proximity": "PROXIMITY", "RecurrenceDateTimes": "RDATE",
	"RecurrenceID": "RECURRENCE-ID", "RecurrenceRule": "RRULE", "RelatedTo": "RELATED-TO", "Repeat": "REPEAT",
	"RequestStatus": "REQUEST-STATUS", "Resources": "RESOURCES", "Sequence": "SEQUENCE", "Standard": "BEGIN:STANDARD",
	"Status": "STATUS", "Summary": "SUMMARY", "TimeTransparency": "TRANSP", "TimezoneName": "TZNAME", "TimezoneURL": "TZURL",
	"UID": "UID", "URL": "URL",
}

func vFieldName(kind, i int) string {
	names := [...][]string{vEventNames[:], vTodoNames[:], vJournalNames[:], vFreeBusyNames[:], vTimezoneNames[:],
		vStandardNames[:], vDaylightNames[:], vAlarmAudioNames[:], vAlarmDisplayNames[:], vAlarmEmailNames[:], vAlarmURINames[:]}
	n := vFieldNames[names[kind][i]]
	vAssume(n != "")
	return n
}

// vParts splits a content line into its name, its parameters without quotes and its value.
func vParts(l string) (string, []string, string) {
	var parts []string
	quoted, from := false, 0
	for i := 0; i < len(l); i++ {
		switch c := l[i]; {
		case vFork(c == '"'):
			quoted = !quoted
		case quoted:
		case vFork(c == ';'):
			parts, from = append(parts, l[from:i]), i+1
		case vFork(c == ':'):
			parts = append(parts, l[from:i])
			return parts[0], parts[1:], l[i+1:]
		}
	}
	vAssert(false, "line without a value")
	return "", nil, ""
}

// vOwn returns the names directly inside the first component of the name given; those of inner
// components with BEGIN.
func vOwn(out, begin string) []string {
	var own []string
	depth := 0
	for _, l := range vFolded(out) {
		name, params, value := vParts(l)
		switch {
		case depth == 0:
			if name == "BEGIN" && value == begin {
				vAssert(len(params) == 0, "parameters of BEGIN")
				depth = 1
			}
			continue
		case name == "END":
			depth--
			if depth == 0 {
				vAssert(value == begin, "END of another component")
				return own
			}
			continue
		case name == "BEGIN":
			if depth == 1 {
				own = append(own, "BEGIN:"+value)
			}
			depth++
			continue
		}
		if depth == 1 {
			if name == "ACTION" {
				name += ":" + value
			}
			own = append(own, name)
		}
	}
	vAssert(false, "component "+begin+" is missing")
	return nil
}

// vSameNames compares two lists of names in any order.
func vSameNames(a, b []string) {
	vAssert(len(a) == len(b), "number of lines")
	for _, s := range a {
		n := 0
		for _, t := range a {
			if s == t {
				n++
			}
		}
		for _, t := range b {
			if s == t {
				n--
			}
		}
		vAssert(n == 0, "lines named "+s)
	}
}

// H_C23_fields: each field of component kind p0, in every shape with at most p1 parameters if p1 is set, is written under
// its name and nothing else is written.
func H_C23_fields() {
	kind := vParam(0)
	field := vField(kind)
	mode := func() {
		if vParam(1) > 0 {
			vRich, vPickMax = true, vParam(1)
		}
	}
	vReset()
	cal := vCal()
	if field < 0 {
		mode()
	}
	c := vComp(kind)
	s := vSpecOf(kind)
	var want []string
	for _, p := range s.props {
		if p.req && p.name == "ACTION" {
			want = append(want, p.name+p.tail)
		} else if p.req {
			want = append(want, p.name)
		}
	}
	set := c.set
	c.set = func(i int) {
		want = append(want, vFieldName(kind, i))
		set(i)
	}
	if field >= 0 {
		mode()
		c.set(field)
		vReset()
		vFix(c, field)
	} else if kind == 4 {
		c.set(2 + vChoice(2))
	}
	c.add(cal)
	out := vEncode(cal)
	vSameNames(want, vOwn(out, s.begin))
	inside := [...]string{"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "VTIMEZONE", "VTIMEZONE", "VEVENT", "VEVENT", "VEVENT", "VEVENT"}
	vSameNames([]string{"VERSION", "PRODID", "BEGIN:" + inside[kind]}, vOwn(out, "VCALENDAR"))
	vCover("C23 fields")
}

// vEnumWords lists the words of an enumeration in the order of vEnumOf's answers; the first is
// what stands for any other word, if there is one.
var vEnumWords = [...][]string{
	{"", "PUBLIC", "PRIVATE", "CONFIDENTIAL"},
	{"", "TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL"},
	{"", "OPAQUE", "TRANSPARENT"},
	{"", "ACTIVE", "CANCELLED", "COMPLETED"},
	{"UNKNOWN", "INDIVIDUAL", "GROUP", "RESOURCE", "ROOM"},
	{"UNKNOWN", "FREE", "BUSY", "BUSY-UNAVAILABLE", "BUSY-TENTATIVE"},
	{"UNKNOWN", "NEEDS-ACTION", "ACCEPTED", "DECLINED", "TENTATIVE", "DELEGATED", "COMPLETED", "IN-PROCESS"},
	{"UNKNOWN", "PARENT", "CHILD", "SIBLING"},
	{"UNKNOWN", "REQ-PARTICIPANT", "CHAIR", "OPT-PARTICIPANT", "NON-PARTICIPANT"},
	{"", "THISANDFUTURE"},
	{"", "TRUE", "FALSE"},
}

var (
	vClasses  = [...]PropClass{0, ClassPublic, ClassPrivate, ClassConfidential}
	vStatuses = [...]PropStatus{0, StatusTentative, StatusConfirmed, StatusCancelled, StatusNeedsAction, StatusCompleted, StatusInProcess, StatusDraft, StatusFinal}
	vTransps  = [...]PropTimeTransparency{0, TimeTransparencyOpaque, TimeTransparencyTransparent}
	vAlarming = [...]PropAlarmStatus{0, AlarmStatusActive, AlarmStatusCancelled, AlarmStatusCompleted}
	vUsers    = [...]ParamCalendarUserType{CalendarUserTypeUnknown, CalendarUserTypeIndividual, CalendarUserTypeGroup, CalendarUserTypeResource, CalendarUserTypeRoom}
	vBusies   = [...]ParamFreeBusyType{FreeBusyTypeUnknown, FreeBusyTypeFree, FreeBusyTypeBusy, FreeBusyTypeBusyUnavailable, FreeBusyTypeBusyTentative}
	vAnswers  = [...]ParamParticipationStatus{ParticipationStatusUnknown, ParticipationStatusNeedsAction, ParticipationStatusAccepted, ParticipationStatusDeclined, ParticipationStatusTentative, ParticipationStatusDelegated, ParticipationStatusCompleted, ParticipationStatusInProcess}
	vKin      = [...]ParamRelationshipType{RelationshipTypeUnknown, RelationshipTypeParent, RelationshipTypeChild, RelationshipTypeSibling}
	vRoles    = [...]ParamParticipationRole{ParticipationRoleUnknown, ParticipationRoleRequiredParticipant, ParticipationRoleChair, ParticipationRoleOptParticipant, ParticipationRoleNonParticipant}
)

// vEnumLine is the line with the word w of enumeration e, in an event or, for 3, an alarm and, for
// 5, a free/busy component.
func vEnumLine(e int, w string) string {
	switch e {
	case 0:
		return "CLASS:" + w
	case 1, 3:
		return "STATUS:" + w
	case 2:
		return "TRANSP:" + w
	case 4:
		return "ATTENDEE;CUTYPE=" + w + ":mailto:a"
	case 5:
		return "FREEBUSY;FBTYPE=" + w + ":20200203T040506Z/PT1H"
	case 6:
		return "ATTENDEE;PARTSTAT=" + w + ":mailto:a"
	case 7:
		return "RELATED-TO;RELTYPE=" + w + ":r"
	case 8:
		return "ATTENDEE;ROLE=" + w + ":mailto:a"
	case 9:
		return "RECURRENCE-ID;RANGE=" + w + ":20200203T040506Z"
	}
	return "ATTENDEE;RSVP=" + w + ":mailto:a"
}

// vEnumPut puts the i-th member of enumeration e into a calendar.
func vEnumPut(e, i int) *Calendar {
	vReset()
	cal := vCal()
	ev := vEvent()
	a := vAttendee(-1, "")
	switch e {
	case 0:
		ev.Class = vClasses[i].New()
	case 1:
		ev.Status = vStatuses[i].New()
	case 2:
		ev.TimeTransparency = vTransps[i].New()
	case 3:
		x := gAlarmAudio()
		x.AlarmStatus = vAlarming[i].New()
		ev.Alarm = []Alarm{{&x}}
	case 4:
		a.CalendarUserType = vUsers[i].New()
	case 5:
		f := gFreeBusySection()
		p := gFreeBusy()
		p.FreeBusyType = vBusies[i].New()
		f.FreeBusy = []PropFreeBusy{p}
		cal.FreeBusy = []FreeBusy{f}
	case 6:
		a.ParticipationStatus = vAnswers[i].New()
	case 7:
		ev.RelatedTo = []PropRelatedTo{{vKin[i].New(), "r"}}
	case 8:
		a.ParticipationRole = vRoles[i].New()
	case 9:
		t := DateTime{Time: vStamp()}
		ev.RecurrenceID = &PropRecurrenceID{Range: new(ParamRange), DateTime: &t}
	case 10:
		a.RSVP = NewRSVP(ParamRSVP(i == 1))
	}
	if e == 4 || e == 6 || e == 8 || e == 10 {
		ev.Attendee = []PropAttendee{a}
	}
	cal.Event = []Event{ev}
	return cal
}

// vEnumIs tells whether the calendar has the i-th member of enumeration e.
func vEnumIs(cal *Calendar, e, i int) bool {
	if e == 5 {
		return *cal.FreeBusy[0].FreeBusy[0].FreeBusyType == vBusies[i]
	}
	ev := &cal.Event[0]
	switch e {
	case 0:
		return *ev.Class == vClasses[i]
	case 1:
		return *ev.Status == vStatuses[i]
	case 2:
		return *ev.TimeTransparency == vTransps[i]
	case 3:
		return *ev.Alarm[0].AlarmType.(*AlarmAudio).AlarmStatus == vAlarming[i]
	case 4:
		return *ev.Attendee[0].CalendarUserType == vUsers[i]
	case 6:
		return *ev.Attendee[0].ParticipationStatus == vAnswers[i]
	case 7:
		return *ev.RelatedTo[0].RelationshipType == vKin[i]
	case 8:
		return *ev.Attendee[0].ParticipationRole == vRoles[i]
	case 9:
		return ev.RecurrenceID.Range != nil
	}
	return bool(*ev.Attendee[0].RSVP) == (i == 1)
}

// H_C23_members: every member of enumeration p0 is written as its word.
func H_C23_members() {
	e := vParam(0)
	words := vEnumWords[e]
	i := vChoice(len(words))
	vAssume(words[i] != "")
	want, params, _ := vParts(vEnumLine(e, words[i]))
	found := 0
	for _, l := range vFolded(vEncode(vEnumPut(e, i))) {
		name, got, value := vParts(l)
		if name != want {
			continue
		}
		found++
		if len(params) == 0 {
			vAssert(value == words[i], "word of a constant")
		} else {
			vAssert(vHasLine(got, params[0]), "parameter of a constant")
		}
	}
	vAssert(found == 1, "lines with the constant")
	vCover("C23 members")
}

// vUpper returns the ASCII upper-case form of s.
func vUpper(s string) string {
	b := make([]byte, len(s))
	for i := range b {
		c := s[i]
		if c-'a' < 26 {
			c -= 'a' - 'A'
		}
		b[i] = c
	}
	return string(b)
}

// H_C23_words: any word of p1 plain ASCII characters in place of a member of enumeration p0.
func H_C23_words() {
	e := vParam(0)
	vReset()
	vPlainMode, vWordLen = true, vParam(1)
	w := vPlainWord(false)
	l := vEnumLine(e, w) + "\r\n"
	in := "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200203T040506Z\r\n"
	switch e {
	case 3:
		l = in + "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:PT1H\r\n" + l + "END:VALARM\r\nEND:VEVENT\r\n"
	case 5:
		l = "BEGIN:VFREEBUSY\r\nUID:u\r\nDTSTAMP:20200203T040506Z\r\n" + l + "END:VFREEBUSY\r\n"
	default:
		l = in + l + "END:VEVENT\r\n"
	}
	cal, err := Decode(strings.NewReader("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n" + l + "END:VCALENDAR\r\n"))
	u := vUpper(w)
	for i, x := range vEnumWords[e] {
		if x != "" && len(x) == len(u) && vFork(u == x) {
			vAssert(err == nil, "word of the standard refused")
			vAssert(vEnumIs(cal, e, i), "word read as another constant")
			vCover("C23 word")
			return
		}
	}
	if vEnumWords[e][0] == "" {
		if e == 10 && (len(w) == 1) {
			return // T, F, 1 and 0: not decided here
		}
		vAssert(err != nil, "unknown word accepted")
		vCover("C23 unknown word refused")
	} else {
		vAssert(err == nil, "unknown word refused")
		vAssert(vEnumIs(cal, e, 0), "unknown word read as a constant")
		vCover("C23 unknown word")
	}
}

// vHasParam tells whether a parameter with the value given, quoted or not, is among params.
func vHasParam(params []string, name, value string, quotes bool) bool {
	return vHasLine(params, name+"=\""+value+"\"") || !quotes && vHasLine(params, name+"="+value)
}

// H_C23_params: each parameter and each value type, the parameters having words of p0 letters.
func H_C23_params() {
	vReset()
	vWordLen = vParam(0)
	w := vWord()
	cal := vCal()
	e := vEvent()
	u, err := url.Parse("http://h/" + w)
	vAssume(err == nil)
	addr := CalendarAddress{URL: *u}
	t := DateTime{Time: vStamp()}
	day := Date{Time: t.Time.Truncate(24 * time.Hour)}
	span := Duration{Hours: 1}
	a := vAttendee(-1, "")
	line, param, value := "ATTENDEE", "", w
	quotes := false
	way := vChoice(27)
	switch way {
	case 0:
		param, quotes, value = "ALTREP", true, u.String()
		x := ParamAlternativeRepresentation(URI{URL: *u})
		e.Comment = []PropComment{{AlternativeRepresentation: &x, Text: "c"}}
		line = "COMMENT"
	case 1:
		param = "CN"
		a.CommonName = NewCommonName(ParamCommonName(w))
	case 2:
		param, quotes, value = "DELEGATED-FROM", true, u.String()
		a.Delegator = ParamDelegator{addr}
	case 3:
		param, quotes, value = "DELEGATED-TO", true, u.String()
		a.Delagatee = ParamDelagatee{addr}
	case 4:
		param, quotes = "DIR", true
		a.DirectoryEntry = NewDirectoryEntry(ParamDirectoryEntry(w))
	case 5:
		param = "LANGUAGE"
		a.Language = NewLanguage(ParamLanguage(w))
	case 6:
		param, quotes = "MEMBER", true
		a.Member = ParamMember{w}
	case 7:
		param, quotes = "SENT-BY", true
		a.SentBy = NewSentBy(ParamSentBy(w))
	case 8:
		line, param, value = "ATTACH", "FMTTYPE", w+"/"+w
		x := URI{URL: *u}
		e.Attachment = []PropAttachment{{FormatType: NewFormatType(ParamFormatType(value)), URI: &x}}
	case 9:
		line, param, value = "ATTACH", "ENCODING", "BASE64"
		e.Attachment = []PropAttachment{{Binary: &Binary{1, 2}}}
	case 10:
		line, param, value = "ATTACH", "VALUE", "BINARY"
		e.Attachment = []PropAttachment{{Binary: &Binary{1, 2}}}
	case 11:
		line, param, value = "RDATE", "VALUE", "PERIOD"
		e.RecurrenceDateTimes = []PropRecurrenceDateTimes{{Period: &Period{Start: t, Duration: span}}}
	case 12:
		line, param, value = "RDATE", "VALUE", "DATE"
		e.RecurrenceDateTimes = []PropRecurrenceDateTimes{{Date: &day}}
	case 13:
		line, param, value = "EXDATE", "VALUE", "DATE"
		e.ExceptionDateTime = []PropExceptionDateTime{{Date: &day}}
	case 14:
		line, param, value = "DTSTART", "VALUE", "DATE"
		e.DateTimeStart = &PropDateTimeStart{Date: &day}
	case 15:
		line, param, value = "DTEND", "VALUE", "DATE"
		e.DateTimeEnd = &PropDateTimeEnd{Date: &day}
	case 16:
		line, param, value = "RECURRENCE-ID", "VALUE", "DATE"
		e.RecurrenceID = &PropRecurrenceID{Date: &day}
	case 17:
		line, param, value = "DUE", "VALUE", "DATE"
		cal.Todo = []Todo{{DateTimeStamp: gDateTimeStamp(), UID: "t", Due: &PropDue{Date: &day}}}
	case 18:
		line, param, value = "TRIGGER", "VALUE", "DATE-TIME"
		e.Alarm = []Alarm{{&AlarmAudio{Trigger: PropTrigger{DateTime: &t}}}}
	case 19:
		line, param, value = "DTSTART", "TZID", "America/New_York"
		z := DateTime{Time: t.Time.In(vNamedZone())}
		e.DateTimeStart = &PropDateTimeStart{DateTime: &z}
	case 20:
		line = "DTSTART" // a date-time needs no parameter
		e.DateTimeStart = &PropDateTimeStart{DateTime: &t}
	case 21:
		line = "TRIGGER"
		e.Alarm = []Alarm{{&AlarmAudio{Trigger: PropTrigger{Duration: &span}}}}
	case 22:
		line = "ATTACH"
		x := URI{URL: *u}
		e.Attachment = []PropAttachment{{URI: &x}}
	case 23, 24, 25:
		x := PropAlarmAgent{Text: "x"}
		line = "ALARM-AGENT"
		switch way {
		case 23:
			param, value, quotes = "URI", u.String(), true
			y := ParamURI(URI{URL: *u})
			x.URI = &y
		case 24:
			param = "ID"
			x.ID = NewID(ParamID(w))
		case 25:
			param = "AGENT-ID"
			x.AgentID = NewAgentID(ParamAgentID(w))
		}
		e.Alarm = []Alarm{{&AlarmAudio{Trigger: PropTrigger{Duration: &span}, AlarmAgent: []PropAlarmAgent{x}}}}
	case 26:
		// an address needs no parameter
	}
	if line == "ATTENDEE" {
		e.Attendee = []PropAttendee{a}
	}
	cal.Event = []Event{e}
	found := 0
	for _, l := range vFolded(vEncode(cal)) {
		name, params, _ := vParts(l)
		if name != line {
			continue
		}
		found++
		if param != "" {
			vAssert(vHasParam(params, param, value, quotes), "parameter "+param+" of "+line)
		}
		for _, p := range params {
			switch n := p[:strings.IndexByte(p, '=')]; n {
			case param:
			case "VALUE":
				// the default type may be named
				def := map[string]string{"DTSTART": "DATE-TIME", "TRIGGER": "DURATION", "ATTACH": "URI", "ATTENDEE": "CAL-ADDRESS"}[line]
				if way == 9 {
					def = "BINARY"
				}
				vAssert(p == "VALUE="+def, "value type of "+line)
			case "ENCODING":
				vAssert(way == 10, "ENCODING of "+line)
			default:
				vAssert(false, "another parameter of "+line)
			}
		}
	}
	vAssert(found == 1, "lines "+line)
	vCover("C23 parameters")
}
