package ics

// The component rules as the property texts and RFC 5545/9074 give them, independent of the
// generated code: which properties a component has, which of them it requires, which may be
// repeated and how they depend on one another.

type vProp struct {
	name string
	req  bool
	many bool
	tail string // a valid remainder of the line
	gen  int    // which generator of arbitrary values fits (see vTail)
}

type vSpec struct {
	kind  int
	begin string
	props []vProp
	not   [][2]string // properties that exclude one another
	needs [][2]string // the first requires the second
	outer [][2]string // enclosing components: opening and closing lines
	any   []string    // at least one of these components is required
}

const (
	vGText = iota
	vGTextList
	vGDateTime
	vGDateOrTime
	vGDateTimePeriod
	vGDuration
	vGTrigger
	vGInteger
	vGURI
	vGAddress
	vGAttach
	vGOffset
	vGRule
	vGGeo
	vGEnum
	vGBool
	vGPeriod
)

const vSpecs = 13

var vTails = map[string]vProp{
	"VERSION":          {tail: ":2.0"},
	"PRODID":           {tail: ":p"},
	"DTSTAMP":          {tail: ":20200203T040506Z", gen: vGDateTime},
	"UID":              {tail: ":u"},
	"DTSTART":          {tail: ":20200203T040506Z", gen: vGDateOrTime},
	"DTEND":            {tail: ";VALUE=DATE:20200204", gen: vGDateOrTime},
	"DUE":              {tail: ";TZID=America/New_York:20200204T040506", gen: vGDateOrTime},
	"DURATION":         {tail: ":P1DT2H3M4S", gen: vGDuration},
	"CLASS":            {tail: ":PRIVATE", gen: vGEnum},
	"COMPLETED":        {tail: ":20200205T040506Z", gen: vGDateTime},
	"CREATED":          {tail: ":20200206T040506Z", gen: vGDateTime},
	"DESCRIPTION":      {tail: ";LANGUAGE=en:a\\,b"},
	"GEO":              {tail: ":1.5;-2.25", gen: vGGeo},
	"LAST-MODIFIED":    {tail: ":20200207T040506Z", gen: vGDateTime},
	"LOCATION":         {tail: ";ALTREP=\"cid:x\":here"},
	"ORGANIZER":        {tail: ";CN=\"a,b\":mailto:x@y", gen: vGAddress},
	"PERCENT-COMPLETE": {tail: ":50", gen: vGInteger},
	"PRIORITY":         {tail: ":5", gen: vGInteger},
	"SEQUENCE":         {tail: ":7", gen: vGInteger},
	"REPEAT":           {tail: ":3", gen: vGInteger},
	"STATUS":           {tail: ":CANCELLED", gen: vGEnum},
	"SUMMARY":          {tail: ":s\\nt"},
	"TRANSP":           {tail: ":OPAQUE", gen: vGEnum},
	"URL":              {tail: ":http://h/p?q", gen: vGURI},
	"URI":              {tail: ":http://h/p?q", gen: vGURI},
	"TZURL":            {tail: ":http://h/p?q", gen: vGURI},
	"RECURRENCE-ID":    {tail: ";RANGE=THISANDFUTURE:20200208T040506Z", gen: vGDateOrTime},
	"RRULE":            {tail: ":FREQ=YEARLY;COUNT=4;BYDAY=-1SU,MO;BYMONTH=3", gen: vGRule},
	"ATTACH":           {tail: ";FMTTYPE=a/b;ENCODING=BASE64;VALUE=BINARY:QUJD", gen: vGAttach},
	"ATTENDEE":         {tail: ";MEMBER=\"m\",\"n\";ROLE=CHAIR;RSVP=TRUE;DELEGATED-TO=\"mailto:z\":mailto:x@y", gen: vGAddress},
	"CATEGORIES":       {tail: ";LANGUAGE=\"en\":a,b\\;c", gen: vGTextList},
	"RESOURCES":        {tail: ":r,s", gen: vGTextList},
	"COMMENT":          {tail: ":c"},
	"CONTACT":          {tail: ":d"},
	"EXDATE":           {tail: ";VALUE=DATE:20200209", gen: vGDateOrTime},
	"RDATE":            {tail: ";VALUE=PERIOD:20200203T040506Z/PT5H30M", gen: vGDateTimePeriod},
	"REQUEST-STATUS":   {tail: ":2.0"},
	"RELATED-TO":       {tail: ";RELTYPE=SIBLING:e"},
	"FREEBUSY":         {tail: ";FBTYPE=BUSY:20200203T040506Z/20200203T050506Z", gen: vGPeriod},
	"TZID":             {tail: ":z"},
	"TZOFFSETTO":       {tail: ":+0130", gen: vGOffset},
	"TZOFFSETFROM":     {tail: ":-023045", gen: vGOffset},
	"TZNAME":           {tail: ";LANGUAGE=en:n"},
	"TRIGGER":          {tail: ";VALUE=DATE-TIME:20200203T040506Z", gen: vGTrigger},
	"ALARM-AGENT":      {tail: ":g"},
	"LAST-TRIGGERED":   {tail: ":20200210T040506Z", gen: vGDateTime},
	"ACKNOWLEDGED":     {tail: ":20200211T040506Z", gen: vGDateTime},
	"PROXIMITY":        {tail: ":ARRIVE"},
	"GEO-LOCATION":     {tail: ":geo:1,2", gen: vGURI},
	"DEFAULT-ALARM":    {tail: ":TRUE", gen: vGBool},
	"ACTION":           {tail: ":NONE", gen: vGEnum},
}

var vCalOuter = [][2]string{{"BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n", "END:VCALENDAR\r\n"}}

func vIn(outer [][2]string, begin, end string) [][2]string {
	return append(append([][2]string(nil), outer...), [2]string{begin, end})
}

// vSpecOf returns the rules of one component: 0 to 10 as in vComp, 11 the calendar, 12 the
// alarm without action.
func vSpecOf(kind int) vSpec {
	s := vSpec{kind: kind, outer: vCalOuter}
	add := func(req, many bool, names ...string) {
		for _, n := range names {
			p := vTails[n]
			vAssume(p.tail != "")
			p.name, p.req, p.many = n, req, many
			s.props = append(s.props, p)
		}
	}
	alarm := func(action string) {
		s.begin = "VALARM"
		s.outer = vIn(vCalOuter, "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200203T040506Z\r\n", "END:VEVENT\r\n")
		add(true, false, "ACTION")
		s.props[0].tail = ":" + action
	}
	common := func() {
		add(false, false, "DURATION", "REPEAT", "UID", "STATUS", "ACKNOWLEDGED", "PROXIMITY", "RELATED-TO", "DEFAULT-ALARM")
		add(false, true, "ALARM-AGENT", "LAST-TRIGGERED", "GEO-LOCATION")
		s.needs = append(s.needs, [2]string{"GEO-LOCATION", "PROXIMITY"})
	}
	zone := vIn(vCalOuter, "BEGIN:VTIMEZONE\r\nTZID:z\r\n", "END:VTIMEZONE\r\n")
	switch kind {
	case 0:
		s.begin = "VEVENT"
		add(true, false, "DTSTAMP", "UID")
		add(false, false, "DTSTART", "CLASS", "CREATED", "DESCRIPTION", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PRIORITY", "SEQUENCE", "STATUS", "SUMMARY", "TRANSP", "URL", "RECURRENCE-ID", "RRULE", "DTEND", "DURATION")
		add(false, true, "ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "REQUEST-STATUS", "RELATED-TO", "RESOURCES", "RDATE")
		s.not = [][2]string{{"DTEND", "DURATION"}}
	case 1:
		s.begin = "VTODO"
		add(true, false, "DTSTAMP", "UID")
		add(false, false, "CLASS", "COMPLETED", "CREATED", "DESCRIPTION", "DTSTART", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PERCENT-COMPLETE", "PRIORITY", "RECURRENCE-ID", "SEQUENCE", "STATUS", "SUMMARY", "URL", "DUE", "DURATION")
		add(false, true, "ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "REQUEST-STATUS", "RELATED-TO", "RESOURCES", "RDATE")
		s.not = [][2]string{{"DUE", "DURATION"}}
		s.needs = [][2]string{{"DURATION", "DTSTART"}}
	case 2:
		s.begin = "VJOURNAL"
		add(true, false, "DTSTAMP", "UID")
		add(false, false, "CLASS", "CREATED", "DTSTART", "LAST-MODIFIED", "ORGANIZER", "RECURRENCE-ID", "SEQUENCE", "STATUS", "SUMMARY", "URL", "RRULE")
		add(false, true, "ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "DESCRIPTION", "EXDATE", "REQUEST-STATUS", "RELATED-TO", "RESOURCES", "RDATE")
	case 3:
		s.begin = "VFREEBUSY"
		add(true, false, "DTSTAMP", "UID")
		add(false, false, "CONTACT", "DTSTART", "DTEND", "ORGANIZER", "URL")
		add(false, true, "ATTENDEE", "COMMENT", "FREEBUSY", "REQUEST-STATUS")
	case 4:
		s.begin = "VTIMEZONE"
		add(true, false, "TZID")
		add(false, false, "LAST-MODIFIED", "TZURL")
		s.any = []string{"STANDARD", "DAYLIGHT"}
	case 5, 6:
		s.begin = "STANDARD"
		if kind == 6 {
			s.begin = "DAYLIGHT"
		}
		s.outer = zone
		add(true, false, "DTSTART", "TZOFFSETTO", "TZOFFSETFROM")
		add(false, false, "RRULE")
		add(false, true, "COMMENT", "RDATE", "TZNAME")
	case 7:
		alarm("AUDIO")
		add(true, false, "TRIGGER")
		common()
		add(false, true, "ATTACH")
	case 8:
		alarm("DISPLAY")
		add(true, false, "DESCRIPTION", "TRIGGER")
		common()
	case 9:
		alarm("EMAIL")
		add(true, false, "DESCRIPTION", "TRIGGER", "SUMMARY")
		common()
		add(false, false, "ATTENDEE")
		s.needs = append(s.needs, [2]string{"DURATION", "REPEAT"}, [2]string{"REPEAT", "DURATION"})
	case 10:
		alarm("URI")
		add(true, false, "URI")
		common()
		s.needs = append(s.needs, [2]string{"DURATION", "REPEAT"}, [2]string{"REPEAT", "DURATION"})
	case 11:
		s.begin = "VCALENDAR"
		s.outer = nil
		add(true, false, "VERSION", "PRODID")
	case 12:
		alarm("NONE")
	}
	return s
}

// vPart is a minimal time zone part.
func vPart(name string) string {
	return "BEGIN:" + name + "\r\nDTSTART:20200203T040506Z\r\nTZOFFSETTO:+0130\r\nTZOFFSETFROM:-0230\r\nEND:" + name + "\r\n"
}

// vWrap places the lines of a component in a calendar.
func (s *vSpec) wrap(lines string) string {
	r := "BEGIN:" + s.begin + "\r\n" + lines + "END:" + s.begin + "\r\n"
	for i := len(s.outer) - 1; i >= 0; i-- {
		r = s.outer[i][0] + r + s.outer[i][1]
	}
	return r
}

// required returns the lines of the required properties other than the one named, and a part
// where one is required.
func (s *vSpec) required(except string) string {
	r := ""
	for _, p := range s.props {
		if p.req && p.name != except {
			r += p.name + p.tail + "\r\n"
		}
	}
	if len(s.any) > 0 {
		r += vPart(s.any[0])
	}
	return r
}

// complete returns lines that satisfy the requirements of the property named.
func (s *vSpec) complete(name string) string {
	r := s.required(name)
	for _, n := range s.needs {
		if n[0] == name {
			r += n[1] + vTails[n[1]].tail + "\r\n"
		}
	}
	return r
}

// vEveryLine is a check of the table itself: each sample line is accepted where it belongs.
func H_spec() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	vDecode(s.wrap(s.complete(p.name) + p.name + p.tail + "\r\n"))
	vCover("sample lines")
}
