package ics

import (
	"bytes"
	"strings"
)

// C22: encoding leaves the calendar untouched and is repeatable.

// vUntouched encodes cal repeatedly, with a writer that fails in between.
func vUntouched(cal *Calendar) {
	before := vCopy(cal)
	var a, b bytes.Buffer
	err := Encode(&a, cal)
	vAssert(vEqual(cal, before), "Encode changes the calendar")
	if err == nil {
		out := a.String()
		w := &vWriter{want: out, how: 1, room: vInt(0, len(out)-1)}
		vAssert(Encode(w, cal) != nil, "Encode hides the writer's failure")
		vAssert(vEqual(cal, before), "Encode with a failing writer changes the calendar")
		err = Encode(&b, cal)
		vAssert(err == nil, "the same calendar is refused later")
		vAssert(b.String() == out, "the same calendar is written differently later")
		vAssert(vEqual(cal, before), "Encode changes the calendar later")
		vCover("C22 encoded")
	} else {
		vAssert(Encode(&b, cal) != nil, "a refused calendar is accepted later")
		vAssert(a.Len() == 0 && b.Len() == 0, "a refused calendar is written")
		vAssert(vEqual(cal, before), "Encode changes a refused calendar")
		vCover("C22 refused")
	}
}

// H_C22_hosts: every property of component kind p0 in every shape with at most p1 parameters.
func H_C22_hosts() {
	kind, most := vParam(0), vParam(1)
	vUntouched(vHost(kind, vField(kind), func() { vRich, vPickMax = true, most }))
}

// H_C22_bad: component kind p0 with an invalid value of sort p1.
func H_C22_bad() {
	vUntouched(vBadHost(vParam(0), vParam(1), vChoice(3), 1))
}

// H_C22_full: component kind p0 with all its fields.
func H_C22_full() {
	vReset()
	c := vComp(vParam(0))
	skip := vChoice(c.n + 1)
	for i := 0; i < c.n; i++ {
		if i != skip {
			c.set(i)
			if c.repeats(i) {
				c.set(i)
			}
		}
	}
	vAssume(c.ok())
	cal := vCal()
	c.add(cal)
	c.add(cal)
	vUntouched(cal)
}

// H_C22_shared: lists of the calendar that are neighbours in memory, with p0 arbitrary bytes in
// their texts.
func H_C22_shared() {
	n := vParam(0)
	vReset()
	cal := vCal()
	e, f := vEvent(), vEvent()
	t := []Text{Text(vText(n)), "z", Text("a" + string(vLetter())), "y,", "x"}
	e.Categories = []PropCategories{{MText: MText(t[:2])}, {MText: MText(t[2:4])}}
	f.Resources = []PropResources{{MText: MText(t[4:])}, {MText: MText(t[1:3])}}
	bin := Binary(vString(n) + "01234567")
	b1, b2, b3 := bin[:n+1], bin[n+1:n+3], bin[n+3:]
	e.Attachment = []PropAttachment{{Binary: &b1}, {Binary: &b2}, {Binary: &b3}}
	m := []string{"q", "p" + string(vLetter()), "r"}
	u := []CalendarAddress{{}, {}, {}}
	for i := range u {
		u[i].Scheme, u[i].Opaque = "mailto", string(vLetter())
	}
	att := []PropAttendee{
		{Member: m[:1], Delagatee: u[:1], Delegator: u[:2], CalendarAddress: u[0]},
		{Member: m[1:2], Delagatee: u[1:2], CalendarAddress: u[1]},
		{Member: m[:2], CalendarAddress: u[2]},
	}
	e.Attendee, f.Attendee = att[:1], att[1:]
	days := []DayRecur{{Day: Friday, Occurrence: 1}, {Day: Monday, Occurrence: -1}, {Day: Sunday}}
	months := []Month{March, January, December}
	hours := []uint8{5, 3, 4}
	set := []int16{-1, 7, 2}
	e.RecurrenceRule = &PropRecurrenceRule{Frequency: Yearly, ByDay: days[:2], ByMonth: months[:2], ByHour: hours[:2], ByMinute: hours[1:], BySetPos: set[:2]}
	f.RecurrenceRule = &PropRecurrenceRule{Frequency: Yearly, ByDay: days[1:], ByMonth: months[1:], BySecond: hours[1:], ByYearDay: set[1:]}
	c := []PropComment{{Text: Text(string(vLetter()))}, {Text: "b"}, {Text: "a"}}
	e.Comment, f.Comment = c[:1], c[1:]
	all := []Event{f, e, f}
	cal.Event = all[:2]
	al := []Alarm{{&AlarmNone{}}, {&AlarmDisplay{Description: PropDescription{Text: "d"}, Trigger: PropTrigger{DateTime: &DateTime{Time: vStamp()}}}}}
	cal.Event[0].Alarm, cal.Event[1].Alarm = al[:1], al[1:]
	before := vCopy(all)
	vUntouched(cal)
	vAssert(vEqual(all, before), "Encode changes memory next to the calendar")
	vAssert(t[4] == "x" && bin[len(bin)-1] == '7' && m[2] == "r" && hours[2] == 4 && set[2] == 2, "Encode changes memory next to the calendar")
	vCover("C22 shared lists")
}

// H_C22_decode: two decodes of a stream with component kind p0 and p1 arbitrary bytes.
func H_C22_decode() {
	s, at := vStream(vParam(0))
	if n := vParam(1); n > 0 {
		i := at[vChoice(len(at))]
		s = s[:i] + "COMMENT:" + vRaw(n) + "\r\n" + s[i:]
	}
	a, err := Decode(strings.NewReader(s))
	b, err2 := Decode(strings.NewReader(s))
	vAssert((err == nil) == (err2 == nil), "the same bytes are accepted once")
	vAssert(vEqual(a, b), "the same bytes decode differently")
	if err != nil {
		vCover("C22 not decoded")
		return
	}
	vAssert(!vShares(a, b), "two decoded calendars share memory")
	out := vEncode(a)
	vAssert(vEqual(a, b), "encoding one calendar changes another or itself")
	vAssert(vEncode(b) == out, "equal calendars are written differently")
	vCover("C22 decoded")
}

// H_C22_lines: the same for each property of component kind p0.
func H_C22_lines() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	t := s.wrap(s.complete(p.name) + p.name + p.tail + "\r\n")
	a, b := vDecode(t), vDecode(t)
	vAssert(vEqual(a, b), "the same bytes decode differently")
	vAssert(!vShares(a, b), "two decoded calendars share memory")
	vCover("C22 lines")
}
