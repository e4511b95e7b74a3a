package ics

import (
	"strings"
	"time"
)

// Long texts, long lists and many components: what depends on sizes rather than on bytes.

// vRepeated returns p[at] letters followed by p[at+2] copies of p[at+1] arbitrary bytes.
func vRepeated(at int) (unit, s string) {
	unit = vText(vParam(at + 1))
	return unit, strings.Repeat("a", vParam(at)) + strings.Repeat(unit, vParam(at+2))
}

// H_C03_long: p0 letters followed by p2 copies of p1 arbitrary bytes as a text, as the member of
// a list and as the name of a calendar.
func H_C03_long() {
	vReset()
	_, s := vRepeated(0)
	cal := vCal()
	cal.ProductID = PropProductID(s)
	e := vEvent()
	e.Summary = &PropSummary{Text: Text(s)}
	e.Categories = []PropCategories{{MText: MText{"x", Text(s), Text(s)}}}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C03 long text")
}

// H_C03_longlist: a list of p0 texts of which one has p1 arbitrary bytes.
func H_C03_longlist() {
	vReset()
	n := vParam(0)
	m := make(MText, n)
	for i := range m {
		m[i] = Text("a" + vDigits(i, 3))
	}
	m[vChoice(n)] = Text(vText(vParam(1)))
	cal := vCal()
	e := vEvent()
	e.Categories = []PropCategories{{MText: m}}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C03 long list")
}

// H_C04_long: parameter p0 of p1 letters followed by p3 copies of p2 arbitrary bytes.
func H_C04_long() {
	vReset()
	_, s := vRepeated(1)
	cal := vCal()
	e := vEvent()
	a := vAttendee(vParam(0), s)
	a.RSVP = NewRSVP(true)
	e.Attendee = []PropAttendee{a}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C04 long parameter")
}

// H_C09_long: p0 letters followed by p2 copies of p1 arbitrary bytes in one text, followed by
// another long line.
func H_C09_long() {
	vReset()
	unit, s := vRepeated(0)
	cal := vCal()
	e := vEvent()
	e.Summary = &PropSummary{Text: Text(s)}
	e.URL = &PropURL{}
	e.URL.Path = strings.Repeat("c", 80+vParam(0))
	cal.Event = []Event{e}
	out := vEncode(cal)
	lines := vFolded(out)
	vAssert(vHasLine(lines, "SUMMARY:"+strings.Repeat("a", vParam(0))+strings.Repeat(vEscaped(unit), vParam(2))), "folding damages the text")
	vAssert(vHasLine(lines, "URL:"+e.URL.Path), "folding damages the following line")
	vAssert(vEqual(vDecode(out), cal), "calendar changed by encoding and decoding")
	vCover("C09 long text")
}

// H_C12_long: p0 letters, p1 arbitrary bytes and p2 letters as a text, a parameter and an address.
func H_C12_long() {
	vReset()
	s := strings.Repeat("a", vParam(0)) + vString(vParam(1)) + strings.Repeat("b", vParam(2))
	cal, plain := vCal(), vCal()
	host := vChoice(5)
	for _, c := range []*Calendar{cal, plain} {
		e := vEvent()
		switch host {
		case 0:
			e.Summary = &PropSummary{Text: Text(s)}
		case 1:
			e.Attendee = []PropAttendee{vAttendee(0, s)}
		case 2:
			e.Attendee = []PropAttendee{vAttendee(4, s)}
		case 3:
			e.Categories = []PropCategories{{MText: MText{Text(s), "x"}}}
		case 4:
			a := vAttendee(0, "n")
			a.CalendarAddress.Opaque = s
			e.Attendee = []PropAttendee{a}
		}
		c.Event = []Event{e}
		s = "p"
	}
	vInject(cal, plain)
}

// H_C13_long: a control character behind p0 letters in front of p1 letters.
func H_C13_long() {
	vReset()
	s := strings.Repeat("a", vParam(0)) + vBadString() + strings.Repeat("b", vParam(1))
	cal := vCal()
	cal.Event = []Event{vEvent()}
	e := vEvent()
	switch vChoice(4) {
	case 0:
		e.Summary = &PropSummary{Text: Text(s)}
	case 1:
		e.Attendee = []PropAttendee{vAttendee(0, s)}
	case 2:
		e.Attendee = []PropAttendee{vAttendee(4, s)}
	case 3:
		e.Categories = []PropCategories{{MText: MText{"x", Text(s)}}}
	}
	cal.Event = append(cal.Event, e)
	vNothing(cal)
	vCover("C13 refused")
}

// H_C13_last: an invalid value of sort p1 as any member of lists of p2 members of component p0.
func H_C13_last() {
	kind, n := vParam(0), vParam(2)
	field := vField(kind)
	vReset()
	cal := vCal()
	c := vComp(kind)
	vAssume(field >= 0)
	vBadDone = false
	vRich, vAll, vListLen, vBad, vBadAt = true, true, n, vParam(1), vChoice(2*n+6)
	c.set(field)
	vReset()
	vFix(c, field)
	c.add(cal)
	vAssume(vBadDone)
	vNothing(cal)
	vCover("C13 refused")
}

// H_C01_many: p1 values of each list property of component kind p0.
func H_C01_many() {
	vReset()
	c := vComp(vParam(0))
	i := vChoice(c.n)
	vAssume(c.repeats(i))
	for j := 0; j < vParam(1); j++ {
		c.set(i)
	}
	vFix(c, i)
	cal := vCal()
	c.add(cal)
	vRound(cal)
	vCover("C01 many values")
}

// H_C01_components: p1 components of kind p0 in one calendar or event, among others.
func H_C01_components() {
	vReset()
	kind := vParam(0)
	cal := vCal()
	for j := 0; j < vParam(1); j++ {
		c := vComp(kind)
		vFix(c, -1)
		c.add(cal)
	}
	if kind >= 7 {
		// all in one event, and a to-do
		var t Todo = gTodo()
		for i := 1; i < len(cal.Event); i++ {
			cal.Event[0].Alarm = append(cal.Event[0].Alarm, cal.Event[i].Alarm...)
		}
		t.Alarm = cal.Event[0].Alarm
		cal.Event = cal.Event[:1]
		cal.Todo = []Todo{t}
	}
	vRound(cal)
	vCover("C01 many components")
}

// H_C01_drop: component kind p0 with all fields set but any p1 of them.
func H_C01_drop() {
	vReset()
	c := vComp(vParam(0))
	drop := make([]bool, c.n)
	last := 0
	for j := 0; j < vParam(1); j++ {
		last += vChoice(c.n - last)
		vAssume(!drop[last])
		drop[last] = true
	}
	for k := 0; k < c.n; k++ {
		if !drop[k] {
			c.set(k)
		}
	}
	vAssume(c.ok())
	cal := vCal()
	c.add(cal)
	vRound(cal)
	vCover("C01 all but a few")
}

// H_C02_lists: every list value and list parameter of component kind p0 with p1 members.
func H_C02_lists() {
	kind := vParam(0)
	cal := vHost(kind, vField(kind), func() { vRich, vAll, vListLen = true, true, vParam(1) })
	vRound(cal)
	vCover("C02 long lists")
}

// vLongLists gives r by-lists of vListLen members, the which-th of which, if any, with an
// arbitrary valid member at any place.
func vLongLists(r *Recur, which int) {
	n := vListLen
	at := -1
	if which >= 0 {
		at = vChoice(n)
	}
	num := func(list, i, max int, signed bool) int {
		m := (i*7+list)%max + 1
		if signed && i%3 == 1 {
			m = -m
		}
		if list == which && i == at {
			m = vRange(1, max)
			if signed && vFork(vBool()) {
				m = -m
			}
		}
		return m
	}
	for i := 0; i < n; i++ {
		r.BySecond = append(r.BySecond, uint8(num(0, i, 60, false)))
		r.ByMinute = append(r.ByMinute, uint8(num(1, i, 59, false)))
		r.ByHour = append(r.ByHour, uint8(num(2, i, 23, false)))
		d := DayRecur{Day: WeekDay(i%7 + 1), Occurrence: int8(num(3, i, 53, true))}
		if i%4 == 2 {
			d.Occurrence = 0
		}
		r.ByDay = append(r.ByDay, d)
		r.ByMonthDay = append(r.ByMonthDay, int8(num(4, i, 31, true)))
		r.ByYearDay = append(r.ByYearDay, int16(num(5, i, 366, true)))
		r.ByWeekNum = append(r.ByWeekNum, int8(num(6, i, 53, true)))
		r.ByMonth = append(r.ByMonth, Month(num(7, i, 12, false)))
		r.BySetPos = append(r.BySetPos, int16(num(8, i, 366, true)))
	}
}

// H_C07_long: by-lists of p1 members, that of kind p0 with an arbitrary member anywhere.
func H_C07_long() {
	vReset()
	vListLen = vParam(1)
	r := Recur{Frequency: Yearly}
	vLongLists(&r, vParam(0))
	vRound(vRuleCal(r))
	vCover("C07 long lists")
}

// H_C15_long: a stream of more than p0 bytes cut at any of the 12 positions around p0, delivered
// in blocks of several sizes; p1 selects what stands there.
func H_C15_long() {
	s := vSpecOf(0)
	head, all := s.around("SUMMARY")
	line := ""
	pad := vParam(0) - len(head) - 8
	switch vParam(1) {
	case 0:
		line = "SUMMARY:" + strings.Repeat("a", pad+60) + "\r\n"
	case 1:
		for len(line) < pad+60 {
			line += "COMMENT:" + strings.Repeat("b", 50) + "\r\n " + strings.Repeat("c", 53) + "\r\n"
		}
	case 2:
		line = "X-Y:" + strings.Repeat("a", pad-40) + "\r\nBEGIN:X-Z\r\nX:y\r\nEND:X-Z\r\nX-Y;A=b:" + strings.Repeat("d", 60) + "\r\n"
	}
	t := strings.Replace(all, "\x00", line, 1)
	i := vParam(0) - 6 + vChoice(12)
	r := &vReader{s: t[:i], sizes: []int{[...]int{100000, 4096, 512, 1000}[vChoice(4)]}, eof: vFork(vBool())}
	if vFork(vBool()) {
		r.err = vLost
	}
	cal, err := Decode(r)
	vAssert(err != nil, "a cut stream is accepted")
	vAssert(cal == nil, "a calendar is returned for a cut stream")
	vCover("C15 long stream cut")
}

// H_C17_long: unknown properties, parameters and components that are long, many or deeply
// nested: form p1 of size p2 anywhere in a stream with component kind p0.
func H_C17_long() {
	t, at := vStream(vParam(0))
	i := at[vChoice(len(at))]
	n := vParam(2)
	x := ""
	switch vParam(1) {
	case 0:
		x = "X-A:" + strings.Repeat(vSafe(2), n) + "\r\n"
	case 1:
		x = strings.Repeat("X-A;Z=y:"+vSafe(1)+"\r\n", n)
	case 2:
		vAssume(!vInAlarm(t, i))
		for j := 0; j < n; j++ {
			x += "BEGIN:X-" + vDigits(j, 3) + "\r\nUID:x\r\n"
		}
		x += "A:" + vSafe(1) + "\r\n"
		for j := n - 1; j >= 0; j-- {
			x += "END:X-" + vDigits(j, 3) + "\r\nBEGIN:VEVENT\r\nEND:VEVENT\r\n"
		}
		x = "BEGIN:Y\r\n" + x + "END:Y\r\n"
	case 3:
		vAssume(!vInAlarm(t, i))
		x = strings.Repeat("BEGIN:X-A\r\nB:"+vSafe(1)+"\r\nEND:X-A\r\n", n)
	case 4:
		vAssume(!vInAlarm(t, i))
		x = "BEGIN:X-A\r\n" + strings.Repeat("SUMMARY;Q=\"a:b\":"+vSafe(1)+"\r\n", n) + "END:X-A\r\n"
	case 5:
		y := "X-A"
		for j := 0; j < n; j++ {
			y += ";X-" + vDigits(j, 3) + "=" + string(vLetter()) + ",\"" + string(vLetter()) + ":\""
		}
		x = y + ":z\r\n"
	case 6:
		vAssume(!vInAlarm(t, i))
		y := "X-" + strings.Repeat(string(vLetter()), n)
		z := y + "-A\r\n"
		y += "\r\n"
		x = "BEGIN:" + y + "BEGIN:" + z + "A:b\r\nEND:" + z + "BEGIN:B\r\nBEGIN:" + y + "END:" + y + "END:B\r\nEND:" + y
	case 7:
		y := "X-" + strings.Repeat(string(vLetter()), n)
		x = y + ";" + y + "=" + y + ":" + y + "\r\n"
	}
	vSkipped(t, i, x)
	vCover("C17 long")
}

// H_C17_nested: an unknown component whose name is any of p1 characters, with another one (of
// the same or another name), known components and properties inside.
func H_C17_nested() {
	t, at := vStream(vParam(0))
	i := at[vChoice(len(at))]
	vAssume(!vInAlarm(t, i))
	y := vUnknown(vParam(1))
	z := "Z"
	if vFork(vBool()) {
		z = y
	}
	x := "BEGIN:" + y + "\r\nUID:u\r\nBEGIN:" + z + "\r\nX:Y\r\nEND:" + z + "\r\nSUMMARY:s\r\nBEGIN:VALARM\r\nEND:VALARM\r\nUID:v\r\nEND:" + y + "\r\n"
	vSkipped(t, i, x)
	vCover("C17 nested")
}

// vUnknown is any name of n characters unknown to the package.
func vUnknown(n int) string {
	y := vNameOf(n)
	for _, name := range vNames {
		vAssume(len(name) != n || name == "X" || strings.ToUpper(y) != name)
	}
	return y
}

// H_C21_values: an alarm of kind p0 with every value and shape of any one field and what it needs,
// numbers having p1 digits.
func H_C21_values() {
	kind := 7 + vParam(0)
	field := vField(kind)
	vReset()
	c := vComp(kind)
	vAssume(field >= 0)
	vRich, vPickMax, vNumMode = true, 1, vParam(1)
	c.set(field)
	vReset()
	for j := 0; j < c.n && !c.ok(); j++ {
		if j != field {
			vNumMode = vParam(1)
			c.set(j)
			vReset()
		}
	}
	cal := vCal()
	c.add(cal)
	got := vDecode(vEncode(cal))
	vAssert(len(got.Event) == 1 && len(got.Event[0].Alarm) == 1, "number of alarms changed")
	vAssert(got.Event[0].Alarm[0].Type() == cal.Event[0].Alarm[0].Type(), "kind of alarm changed")
	vAssert(vEqual(got, cal), "alarm changed")
	vCover("C21 values")
}

// H_C21_many: alarms of every kind, p0 of them, starting with any.
func H_C21_many() {
	vReset()
	k := vChoice(5)
	var a []Alarm
	for i := 0; i < vParam(0); i++ {
		a = append(a, vAnAlarm((k+i*(1+i/5))%5, 0))
	}
	todo := vFork(vBool())
	cal := vPlaceAlarms(todo, a)
	got := vDecode(vEncode(cal))
	b := vAlarmsOf(got, todo)
	vAssert(len(b) == len(a), "number of alarms changed")
	for i := range a {
		vAssert(b[i].Type() == a[i].Type(), "kind of alarm changed")
		vAssert(vEqual(a[i], b[i]), "alarm changed")
	}
	vCover("C21 many")
}

// vTwice encodes cal twice.
func vTwice(cal *Calendar) {
	before := vCopy(cal)
	out := vEncode(cal)
	vAssert(vEqual(cal, before), "Encode changes the calendar")
	vAssert(vEncode(cal) == out, "the same calendar is written differently later")
	vAssert(vEqual(cal, before), "Encode changes the calendar later")
	vCover("C22 encoded twice")
}

// H_C22_lists: every list value and list parameter of component kind p0 with p1 members.
func H_C22_lists() {
	kind := vParam(0)
	vUntouched(vHost(kind, vField(kind), func() { vRich, vAll, vListLen = true, true, vParam(1) }))
}

// H_C22_rule: by-lists of p1 members, that of kind p0 with an arbitrary member.
func H_C22_rule() {
	vReset()
	vListLen = vParam(1)
	r := Recur{Frequency: Yearly}
	vLongLists(&r, vParam(0))
	vTwice(vRuleCal(r))
}

// H_C22_long: p0 letters followed by p2 copies of p1 arbitrary bytes as texts and parameters.
func H_C22_long() {
	vReset()
	_, s := vRepeated(0)
	cal := vCal()
	e := vEvent()
	e.Summary = &PropSummary{Text: Text(s)}
	e.Categories = []PropCategories{{MText: MText{"x", Text(s)}}}
	e.Attendee = []PropAttendee{vAttendee(0, s), vAttendee(4, s)}
	b := Binary(s)
	e.Attachment = []PropAttachment{{Binary: &b}}
	cal.Event = []Event{e}
	vTwice(cal)
}

var _ time.Time
