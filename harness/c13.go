package ics

import (
	"bytes"
	"math"
	"net/url"
	"time"
)

// C13: Encode refuses invalid calendars and writes nothing for them.

const (
	vBadText = iota + 1
	vBadTime
	vBadEnum
	vBadOffset
	vBadDuration
	vBadPeriod
	vBadRule
	vBadGeo
	vBadCount
	vBadURI
	vBadZone
	vBadFormat
	vBadSorts
)

// vBadString holds a forbidden control character between two arbitrary bytes.
func vBadString() string {
	s := vString(3)
	vAssume(vControl(s[1]) && s[1] != '\n')
	return vPadded(s)
}

// vBadMember is outside an enumeration of n members.
func vBadMember(n int) int {
	b := vByte()
	vAssume(int(b) >= n)
	return int(b)
}

func vBadURL() url.URL {
	c := vByte()
	vAssume(vControl(c))
	switch vChoice(4) {
	case 1:
		return url.URL{Scheme: "http", Host: "h", RawQuery: "a" + string([]byte{c}) + "b"}
	case 2:
		return url.URL{Scheme: "cid", Opaque: "a#" + string([]byte{c})}
	case 3:
		return url.URL{Scheme: "1", Host: "h"}
	}
	return url.URL{Scheme: "cid", Opaque: "a" + string([]byte{c})}
}

// vBadLocation has a name that cannot be written in a TZID parameter.
func vBadLocation() *time.Location {
	c := vByte()
	vAssume(vControl(c) || c == '"' || c == ';' || c == ':' || c == ',')
	return time.FixedZone("a"+string([]byte{c})+"b", 3600)
}

func vBadInstant(l *time.Location) time.Time {
	switch vChoice(3) {
	case 1:
		return time.Date(10000, 1, 2, 3, 4, 5, 0, l)
	case 2:
		return time.Date(-1, 1, 2, 3, 4, 5, 0, l)
	}
	return time.Time{}
}

// vBadSpan mixes weeks with other parts.
func vBadSpan() Duration {
	d := Duration{Negative: vBool(), Weeks: uint(vRange(1, 99))}
	n := uint(vRange(1, 99))
	switch vChoice(4) {
	case 0:
		d.Days = n
	case 1:
		d.Hours = n
	case 2:
		d.Minutes = n
	case 3:
		d.Seconds = n
	}
	return d
}

// vBadStretch is a period that does not end after its start or ends in another zone.
func vBadStretch(l *time.Location) Period {
	s := time.Date(2021, 5, 6, 7, vRange(10, 29), 9, 0, l)
	p := Period{Start: DateTime{Time: s}}
	switch 1 + vChoice(5) {
	case 1:
		p.End.Time = time.Date(2021, 5, 6, 7, vRange(10, 29), 9, 0, l)
		vAssume(!p.End.After(s))
	case 2:
		p.Duration = Duration{Negative: true, Hours: uint(vRange(1, 9))}
	case 3:
		p.Duration = vBadSpan()
	case 4:
		p.Start.Time, p.End.Time = time.Time{}, s
	case 5:
		p.End.Time = time.Date(2021, 5, 7, 8, 10, 9, 0, vNamedZone())
		vAssume(l != vNamedZone())
	}
	return p
}

func vBadShift() int {
	n := int(vUint64())
	vAssume(n <= -360000 || n >= 360000)
	return n
}

func vBadPlace() PropGeo {
	f := math.Float64frombits(vUint64())
	vAssume(!vFinite(f))
	if vFork(vBool()) {
		return PropGeo{f, 1.5}
	}
	return PropGeo{1.5, f}
}

// vBadRecur has one part out of range.
func vBadRecur() Recur {
	r := Recur{Frequency: Daily, Interval: 2}
	b := vByte()
	n := int16(vSigned(999))
	switch vChoice(13) {
	case 0:
		vAssume(b > uint8(Yearly))
		r.Frequency = Frequency(b)
	case 1:
		r.Count, r.Until = 1, vStamp()
	case 2:
		vAssume(b > 60)
		r.BySecond = []uint8{1, b}
	case 3:
		vAssume(b > 59)
		r.ByMinute = []uint8{b, 1}
	case 4:
		vAssume(b > 23)
		r.ByHour = []uint8{1, b}
	case 5:
		vAssume(b > uint8(Saturday))
		r.ByDay = []DayRecur{{Day: Monday}, {Day: WeekDay(b)}}
	case 6:
		vAssume(!vWithin(int(int8(n)), 53) && int8(n) != 0 && n >= -128 && n <= 127)
		r.ByDay = []DayRecur{{Day: Monday, Occurrence: int8(n)}, {Day: Sunday}}
	case 7:
		vAssume(!vWithin(int(n), 31) && n >= -128 && n <= 127)
		r.ByMonthDay = []int8{int8(n), 1}
	case 8:
		vAssume(!vWithin(int(n), 366))
		r.ByYearDay = []int16{1, n}
	case 9:
		vAssume(!vWithin(int(n), 53) && n >= -128 && n <= 127)
		r.ByWeekNum = []int8{int8(n)}
	case 10:
		vAssume(b < 1 || b > 12)
		r.ByMonth = []Month{Month(b)}
	case 11:
		vAssume(!vWithin(int(n), 366))
		r.BySetPos = []int16{1, n}
	case 12:
		vAssume(b > uint8(Saturday))
		r.WeekStart = WeekDay(b)
	}
	return r
}

// vBadType is not a media type, or holds a character that may not stand in one.
func vBadType() string {
	switch vChoice(4) {
	case 1:
		return ""
	case 2:
		return "ab"
	case 3:
		return "/b"
	}
	c := vByte()
	vAssume(vControl(c) && c != '\n')
	return "a/b" + string([]byte{c})
}

// vNothing asserts that cal is refused and nothing written.
func vNothing(cal *Calendar) {
	var b bytes.Buffer
	err := Encode(&b, cal)
	vAssert(err != nil, "invalid calendar accepted")
	vAssert(b.Len() == 0, "invalid calendar partly written")
}

// vBadHost builds a calendar with one invalid value of the given sort in a field of component
// kind; the component is one of several, and the element of a list field one of two. With
// sort 0 the calendar is valid.
func vBadHost(kind, sort, at, where int) *Calendar {
	field := vField(kind)
	vReset()
	cal := vCal()
	if where == 1 {
		cal.Event = []Event{vEvent()}
	}
	vBadDone = false
	if where != 0 {
		c := vComp(kind)
		vFix(c, -1)
		c.add(cal)
	}
	bad := func() { vRich, vAll, vBad, vBadAt = true, true, sort, at }
	if field < 0 {
		bad()
	}
	c := vComp(kind)
	if field >= 0 {
		if where == 2 && c.repeats(field) {
			c.set(field)
		}
		bad()
		c.set(field)
		if where == 1 && c.repeats(field) {
			vReset()
			c.set(field)
		}
	}
	vReset()
	vFix(c, field)
	c.add(cal)
	if where == 1 {
		c := vComp(kind)
		vFix(c, -1)
		c.add(cal)
	}
	vAssume(sort == 0 || vBadDone)
	return cal
}

// H_C13_bad: one invalid value of sort p1 anywhere in component kind p0; p2 is the place of
// the component among others.
func H_C13_bad() {
	vNothing(vBadHost(vParam(0), vParam(1), vChoice(10), vParam(2)))
	vCover("C13 refused")
}

// H_C13_good: the same calendars without an invalid value.
func H_C13_good() {
	vEncode(vBadHost(vParam(0), 0, 0, vParam(1)))
	vCover("C13 accepted")
}

// H_C13_calendar: invalid texts of the calendar itself.
func H_C13_calendar() {
	cal := vCal()
	cal.Event = []Event{vEvent()}
	if vFork(vBool()) {
		cal.Version = PropVersion(vBadString())
	} else {
		cal.ProductID = PropProductID(vBadString())
	}
	vNothing(cal)
	vCover("C13 refused")
}

// H_C13_rules: every choice of two fields of component kind p0 is accepted exactly when the
// rules of the component are met. With p1 the component stands behind another one.
func H_C13_rules() {
	vReset()
	c := vComp(vParam(0))
	vSelect(c, vParam(1))
	cal := vCal()
	cal.Event = []Event{vEvent()}
	c.add(cal)
	if c.ok() {
		vEncode(cal)
		vCover("C13 rules met")
	} else {
		vNothing(cal)
		vCover("C13 rules broken")
	}
}

// H_C13_alarms: an invalid alarm, in an event or a to-do, behind a valid one.
func H_C13_alarms() {
	vReset()
	good := gAlarmAudio()
	a := []Alarm{{&good}, {}}
	switch vChoice(7) {
	case 0:
		// no alarm type at all
	case 1:
		x := gAlarmAudio()
		x.Trigger = PropTrigger{}
		a[1] = Alarm{&x}
	case 2:
		x := gAlarmDisplay()
		x.Description.Text = Text(vBadString())
		a[1] = Alarm{&x}
	case 3:
		x := gAlarmEmail()
		p := gRepeat()
		x.Repeat = &p
		a[1] = Alarm{&x}
	case 4:
		x := gAlarmURI()
		p := gPropDuration()
		x.Duration = &p
		a[1] = Alarm{&x}
	case 5:
		x := gAlarmDisplay()
		x.GeoLocation = []PropGeoLocation{gGeoLocation()}
		a[1] = Alarm{&x}
	case 6:
		x := gAlarmEmail()
		x.Summary.Text = Text(vBadString())
		a[1] = Alarm{&x}
	}
	if vFork(vBool()) {
		a[0], a[1] = a[1], a[0]
	}
	cal := vCal()
	if vFork(vBool()) {
		e := vEvent()
		e.Alarm = a
		cal.Event = []Event{vEvent(), e}
	} else {
		e := gTodo()
		e.Alarm = a
		cal.Event = []Event{vEvent()}
		cal.Todo = []Todo{e}
	}
	vNothing(cal)
	vCover("C13 alarm refused")
}
