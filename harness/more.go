package ics

import (
	"bytes"
	"errors"
	"strings"
	"time"
)

// Combinations: every value of every field, components next to one another, and calls that
// follow one another.

// vWide chooses how the generators produce values: 0 one-digit numbers, every shape and empty
// texts; 1 the same with texts of one arbitrary byte; 2 every date and time; 3 every parameter
// with one arbitrary byte; 4 texts of two arbitrary bytes; 5 integers of three digits.
func vWide(mode int) {
	vRich = true
	switch mode {
	case 0:
		vPickMax, vPicked, vNumMode, vTextMode, vEnumMode = 1, 1, 1, -1, true
	case 1:
		vPickMax, vPicked, vTextMode = 1, 1, 1
	case 2:
		vPickMax, vPicked, vTimeMode = 1, 1, true
	case 3:
		vPickMax, vParamMode, vEnumMode = 1, 1, true
	case 4:
		vPickMax, vPicked, vTextMode = 1, 1, 2
	case 5:
		vPickMax, vPicked, vNumMode, vIntMode, vEnumMode = 1, 1, 1, 3, true
	}
}

// H_C01_values: every value of every property of component kind p0, in mode p1.
func H_C01_values() {
	kind, mode := vParam(0), vParam(1)
	vRound(vHost(kind, vField(kind), func() { vWide(mode) }))
	vCover("C01 values")
}

// H_C02_values: the same, after another property of the same component.
func H_C02_values() {
	kind, mode := vParam(0), vParam(1)
	vRound(vHost(kind, vField(kind), func() { vWide(mode) }))
	vCover("C02 values")
}

// H_C13_values: the same; all these calendars are accepted.
func H_C13_values() {
	kind, mode := vParam(0), vParam(1)
	cal := vHost(kind, vField(kind), func() { vWide(mode) })
	var b bytes.Buffer
	vAssert(Encode(&b, cal) == nil, "Encode refuses a valid calendar")
	vAssert(b.Len() > 0, "Encode writes nothing")
	vCover("C13 values")
}

// vFull sets all fields of c (lists twice) that its rules allow.
func vFull(c vComponent) {
	for i := 0; i < c.n; i++ {
		c.set(i)
		if c.repeats(i) {
			c.set(i)
		}
	}
}

// vNearlyFull returns component kind with all fields but the one that excludes others.
func vNearlyFull(kind int) vComponent {
	c := vComp(kind)
	vFull(c)
	for i := 0; i < c.n && !c.ok(); i++ {
		c = vComp(kind)
		for j := 0; j < c.n; j++ {
			if j != i {
				c.set(j)
			}
		}
	}
	vAssert(c.ok(), "harness: no full component")
	return c
}

// H_C01_mixed: a component of kind p0 with all its fields, one of kind p1 with only the required
// ones, and the other way round.
func H_C01_mixed() {
	vReset()
	a, b := vParam(0), vParam(1)
	cal := vCal()
	vNearlyFull(a).add(cal)
	for _, k := range []int{b, a} {
		c := vComp(k)
		vFix(c, -1)
		c.add(cal)
	}
	vNearlyFull(b).add(cal)
	vRound(cal)
	vCover("C01 mixed components")
}

// H_C01_two: two components of kind p0 with any one field each.
func H_C01_two() {
	vReset()
	cal := vCal()
	for i := 0; i < 2; i++ {
		c := vComp(vParam(0))
		f := vChoice(c.n+1) - 1
		if f >= 0 {
			c.set(f)
		}
		vFix(c, f)
		c.add(cal)
	}
	if vParam(0) >= 7 {
		cal.Event[0].Alarm = append(cal.Event[0].Alarm, cal.Event[1].Alarm...)
		cal.Event = cal.Event[:1]
	}
	vRound(cal)
	vCover("C01 two components")
}

// H_C01_todo: an alarm of kind p0 with any p1 of its fields, or all, in a to-do.
func H_C01_todo() {
	vReset()
	c := vComp(vParam(0))
	if vParam(1) >= 0 {
		vSelect(c, vParam(1))
	} else {
		c = vNearlyFull(vParam(0))
	}
	vAssume(c.ok())
	cal := vCal()
	c.add(cal)
	t := gTodo()
	t.Alarm = []Alarm{cal.Event[0].Alarm[0], {&AlarmNone{}}}
	cal.Event = nil
	cal.Todo = []Todo{t}
	vRound(cal)
	vCover("C01 alarm in a to-do")
}

// H_C03_inside: p0 letters, p1 arbitrary bytes and p2 letters as a text and a list member.
func H_C03_inside() {
	vReset()
	s := strings.Repeat("a", vParam(0)) + vText(vParam(1)) + strings.Repeat("b", vParam(2))
	cal := vCal()
	e := vEvent()
	if vFork(vBool()) {
		e.Summary = &PropSummary{Text: Text(s)}
	} else {
		e.Categories = []PropCategories{{MText: MText{Text(s), "x"}}}
	}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C03 inside a long text")
}

// H_C04_inside: parameter p0 of p1 letters, p2 arbitrary bytes and p3 letters.
func H_C04_inside() {
	vReset()
	s := strings.Repeat("a", vParam(1)) + vText(vParam(2)) + strings.Repeat("b", vParam(3))
	cal := vCal()
	e := vEvent()
	e.Attendee = []PropAttendee{vAttendee(vParam(0), s)}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C04 inside a long parameter")
}

// H_C07_parts: every frequency with p0 other parts, each with two members or a value.
func H_C07_parts() {
	vReset()
	r := Recur{Frequency: Frequency(vChoice(7))}
	last := 0
	for j := 0; j < vParam(0); j++ {
		vAssume(last < 14)
		last += vChoice(14 - last)
		switch last {
		case 0:
			r.Count = uint64(vRange(1, 9))
		case 1:
			vAssume(r.Count == 0)
			r.Until = time.Date(2022, 1, vRange(10, 28), 0, 0, 0, 0, time.UTC)
		case 2:
			vAssume(r.Count == 0 && r.Until.IsZero())
			r.Until = time.Date(2022, 1, 2, 3, 4, vRange(10, 28), 0, time.UTC)
			r.UntilTime = true
		case 3:
			r.Interval = uint64(vRange(1, 9))
		case 4:
			r.BySecond = []uint8{uint8(vRange(10, 60)), uint8(vRange(0, 9))}
		case 5:
			r.ByMinute = []uint8{uint8(vRange(10, 59)), uint8(vRange(0, 9))}
		case 6:
			r.ByHour = []uint8{uint8(vRange(10, 23)), uint8(vRange(0, 9))}
		case 7:
			r.ByDay = []DayRecur{{Day: WeekDay(vChoice(7) + 1)}, {Day: Friday, Occurrence: int8(-vRange(1, 9))}}
		case 8:
			r.ByMonthDay = []int8{int8(-vRange(10, 31)), int8(vRange(1, 9))}
		case 9:
			r.ByYearDay = []int16{int16(200 + vRange(0, 99)), int16(-vRange(1, 9))}
		case 10:
			r.ByWeekNum = []int8{int8(vRange(10, 53)), int8(-vRange(1, 9))}
		case 11:
			r.ByMonth = []Month{Month(vRange(10, 12)), Month(vRange(1, 9))}
		case 12:
			r.BySetPos = []int16{int16(-vRange(10, 99)), int16(vRange(1, 9))}
		case 13:
			r.WeekStart = WeekDay(vChoice(7) + 1)
		}
		last++
	}
	vRound(vRuleCal(r))
	vCover("C07 parts of every frequency")
}

// vBusy uses the package for something else: encoding a full calendar with an arbitrary text,
// a calendar that is refused, one whose writer fails, decoding a calendar and one that is
// refused.
func vBusy(what int) {
	vReset()
	cal := vCal()
	cal.ProductID = "other"
	for _, k := range []int{0, 5, 9} {
		vNearlyFull(k).add(cal)
	}
	switch what {
	case 0:
		vEncode(cal)
	case 1:
		cal.Event[0].Summary.Text = Text(vBadString())
		var b bytes.Buffer
		vAssert(Encode(&b, cal) != nil, "Encode accepts a forbidden character")
	case 2:
		out := vEncode(cal)
		w := &vWriter{want: out, how: 1, room: vChoice(8) * len(out) / 8}
		vAssert(Encode(w, cal) != nil, "Encode hides the writer's failure")
	case 3:
		vDecode(vEncode(cal))
	case 4:
		out := vEncode(cal)
		_, err := Decode(strings.NewReader(out[:vChoice(8)*len(out)/8]))
		vAssert(err != nil, "Decode accepts a cut stream")
	case 5:
		out := vEncode(cal)
		_, err := Decode(&vReader{s: out[:vChoice(8)*len(out)/8], sizes: []int{100}, err: errors.New("lost")})
		vAssert(err != nil, "Decode hides the reader's failure")
	}
}

// vFirst is a calendar with component kind, one of whose fields is set or, with field n, all.
func vFirst(kind int) *Calendar {
	vReset()
	c := vComp(kind)
	f := vChoice(c.n + 1)
	if f == c.n {
		c = vNearlyFull(kind)
	} else {
		c.set(f)
		vFix(c, f)
	}
	cal := vCal()
	c.add(cal)
	return cal
}

// H_C22_between: a calendar of component kind p0 is encoded and decoded as before after another
// use of the package (p1), and what was decoded earlier is as it was.
func H_C22_between() {
	cal := vFirst(vParam(0))
	before := vCopy(cal)
	out := vEncode(cal)
	a := vDecode(out)
	vBusy(vParam(1))
	vAssert(vEqual(cal, before), "a calendar is changed by the use of another")
	vAssert(vEqual(a, cal), "a decoded calendar is changed by the use of another")
	vAssert(vEncode(cal) == out, "the same calendar is written differently later")
	b := vDecode(out)
	vAssert(vEqual(a, b), "the same bytes decode differently later")
	vAssert(!vShares(a, b), "two decoded calendars share memory")
	vCover("C22 in between")
}

// H_C14_between: a failing writer does not affect what another writer gets later: calendar of
// component kind p0.
func H_C14_between() {
	cal := vFirst(vParam(0))
	out := vEncode(cal)
	for i := 0; i < 2; i++ {
		w := &vWriter{want: out, how: vChoice(3), room: (2*vChoice(4) + i) * len(out) / 8}
		err := Encode(w, cal)
		vAssert(errors.Is(err, vBroken), "Encode hides the writer's failure")
	}
	var b bytes.Buffer
	vAssert(Encode(&b, cal) == nil, "Encode fails although the writer does not")
	vAssert(b.String() == out, "the output is different after a failure")
	vCover("C14 later")
}

// H_C16_parts: component kind p0 (an event, a to-do or a time zone) with p1 properties in any
// order and repetition among its sub-components.
func H_C16_parts() {
	s := vSpecOf(vParam(0))
	l := &vLines{s: &s, count: make([]int, len(s.props))}
	subs := []string{vPart("STANDARD"), vPart("DAYLIGHT")}
	if vParam(0) < 4 {
		subs = []string{"BEGIN:VALARM\r\nACTION:NONE\r\nEND:VALARM\r\n", "BEGIN:VALARM\r\nTRIGGER:PT5M\r\nACTION:AUDIO\r\nEND:VALARM\r\n"}
	}
	var items []int
	for i, p := range s.props {
		if p.req {
			items = append(items, i)
		}
	}
	drop := vChoice(len(items) + 1)
	place := vChoice(len(items) + 1)
	for i := 0; i <= len(items); i++ {
		if i == place {
			for j := 0; j <= vParam(1); j++ {
				if j > 0 {
					l.add(vChoice(len(s.props)))
				}
				l.text += subs[j%2]
				l.parts++
			}
		}
		if i < len(items) && i != drop {
			l.add(items[i])
		}
	}
	l.judge()
}

// H_C16_different: component kind p0 with a property repeated with another value or parameter
// (p1), next to the first or at the end.
func H_C16_different() {
	s := vSpecOf(vParam(0))
	l := &vLines{s: &s, count: make([]int, len(s.props))}
	which := vChoice(len(s.props))
	p := s.props[which]
	l.text = s.complete(p.name)
	for i, q := range s.props {
		if q.req && i != which {
			l.count[i]++
		}
		for _, n := range s.needs {
			if n[0] == p.name && n[1] == q.name && !q.req {
				l.count[i]++
			}
		}
	}
	l.parts = 1
	l.add(which)
	l.count[which]++
	sep := ""
	if vFork(vBool()) {
		sep = "X-OTHER:y\r\n"
	}
	switch vParam(1) {
	case 0:
		l.text += sep + p.name + ";X-A=b" + p.tail + "\r\n"
	case 1:
		l.text += sep + strings.ToLower(p.name) + p.tail + "\r\n"
	case 2:
		l.text += sep + p.name + vOther(p.name, p.tail) + "\r\n"
	case 3:
		l.text = p.name + vOther(p.name, p.tail) + "\r\n" + sep + l.text
	}
	l.judge()
}

// vOther is another remainder of the line of a property.
func vOther(name, tail string) string {
	switch name {
	case "VERSION", "ACTION":
		return tail
	case "CLASS":
		return ":PUBLIC"
	case "STATUS":
		return tail
	case "TRANSP":
		return ":TRANSPARENT"
	case "DEFAULT-ALARM":
		return ":FALSE"
	case "GEO":
		return ":-7;8.5"
	case "DURATION", "TRIGGER":
		return ":PT7M"
	case "RRULE":
		return ":FREQ=DAILY"
	case "TZOFFSETTO", "TZOFFSETFROM":
		return ":+0000"
	case "PERCENT-COMPLETE", "PRIORITY", "SEQUENCE", "REPEAT":
		return ":0"
	case "DTSTART", "DTEND", "DUE", "RECURRENCE-ID", "EXDATE", "RDATE":
		return ";VALUE=DATE:20210304"
	case "DTSTAMP", "COMPLETED", "CREATED", "LAST-MODIFIED", "LAST-TRIGGERED", "ACKNOWLEDGED":
		return ":20210304T050607Z"
	case "ATTACH", "URL", "URI", "TZURL", "GEO-LOCATION", "ORGANIZER", "ATTENDEE":
		return ":cid:k"
	case "FREEBUSY":
		return ":20210203T040506Z/PT5M"
	}
	return ":w"
}

// vFitting is a value that suits the parameter.
func vFitting(name string) string {
	switch name {
	case "ALTREP", "DELEGATED-FROM", "DELEGATED-TO", "DIR", "MEMBER", "SENT-BY", "URI":
		return "\"cid:a\""
	case "CUTYPE":
		return "ROOM"
	case "ENCODING":
		return "BASE64"
	case "FMTTYPE":
		return "a/b"
	case "FBTYPE":
		return "FREE"
	case "PARTSTAT":
		return "ACCEPTED"
	case "RANGE":
		return "THISANDFUTURE"
	case "RELATED":
		return "END"
	case "RELTYPE":
		return "CHILD"
	case "ROLE":
		return "CHAIR"
	case "RSVP":
		return "FALSE"
	case "TZID":
		return "America/New_York"
	case "VALUE":
		return [...]string{"DATE", "BINARY", "PERIOD", "DATE-TIME"}[vChoice(4)]
	}
	return "a"
}

// H_C18_twice: each property of component kind p0 with each parameter twice, one of them having
// p1 arbitrary bytes.
func H_C18_twice() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	n := vParamNames[vChoice(len(vParamNames))]
	v := vFitting(n)
	w := vUBytes(vParam(1))
	if vFork(vBool()) {
		vAgain(vInto(&s, &p, ";"+n+"="+v+";"+n+"="+w+p.tail))
	} else {
		vAgain(vInto(&s, &p, ";"+n+"=\""+w+"\";"+n+"="+v+p.tail))
	}
}

// H_C11_twice: the same, for any outcome.
func H_C11_twice() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	n := vParamNames[vChoice(len(vParamNames))]
	v := vString(vParam(1))
	vTotal(vInto(&s, &p, ";"+n+"=\"a\",\"b\";"+n+"="+v+p.tail))
}

// H_C10_idle: reads of p2 bytes of a stream with line p0 and p1 arbitrary bytes, some of which
// deliver nothing.
func H_C10_idle() {
	s := vHead + vFoldLine(vParam(0), vParam(1)) + "\r\n" + vTail
	if vFork(vBool()) {
		i := len(vHead) + 1 + vChoice(8)
		s = s[:i] + "\r\n " + s[i:]
	}
	vSameResult(s, &vReader{s: s, sizes: []int{vParam(2)}, idle: 2 + vChoice(2), eof: vFork(vBool())})
	vCover("C10 idle reads")
}

// H_C01_pairs: every value of every property of component kind p0, in mode p1, next to any other
// property.
func H_C01_pairs() {
	kind := vParam(0)
	f := vField(kind)
	vReset()
	c := vComp(kind)
	vAssume(f >= 0)
	o := vChoice(c.n)
	c.set(o)
	vWide(vParam(1))
	c.set(f)
	vReset()
	vFix(c, f)
	cal := vCal()
	c.add(cal)
	vRound(cal)
	vCover("C01 pairs of values")
}

// H_C13_many: an invalid value of sort p1 in any one of p2 values of each list property of
// component kind p0.
func H_C13_many() {
	vReset()
	kind, n := vParam(0), vParam(2)
	c := vComp(kind)
	i := vChoice(c.n)
	vAssume(c.repeats(i))
	at := vChoice(n)
	for j := 0; j < n; j++ {
		if j == at {
			vBadDone = false
			vRich, vAll, vBad = true, true, vParam(1)
			c.set(i)
			vAssume(vBadDone)
			vReset()
		} else {
			c.set(i)
		}
	}
	vFix(c, i)
	cal := vCal()
	c.add(cal)
	vNothing(cal)
	vCover("C13 refused")
}

// H_C13_components: an invalid text, time or combination in any one of p1 components of kind p0.
func H_C13_components() {
	vReset()
	kind, n := vParam(0), vParam(1)
	at := vChoice(n)
	cal := vCal()
	for j := 0; j < n; j++ {
		c := vComp(kind)
		vFix(c, -1)
		if j == at {
			f := vChoice(c.n)
			vBadDone = false
			vRich, vAll, vBad = true, true, [...]int{vBadText, vBadTime}[vChoice(2)]
			c.set(f)
			vAssume(vBadDone)
			vReset()
		}
		c.add(cal)
	}
	if kind >= 7 {
		for i := 1; i < len(cal.Event); i++ {
			cal.Event[0].Alarm = append(cal.Event[0].Alarm, cal.Event[i].Alarm...)
		}
		cal.Event = cal.Event[:1]
		if vFork(vBool()) {
			t := gTodo()
			t.Alarm = cal.Event[0].Alarm
			cal.Event, cal.Todo = nil, []Todo{t}
		}
	}
	vNothing(cal)
	vCover("C13 refused")
}

// H_C22_values: every value of every property of component kind p0, in mode p1.
func H_C22_values() {
	kind, mode := vParam(0), vParam(1)
	vTwice(vHost(kind, vField(kind), func() { vWide(mode) }))
}

// vWords is every property of component kind p0 with all parameters, all words having p1
// characters that need no escapes.
func vWords() *Calendar {
	kind, n := vParam(0), vParam(1)
	return vHost(kind, vField(kind), func() { vAll, vPlainMode, vWordLen = true, true, n })
}

// H_C01_words: every property with words of p1 plain characters.
func H_C01_words() {
	vRound(vWords())
	vCover("C01 words")
}

// H_C02_words: the same with every choice of alternatives, one parameter at a time.
func H_C02_words() {
	kind, n := vParam(0), vParam(1)
	vRound(vHost(kind, vField(kind), func() { vRich, vPickMax, vPlainMode, vWordLen = true, 1, true, n }))
	vCover("C02 words")
}

// H_C13_words: calendars with such words are accepted.
func H_C13_words() {
	var b bytes.Buffer
	vAssert(Encode(&b, vWords()) == nil, "Encode refuses a valid calendar")
	vCover("C13 words")
}

// H_C22_words: calendars with such words are left alone.
func H_C22_words() { vTwice(vWords()) }

// H_C12_deep: an arbitrary byte behind p1 and before p2 letters as each string of every property
// of component kind p0.
func H_C12_deep() {
	kind, before, behind := vParam(0), vParam(1), vParam(2)
	field := vField(kind)
	at, way := vChoice(12), vChoice(2)
	host := func(n int) *Calendar {
		vRawDone = false
		cal := vHost(kind, field, func() {
			vAll, vRawLen, vRawAt, vZoneRaw, vURIWay, vBefore, vBehind = true, n, at, true, way, before, behind
		})
		vAssume(vRawDone)
		return cal
	}
	vInject(host(1), host(-1))
}

// H_C03_deep: an arbitrary byte behind p1 and before p2 letters in every text of component kind p0.
func H_C03_deep() {
	kind := vParam(0)
	vRound(vHost(kind, vField(kind), func() { vTextMode, vBefore, vBehind = 1, vParam(1), vParam(2) }))
	vCover("C03 every text property")
}

// H_C04_deep: the same in every string parameter, one at a time.
func H_C04_deep() {
	kind := vParam(0)
	vRound(vHost(kind, vField(kind), func() {
		vRich, vPickMax, vParamMode, vBefore, vBehind = true, 1, 1, vParam(1), vParam(2)
	}))
	vCover("C04 every string parameter")
}

// H_C13_deep: a forbidden character behind p1 and before p2 letters in every text of kind p0.
func H_C13_deep() {
	kind := vParam(0)
	field := vField(kind)
	vReset()
	cal := vCal()
	at := vChoice(10)
	vBadDone = false
	bad := func() {
		vRich, vAll, vBad, vBadAt, vBefore, vBehind = true, true, vBadText, at, vParam(1), vParam(2)
	}
	if field < 0 {
		bad()
	}
	c := vComp(kind)
	if field >= 0 {
		bad()
		c.set(field)
	}
	vReset()
	vFix(c, field)
	vAssume(vBadDone)
	c.add(cal)
	vNothing(cal)
	vCover("C13 refused")
}

// vName returns n symbolic upper-case letters, with hyphens among the first of them.
func vName(n int) string {
	b := make([]byte, n)
	for i := range b {
		c, other := vByte(), byte('A')
		if 0 < i && i < 6 {
			other = '-'
		}
		vAssume(c-'A' < 26 || c == other)
		b[i] = c
	}
	return string(b)
}

// H_C18_names: each property of component kind p0 with a name of p1 characters as its value.
func H_C18_names() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	vAgain(vInto(&s, &p, ":"+vName(vParam(1))))
}

// H_C18_paramnames: each property of component kind p0 with a name as the value of each parameter.
func H_C18_paramnames() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	vAgain(vInto(&s, &p, ";"+vParamNames[vChoice(len(vParamNames))]+"="+vName(vParam(1))+p.tail))
}

// H_C11_names: each property of component kind p0 with a name of p1 characters as its value and
// as the value of each parameter.
func H_C11_names() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	if i := vChoice(len(vParamNames) + 1); i > 0 {
		vTotal(vInto(&s, &p, ";"+vParamNames[i-1]+"="+vName(vParam(1))+p.tail))
	} else {
		vTotal(vInto(&s, &p, ":"+vName(vParam(1))))
	}
}

// vRuns returns the sample line of a property of component kind with an arbitrary byte, behind
// a comma when list is set, n times at any position.
func vRuns(kind, n int, list bool) string {
	s := vSpecOf(kind)
	p := s.props[vChoice(len(s.props))]
	i := vChoice(len(p.tail) + 1)
	x := vString(1)
	if list {
		x = "," + x
	}
	r := ""
	for ; n > 0; n-- {
		r += x
	}
	return vInto(&s, &p, p.tail[:i]+r+p.tail[i:])
}

// H_C11_runs: each property of component kind p0 with an arbitrary byte p1 times at any position
// of its sample line, each behind a comma if p2 is 1.
func H_C11_runs() {
	vTotal(vRuns(vParam(0), vParam(1), vParam(2) == 1))
}

// H_C18_runs: the same with what is accepted being encoded and decoded again.
func H_C18_runs() {
	s := vRuns(vParam(0), vParam(1), vParam(2) == 1)
	vAssume(vUTF8(s))
	vAgain(s)
}
