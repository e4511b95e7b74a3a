package ics

// C01: an encoded calendar decodes back to an equal calendar.

type vComponent struct {
	n       int
	set     func(int)
	repeats func(int) bool
	ok      func() bool
	add     func(*Calendar)
}

const vKinds = 11

// vComp returns a builder of the kind-th component; alarms are placed inside an event, the
// parts of a time zone inside a time zone.
func vComp(kind int) vComponent {
	yes := func() bool { return true }
	alarm := func(a AlarmType) func(*Calendar) {
		return func(c *Calendar) {
			e := gEvent()
			e.Alarm = []Alarm{{a}}
			c.Event = append(c.Event, e)
		}
	}
	switch kind {
	case 0:
		s := gEvent()
		return vComponent{vEventFields, func(i int) { vEventSet(&s, i) }, vEventRepeats,
			func() bool { return s.DateTimeEnd == nil || s.Duration == nil },
			func(c *Calendar) { c.Event = append(c.Event, s) }}
	case 1:
		s := gTodo()
		return vComponent{vTodoFields, func(i int) { vTodoSet(&s, i) }, vTodoRepeats,
			func() bool { return s.Duration == nil || s.DateTimeStart != nil && s.Due == nil },
			func(c *Calendar) { c.Todo = append(c.Todo, s) }}
	case 2:
		s := gJournal()
		return vComponent{vJournalFields, func(i int) { vJournalSet(&s, i) }, vJournalRepeats, yes,
			func(c *Calendar) { c.Journal = append(c.Journal, s) }}
	case 3:
		s := gFreeBusySection()
		return vComponent{vFreeBusyFields, func(i int) { vFreeBusySet(&s, i) }, vFreeBusyRepeats, yes,
			func(c *Calendar) { c.FreeBusy = append(c.FreeBusy, s) }}
	case 4:
		s := gTimezone()
		return vComponent{vTimezoneFields, func(i int) { vTimezoneSet(&s, i) }, vTimezoneRepeats,
			func() bool { return len(s.Standard) > 0 || len(s.Daylight) > 0 },
			func(c *Calendar) { c.Timezone = append(c.Timezone, s) }}
	case 5:
		s := gStandard()
		return vComponent{vStandardFields, func(i int) { vStandardSet(&s, i) }, vStandardRepeats, yes,
			func(c *Calendar) { c.Timezone = append(c.Timezone, Timezone{TimezoneID: "z", Standard: []Standard{s}}) }}
	case 6:
		s := gDaylight()
		return vComponent{vDaylightFields, func(i int) { vDaylightSet(&s, i) }, vDaylightRepeats, yes,
			func(c *Calendar) { c.Timezone = append(c.Timezone, Timezone{TimezoneID: "z", Daylight: []Daylight{s}}) }}
	case 7:
		s := gAlarmAudio()
		return vComponent{vAlarmAudioFields, func(i int) { vAlarmAudioSet(&s, i) }, vAlarmAudioRepeats,
			func() bool { return len(s.GeoLocation) == 0 || s.Proximity != nil }, alarm(&s)}
	case 8:
		s := gAlarmDisplay()
		return vComponent{vAlarmDisplayFields, func(i int) { vAlarmDisplaySet(&s, i) }, vAlarmDisplayRepeats,
			func() bool { return len(s.GeoLocation) == 0 || s.Proximity != nil }, alarm(&s)}
	case 9:
		s := gAlarmEmail()
		return vComponent{vAlarmEmailFields, func(i int) { vAlarmEmailSet(&s, i) }, vAlarmEmailRepeats,
			func() bool {
				return (len(s.GeoLocation) == 0 || s.Proximity != nil) && (s.Duration == nil) == (s.Repeat == nil)
			}, alarm(&s)}
	default:
		s := gAlarmURI()
		return vComponent{vAlarmURIFields, func(i int) { vAlarmURISet(&s, i) }, vAlarmURIRepeats,
			func() bool {
				return (len(s.GeoLocation) == 0 || s.Proximity != nil) && (s.Duration == nil) == (s.Repeat == nil)
			}, alarm(&s)}
	}
}

// vSelect sets k fields of c, chosen in non-decreasing order (a list field may be chosen
// several times).
func vSelect(c vComponent, k int) {
	last := 0
	for j := 0; j < k; j++ {
		i := last + vChoice(c.n-last)
		if j > 0 && i == last && !c.repeats(i) {
			vAssume(false)
		}
		c.set(i)
		last = i
	}
}

func vRound(cal *Calendar) {
	out := vEncode(cal)
	got := vDecode(out)
	vAssert(vEqual(got, cal), "calendar changed by encoding and decoding")
	vObserve("out", out)
}

// H_C01_fields: component kind p0 with every choice of p1 optional fields.
func H_C01_fields() {
	vReset()
	c := vComp(vParam(0))
	vSelect(c, vParam(1))
	vAssume(c.ok())
	cal := vCal()
	c.add(cal)
	vRound(cal)
	vCover("C01 fields round trip")
}

// H_C01_full: component kind p0 with all fields set (lists with two elements), leaving out
// one of the fields or none.
func H_C01_full() {
	vReset()
	c := vComp(vParam(0))
	skip := vChoice(c.n + 1)
	for i := 0; i < c.n; i++ {
		if i == skip {
			continue
		}
		c.set(i)
		if c.repeats(i) {
			c.set(i)
		}
	}
	vAssume(c.ok())
	cal := vCal()
	c.add(cal)
	vRound(cal)
	vCover("C01 full round trip")
}

// H_C01_counts: every number of components of each kind up to p0.
func H_C01_counts() {
	vReset()
	m := vParam(0) + 1
	cal := &Calendar{Version: gVersion(), ProductID: gProductID()}
	for k := 0; k < 5; k++ {
		for n := vChoice(m); n > 0; n-- {
			c := vComp(k)
			if k == 4 {
				c.set(c.n - 1 - n%2)
			}
			c.add(cal)
		}
	}
	vRound(cal)
	vCover("C01 component counts")
}
