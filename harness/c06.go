package ics

import (
	"bytes"
	"math"
)

// C06: durations, offsets, integers, booleans and coordinates keep their value.

// vUint returns an arbitrary number of up to d decimal digits; 20 digits means all of uint64.
func vUint(d int) uint {
	if d >= 20 {
		if vFork(vBool()) {
			return 10000000000000000000 + uint(vRange(0, 8446744073709551615))
		}
		d = 19
	}
	if d == 19 {
		return uint(vRange(0, 99))*100000000000000000 + uint(vRange(0, 99999999999999999))
	}
	m := 1
	for i := 0; i < d; i++ {
		m *= 10
	}
	return uint(vRange(0, m-1))
}

func vRefused(cal *Calendar) bool {
	var b bytes.Buffer
	return Encode(&b, cal) != nil
}

func vDuration(d Duration) {
	cal := vCal()
	e := vEvent()
	p := PropDuration(d)
	e.Duration = &p
	cal.Event = []Event{e}
	if vFork(d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0)) {
		vAssert(vRefused(cal), "duration with weeks and other parts accepted")
		vCover("C06 weeks with other parts refused")
		return
	}
	vRound(cal)
	vCover("C06 duration")
}

// H_C06_duration: part p0 has up to p1 digits, the others one.
func H_C06_duration() {
	vReset()
	n := [5]uint{}
	for i := range n {
		if i == vParam(0) {
			n[i] = vUint(vParam(1))
		} else {
			n[i] = uint(vRange(0, 9))
		}
	}
	vDuration(Duration{Negative: vBool(), Weeks: n[0], Days: n[1], Hours: n[2], Minutes: n[3], Seconds: n[4]})
}

// H_C06_parts: every part has up to p0 digits.
func H_C06_parts() {
	vReset()
	d := vParam(0)
	vDuration(Duration{Negative: vBool(), Weeks: vUint(d), Days: vUint(d), Hours: vUint(d), Minutes: vUint(d), Seconds: vUint(d)})
}

func vOffsetCal(from, to int) *Calendar {
	cal := vCal()
	s := Standard{DateTimeStart: PropDateTimeStart{DateTime: &DateTime{Time: vStamp()}}}
	s.TimezoneOffsetFrom = PropTimezoneOffsetFrom(from)
	s.TimezoneOffsetTo = PropTimezoneOffsetTo(to)
	cal.Timezone = []Timezone{{TimezoneID: "z", Standard: []Standard{s}}}
	return cal
}

func vAnyOffset() int {
	n := vRange(0, 99)*3600 + vRange(0, 59)*60 + vRange(0, 59)
	if vFork(vBool()) {
		return -n
	}
	return n
}

// H_C06_offset: every offset that fits two hour digits survives.
func H_C06_offset() {
	vReset()
	vRound(vOffsetCal(vAnyOffset(), vAnyOffset()))
	vCover("C06 offset")
}

// H_C06_offsetrange: every other offset is refused.
func H_C06_offsetrange() {
	vReset()
	n := int(vUint64())
	vAssume(n <= -360000 || n >= 360000)
	from, to := n, 3600
	if vFork(vBool()) {
		from, to = to, from
	}
	vAssert(vRefused(vOffsetCal(from, to)), "offset of 100 hours or more accepted")
	vCover("C06 offset refused")
}

// H_C06_integer: every integer survives in each integer property.
func H_C06_integer() {
	vReset()
	cal := vCal()
	n := vRange(0, 2147483648)
	if vFork(vBool()) {
		n = -n
	} else {
		vAssume(n <= 2147483647)
	}
	t := Todo{DateTimeStamp: PropDateTimeStamp{Time: vStamp()}, UID: "u"}
	switch vChoice(3) {
	case 0:
		p := PropPercentComplete(n)
		t.PercentComplete = &p
	case 1:
		p := PropPriority(n)
		t.Priority = &p
	case 2:
		p := PropSequence(n)
		t.Sequence = &p
	}
	cal.Todo = []Todo{t}
	vRound(cal)
	vCover("C06 integer")
}

// H_C06_boolean: both values of a boolean parameter.
func H_C06_boolean() {
	vReset()
	cal := vCal()
	e := vEvent()
	a := vAttendee(0, "n")
	if vFork(vBool()) {
		a.RSVP = NewRSVP(true)
	}
	e.Attendee = []PropAttendee{a}
	cal.Event = []Event{e}
	vRound(cal)
	vCover("C06 boolean")
}

func vFinite(f float64) bool {
	return math.Float64bits(f)>>52&0x7FF != 0x7FF
}

// H_C06_geo: every pair of finite coordinates survives, all others are refused.
func H_C06_geo() {
	vReset()
	a, b := math.Float64frombits(vUint64()), math.Float64frombits(vUint64())
	cal := vCal()
	e := vEvent()
	e.Geo = &PropGeo{a, b}
	cal.Event = []Event{e}
	if vFork(vFinite(a) && vFinite(b)) {
		vRound(cal)
		vCover("C06 coordinates")
	} else {
		vAssert(vRefused(cal), "coordinate that is not finite accepted")
		vCover("C06 coordinates refused")
	}
}

// H_C06_hosts: numbers of up to p1 digits in every property of component kind p0.
func H_C06_hosts() {
	kind, n := vParam(0), vParam(1)
	cal := vHost(kind, vField(kind), func() { vRich, vPickMax, vNumMode = true, 1, n })
	vRound(cal)
	vCover("C06 every property")
}
