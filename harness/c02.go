package ics

import (
	"bytes"
	"time"
)

// C02: every property keeps its value, value type and parameters.

// vFix adds fields to c, other than the one given, until its own rules are met.
func vFix(c vComponent, but int) {
	for j := 0; j < c.n && !c.ok(); j++ {
		if j != but {
			c.set(j)
		}
	}
	vAssume(c.ok())
}

// vHost builds a calendar whose kind-th component has its i-th optional field set (or, for
// i < 0, its required ones) from the generators' current mode, everything else being plain.
func vHost(kind, i int, mode func()) *Calendar {
	vReset()
	cal := vCal()
	if i < 0 {
		mode()
	}
	c := vComp(kind)
	if i >= 0 {
		mode()
		c.set(i)
	}
	vReset()
	vFix(c, i)
	c.add(cal)
	return cal
}

// vField chooses a field of component kind.
func vField(kind int) int {
	vReset()
	return vChoice(vComp(kind).n+1) - 1
}

// H_C02_shapes: every shape of every property of component kind p0, with at most p1 optional
// parameters at a time and every member of enumerations.
func H_C02_shapes() {
	kind, most := vParam(0), vParam(1)
	cal := vHost(kind, vField(kind), func() { vRich, vEnumMode, vPickMax = true, true, most })
	vRound(cal)
	vCover("C02 shapes")
}

// H_C02_subsets: every subset of the parameters of every property of component kind p0.
func H_C02_subsets() {
	kind := vParam(0)
	cal := vHost(kind, vField(kind), func() { vRich = true })
	vRound(cal)
	vCover("C02 subsets")
}

// H_C02_alternatives: a property with alternative value types is accepted only with exactly one.
func H_C02_alternatives() {
	vReset()
	e := gEvent()
	start := gDateTimeStart()
	e.DateTimeStart = &start
	dt, d := vFork(vBool()), vFork(vBool())
	n := 0
	var pdt *DateTime
	var pd *Date
	if dt {
		x := gDateTime()
		pdt = &x
		n++
	}
	if d {
		x := gDate()
		pd = &x
		n++
	}
	cal := vCal()
	switch vChoice(9) {
	case 0:
		e.DateTimeStart = &PropDateTimeStart{DateTime: pdt, Date: pd}
	case 1:
		e.DateTimeEnd = &PropDateTimeEnd{DateTime: pdt, Date: pd}
	case 2:
		e.ExceptionDateTime = []PropExceptionDateTime{{DateTime: pdt, Date: pd}}
	case 3:
		e.RecurrenceID = &PropRecurrenceID{DateTime: pdt, Date: pd}
	case 4:
		r := PropRecurrenceDateTimes{DateTime: pdt, Date: pd}
		if vFork(vBool()) {
			p := gPeriod()
			r.Period = &p
			n++
		}
		e.RecurrenceDateTimes = []PropRecurrenceDateTimes{r}
	case 5:
		var a PropAttachment
		if dt {
			u := gURI()
			a.URI = &u
		}
		if d {
			a.Binary = &Binary{vByte()}
		}
		e.Attachment = []PropAttachment{a}
	case 6:
		a := gAlarmDisplay()
		a.Trigger = PropTrigger{DateTime: pdt}
		if d {
			x := gDuration()
			a.Trigger.Duration = &x
		}
		e.Alarm = []Alarm{{&a}}
	case 7:
		t := gTodo()
		t.Due = &PropDue{DateTime: pdt, Date: pd}
		cal.Todo = []Todo{t}
	default:
		s := gStandard()
		s.DateTimeStart = PropDateTimeStart{DateTime: pdt, Date: pd}
		cal.Timezone = []Timezone{{TimezoneID: "z", Standard: []Standard{s}}}
	}
	cal.Event = []Event{e}
	var b bytes.Buffer
	err := Encode(&b, cal)
	if n == 1 {
		vAssert(err == nil, "Encode refuses a property with one value")
		vAssert(vEqual(vDecode(b.String()), cal), "value changed")
		vCover("C02 one alternative")
	} else {
		vAssert(err != nil, "Encode accepts a property without exactly one value")
		vAssert(b.Len() == 0, "Encode wrote a refused calendar")
		vCover("C02 wrong number of alternatives")
	}
}

var _ time.Time
