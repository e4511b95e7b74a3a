package ics

import (
	"bytes"
	"strings"
	"time"
)

// C05: dates, date-times and periods.

func vZoneOf(i int) *time.Location {
	switch i {
	case 0:
		return time.UTC
	case 1:
		return time.Local
	}
	return vNamedZone()
}

// vOutLine returns the unfolded line of out that starts with name (followed by ; or :).
func vOutLine(out, name string) string {
	out = strings.ReplaceAll(out, "\r\n ", "")
	for _, l := range strings.Split(out, "\r\n") {
		if strings.HasPrefix(l, name+":") || strings.HasPrefix(l, name+";") {
			return l
		}
	}
	return ""
}

func vDigits(n, width int) string {
	b := make([]byte, width)
	for i := width - 1; i >= 0; i-- {
		b[i] = '0' + byte(n%10)
		n /= 10
	}
	return string(b)
}

// H_C05_datetime: every date-time in zone p0 is written in the form of its zone kind and read
// back, and the written form is read as that date-time.
func H_C05_datetime() {
	vReset()
	l := vZoneOf(vParam(0))
	y, m, d := vCivil()
	hh, mm, ss := vRange(0, 23), vRange(0, 59), vRange(0, 59)
	cal := vCal()
	e := vEvent()
	t := time.Date(y, m, d, hh, mm, ss, 0, l)
	e.DateTimeStart = &PropDateTimeStart{DateTime: &DateTime{Time: t}}
	cal.Event = []Event{e}
	out := vEncode(cal)
	got := vDecode(out)
	vAssert(vEqual(got, cal), "date-time changed")
	line := vOutLine(out, "DTSTART")
	text := vDigits(y, 4) + vDigits(int(m), 2) + vDigits(d, 2) + "T" + vDigits(hh, 2) + vDigits(mm, 2) + vDigits(ss, 2)
	if vParam(0) == 0 {
		text += "Z"
	}
	vAssert(strings.HasSuffix(line, ":"+text), "date-time written wrongly")
	tz := strings.Contains(line, "TZID=America/New_York") || strings.Contains(line, "TZID=\"America/New_York\"")
	vAssert(tz == (vParam(0) == 2), "zone parameter")
	vAssert(strings.Contains(line, "TZID") == (vParam(0) == 2), "zone parameter written for UTC or local time")
	vCover("C05 date-time")
}

// H_C05_date: every date, given in zone p0.
func H_C05_date() {
	vReset()
	y, m, d := vCivil()
	cal := vCal()
	e := vEvent()
	e.DateTimeStart = &PropDateTimeStart{Date: &Date{Time: time.Date(y, m, d, 0, 0, 0, 0, vZoneOf(vParam(0)))}}
	cal.Event = []Event{e}
	out := vEncode(cal)
	got := vDecode(out)
	vAssert(len(got.Event) == 1 && got.Event[0].DateTimeStart != nil, "start lost")
	g := got.Event[0].DateTimeStart
	vAssert(g.Date != nil && g.DateTime == nil, "date became a date-time")
	gy, gm, gd := g.Date.Date()
	vAssert(gy == y && gm == m && gd == d, "date changed")
	line := vOutLine(out, "DTSTART")
	vAssert(strings.HasSuffix(line, ":"+vDigits(y, 4)+vDigits(int(m), 2)+vDigits(d, 2)), "date written wrongly")
	vAssert(strings.Contains(line, ";VALUE=DATE:"), "date not labelled")
	vCover("C05 date")
}

// H_C05_period: every period in zone p0 with an explicit end; accepted exactly when the end is
// after the start.
func H_C05_period() {
	vReset()
	l := vZoneOf(vParam(0))
	s, t := vAnyTime(l), vAnyTime(l)
	cal := vCal()
	e := vEvent()
	e.RecurrenceDateTimes = []PropRecurrenceDateTimes{{Period: &Period{Start: DateTime{Time: s}, End: DateTime{Time: t}}}}
	cal.Event = []Event{e}
	var b bytes.Buffer
	err := Encode(&b, cal)
	if !vFork(t.After(s)) {
		vAssert(err != nil, "Encode accepts a period that ends before it starts")
		vCover("C05 period refused")
		return
	}
	vAssert(err == nil, "Encode refuses a period")
	vAssert(vEqual(vDecode(b.String()), cal), "period changed")
	vCover("C05 period")
}

// H_C05_perioddur: every period in zone p0 with a duration of p1 digits per part.
func H_C05_perioddur() {
	vReset()
	l := vZoneOf(vParam(0))
	vNumMode = vParam(1)
	p := Period{Start: DateTime{Time: vAnyTime(l)}}
	if vFork(vBool()) {
		p.Duration.Weeks = uint(vNum(0, 0))
	} else {
		p.Duration = Duration{Days: uint(vNum(0, 0)), Hours: uint(vNum(0, 0)), Minutes: uint(vNum(0, 0)), Seconds: uint(vNum(0, 0))}
	}
	p.Duration.Negative = vFork(vBool())
	cal := vCal()
	f := vFreeBusy()
	f.FreeBusy = []PropFreeBusy{{Period: p}}
	cal.FreeBusy = []FreeBusy{f}
	var b bytes.Buffer
	err := Encode(&b, cal)
	if p.Duration.Negative {
		vAssert(err != nil, "Encode accepts a period of negative duration")
		vCover("C05 negative period refused")
		return
	}
	vAssert(err == nil, "Encode refuses a period")
	vAssert(vEqual(vDecode(b.String()), cal), "period changed")
	vCover("C05 period with duration")
}

func vFreeBusy() FreeBusy {
	return FreeBusy{DateTimeStamp: PropDateTimeStamp{Time: vStamp()}, UID: "u"}
}

// H_C05_perioddecode: a written period is accepted exactly when its end is after its start.
func H_C05_perioddecode() {
	vReset()
	s, t := vAnyTime(time.UTC), vAnyTime(time.UTC)
	text := s.Format("20060102T150405") + "Z/" + t.Format("20060102T150405") + "Z"
	e, err := vDecodeLine("RDATE;VALUE=PERIOD:" + text)
	if !vFork(t.After(s)) {
		vAssert(err != nil, "Decode accepts a period that ends before it starts")
		vCover("C05 written period refused")
		return
	}
	vAssert(err == nil, "Decode refuses a period")
	vAssert(len(e.RecurrenceDateTimes) == 1 && e.RecurrenceDateTimes[0].Period != nil, "period lost")
	p := e.RecurrenceDateTimes[0].Period
	vAssert(p.Start.Equal(s) && p.End.Equal(t), "period read wrongly")
	vCover("C05 written period")
}

// H_C05_hosts: every time in every property of component kind p0.
func H_C05_hosts() {
	kind := vParam(0)
	cal := vHost(kind, vField(kind), func() { vRich, vPickMax, vTimeMode = true, 1, true; vPicked = 1 })
	vRound(cal)
	vCover("C05 every time property")
}

// vZoneNames are zones of every sort: east, west and on the meridian, with and without
// daylight saving, of whole and part hours, with plain and with nested names.
var vZoneNames = [...]string{"Europe/London", "Asia/Kathmandu", "Africa/Abidjan", "GMT", "CET", "Etc/GMT+5", "Etc/GMT-3", "America/Argentina/Buenos_Aires", "Australia/Lord_Howe", "US/Eastern", "Pacific/Apia", "Atlantic/Reykjavik", "Etc/UTC", "Asia/Tokyo"}

// H_C05_zone: every time of day of every day of the year p1 in the zone p0, but for the hours
// in which clocks are changed, as a date-time, a period and the end of a rule.
func H_C05_zone() {
	vReset()
	name := vZoneNames[vParam(0)]
	l, err := time.LoadLocation(name)
	vAssert(err == nil, "no such zone")
	m, d, hh, mm, ss := vRange(1, 12), vRange(1, 31), vRange(4, 21), vRange(0, 59), vRange(0, 59)
	vAssume(d <= 28 || m != 2 && (d <= 30 || m != 4 && m != 6 && m != 9 && m != 11))
	t := time.Date(vParam(1), time.Month(m), d, hh, mm, ss, 0, l)
	cal := vCal()
	e := vEvent()
	e.DateTimeStart = &PropDateTimeStart{DateTime: &DateTime{Time: t}}
	e.RecurrenceDateTimes = []PropRecurrenceDateTimes{{Period: &Period{Start: DateTime{Time: t}, Duration: Duration{Hours: 1}}}}
	cal.Event = []Event{e}
	out := vEncode(cal)
	vAssert(vEqual(vDecode(out), cal), "date-time changed")
	text := vDigits(vParam(1), 4) + vDigits(m, 2) + vDigits(d, 2) + "T" + vDigits(hh, 2) + vDigits(mm, 2) + vDigits(ss, 2)
	line := vOutLine(out, "DTSTART")
	vAssert(strings.HasSuffix(line, ":"+text), "date-time written wrongly")
	vAssert(strings.Contains(line, "TZID="+name+":") || strings.Contains(line, "TZID=\""+name+"\":"), "zone parameter")
	line = vOutLine(out, "RDATE")
	vAssert(strings.HasSuffix(line, ":"+text+"/PT1H"), "period written wrongly")
	vAssert(strings.Contains(line, "TZID="+name) || strings.Contains(line, "TZID=\""+name+"\""), "zone parameter of the period")
	vCover("C05 zone")
}
