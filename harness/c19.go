package ics

import (
	"strings"
	"time"
)

// C19: value texts. Each reader below follows the grammar of RFC 5545 and says what a text is:
// outside the grammar, within it, or not decided by the property.

const (
	vNo = iota
	vYes
	vEither
)

func vDigit(c byte) bool { return vFork(c >= '0' && c <= '9') }

// vNumber reads the digits at the front of s; over says that the number is past the limit.
func vNumber(s string, limit uint64) (n uint64, digits int, over bool) {
	for digits < len(s) && vDigit(s[digits]) {
		d := uint64(s[digits] - '0')
		if digits >= 18 && vFork(n > (limit-d)/10) {
			over = true
		}
		n = n*10 + d
		digits++
	}
	return n, digits, over || digits < 19 && vFork(n > limit)
}

const vMaxUint = 18446744073709551615

// vReadDuration: dur-value.
func vReadDuration(s string) (d Duration, verdict int) {
	if len(s) > 0 {
		if vFork(s[0] == '-') {
			d.Negative = true
			s = s[1:]
		} else if vFork(s[0] == '+') {
			s = s[1:]
		}
	}
	if len(s) == 0 {
		return d, vNo
	}
	verdict = vYes
	if !vFork(s[0] == 'P') {
		if !vFork(s[0] == 'p') {
			return d, vNo
		}
		verdict = vEither
	}
	s = s[1:]
	parts, inTime, last := 0, false, byte(0)
	for len(s) > 0 {
		if !inTime && vFork(s[0] == 'T' || s[0] == 't') {
			if vFork(s[0] == 't') {
				verdict = vEither
			}
			inTime, parts = true, 0
			s = s[1:]
			continue
		}
		n, digits, over := vNumber(s, vMaxUint)
		if digits == 0 || digits == len(s) || over {
			return d, vNo
		}
		unit := s[digits]
		s = s[digits+1:]
		if vFork(unit >= 'a' && unit <= 'z') {
			unit -= 'a' - 'A'
			verdict = vEither
		}
		parts++
		switch {
		case vFork(unit == 'W'):
			if inTime || last != 0 || len(s) > 0 {
				return d, vNo
			}
			d.Weeks = uint(n)
			last = 'W'
		case vFork(unit == 'D'):
			if inTime || last != 0 {
				return d, vNo
			}
			d.Days = uint(n)
			last = 'D'
		case vFork(unit == 'H'):
			if !inTime || last != 0 && last != 'D' {
				return d, vNo
			}
			d.Hours = uint(n)
			last = 'H'
		case vFork(unit == 'M'):
			if !inTime || last == 'M' || last == 'S' || last == 'W' {
				return d, vNo
			}
			d.Minutes = uint(n)
			last = 'M'
		case vFork(unit == 'S'):
			if !inTime || last == 'S' || last == 'W' {
				return d, vNo
			}
			if last == 'H' {
				verdict = vEither // the grammar wants the minutes
			}
			d.Seconds = uint(n)
			last = 'S'
		default:
			return d, vNo
		}
	}
	if parts == 0 {
		return d, vNo
	}
	return d, verdict
}

// vJudge holds the outcome of Decode against a verdict.
func vJudge(verdict int, err error) bool {
	switch verdict {
	case vNo:
		vAssert(err != nil, "malformed text accepted")
		vCover("C19 refused")
		return false
	case vEither:
		return err == nil
	}
	vAssert(err == nil, "well-formed text refused")
	vCover("C19 read")
	return true
}

func vASCII(s string) {
	for i := 0; i < len(s); i++ {
		vAssume(s[i] < 0x80)
	}
}

// H_C19_duration: a duration of p1 arbitrary bytes after prefix p0.
func H_C19_duration() {
	vReset()
	s := [...]string{"", "P", "-P1D", "PT1H", "P1DT2H3M", "PT1844674407370955", "P1844674407370955161"}[vParam(0)] + vRaw(vParam(1))
	want, verdict := vReadDuration(s)
	e, err := vDecodeLine("DTSTART:20200203T040506Z\r\nDURATION:" + s)
	if !vJudge(verdict, err) {
		return
	}
	vAssert(e.Duration != nil && Duration(*e.Duration) == want, "duration read wrongly")
}

func vTwo(s string) (int, bool) {
	if len(s) < 2 || !vDigit(s[0]) || !vDigit(s[1]) {
		return 0, false
	}
	return int(s[0]-'0')*10 + int(s[1]-'0'), true
}

// vReadOffset: utc-offset; the sign may be missing.
func vReadOffset(s string) (int, int) {
	neg, verdict := false, vEither
	if len(s) > 0 {
		if vFork(s[0] == '-') {
			neg, verdict = true, vYes
			s = s[1:]
		} else if vFork(s[0] == '+') {
			verdict = vYes
			s = s[1:]
		}
	}
	if len(s) != 4 && len(s) != 6 {
		return 0, vNo
	}
	h, ok := vTwo(s)
	m, okm := vTwo(s[2:])
	if !ok || !okm || vFork(m > 59) {
		return 0, vNo
	}
	n := h*3600 + m*60
	if len(s) == 6 {
		sec, ok := vTwo(s[4:])
		if !ok || vFork(sec > 60) {
			return 0, vNo
		}
		if vFork(sec == 60) {
			verdict = vEither
		}
		n += sec
	}
	if vFork(h > 23) {
		verdict = vEither
	}
	if neg {
		if vFork(n == 0) {
			return 0, vNo
		}
		n = -n
	}
	return n, verdict
}

const vZoneHead = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VTIMEZONE\r\nTZID:z\r\nBEGIN:STANDARD\r\nDTSTART:20200203T040506\r\n"
const vZoneTail = "\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\nEND:VCALENDAR\r\n"

// H_C19_offset: an offset of p1 arbitrary bytes, in TZOFFSETTO or TZOFFSETFROM (p0).
func H_C19_offset() {
	vReset()
	s := vRaw(vParam(1))
	want, verdict := vReadOffset(s)
	text := vZoneHead + "TZOFFSETTO:" + s + "\r\nTZOFFSETFROM:+0100" + vZoneTail
	if vParam(0) == 1 {
		text = vZoneHead + "TZOFFSETTO:+0100\r\nTZOFFSETFROM:" + s + vZoneTail
	}
	cal, err := Decode(strings.NewReader(text))
	if !vJudge(verdict, err) {
		return
	}
	std := &cal.Timezone[0].Standard[0]
	if vParam(0) == 1 {
		vAssert(int(std.TimezoneOffsetFrom) == want && int(std.TimezoneOffsetTo) == 3600, "offset read wrongly")
	} else {
		vAssert(int(std.TimezoneOffsetTo) == want && int(std.TimezoneOffsetFrom) == 3600, "offset read wrongly")
	}
}

func vMonthDays(y, m int) int {
	switch m {
	case 2:
		if vLeap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// vReadDate: date-value.
func vReadDate(s string) (y, m, d, verdict int) {
	if len(s) != 8 {
		return 0, 0, 0, vNo
	}
	for i := 0; i < 8; i++ {
		if !vDigit(s[i]) {
			return 0, 0, 0, vNo
		}
	}
	y = int(s[0]-'0')*1000 + int(s[1]-'0')*100 + int(s[2]-'0')*10 + int(s[3]-'0')
	m = int(s[4]-'0')*10 + int(s[5]-'0')
	d = int(s[6]-'0')*10 + int(s[7]-'0')
	if vFork(m < 1 || m > 12 || d < 1 || d > 31 || m == 2 && (d > 29 || d == 29 && !vLeap(y)) || (m == 4 || m == 6 || m == 9 || m == 11) && d > 30) {
		return y, m, d, vNo
	}
	if vFork(y == 0 || y == 1 && m == 1 && d == 1) {
		return y, m, d, vEither
	}
	return y, m, d, vYes
}

// vReadDateTime: date-time; zone 0 UTC, 1 local.
func vReadDateTime(s string) (y, m, d, hh, mm, ss, zone, verdict int) {
	if len(s) != 15 && len(s) != 16 {
		return 0, 0, 0, 0, 0, 0, 0, vNo
	}
	y, m, d, verdict = vReadDate(s[:8])
	if verdict == vNo || !vFork(s[8] == 'T') {
		if verdict != vNo && vFork(s[8] == 't') {
			return 0, 0, 0, 0, 0, 0, 0, vEither
		}
		return 0, 0, 0, 0, 0, 0, 0, vNo
	}
	zone = 1
	if len(s) == 16 {
		zone = 0
		if !vFork(s[15] == 'Z') {
			if vFork(s[15] == 'z') {
				return 0, 0, 0, 0, 0, 0, 0, vEither
			}
			return 0, 0, 0, 0, 0, 0, 0, vNo
		}
	}
	var a, b, c bool
	hh, a = vTwo(s[9:])
	if !a {
		return y, m, d, 0, 0, 0, 0, vNo
	}
	mm, b = vTwo(s[11:])
	if !b {
		return y, m, d, 0, 0, 0, 0, vNo
	}
	ss, c = vTwo(s[13:])
	if !c || vFork(hh > 23 || mm > 59 || ss > 60) {
		return y, m, d, hh, mm, ss, zone, vNo
	}
	if vFork(ss == 60) {
		verdict = vEither
	}
	return y, m, d, hh, mm, ss, zone, verdict
}

// vPatch puts n arbitrary bytes into text in place of cut bytes at position at.
func vPatch(text string, at, cut, n int) string {
	if at+cut > len(text) {
		cut = len(text) - at
	}
	return text[:at] + vRaw(n) + text[at+cut:]
}

// H_C19_date: a date with p1 arbitrary bytes in place of p2 bytes at position p0.
func H_C19_date() {
	vReset()
	s := vPatch("20200229", vParam(0), vParam(2), vParam(1))
	y, m, d, verdict := vReadDate(s)
	e, err := vDecodeLine("DTSTART;VALUE=DATE:" + s)
	if !vJudge(verdict, err) {
		return
	}
	vAssert(e.DateTimeStart != nil && e.DateTimeStart.DateTime == nil && e.DateTimeStart.Date != nil, "date not read as a date")
	gy, gm, gd := e.DateTimeStart.Date.Date()
	vAssert(gy == y && int(gm) == m && gd == d, "date read wrongly")
}

// H_C19_datetime: a date-time of form p0 (0 UTC, 1 local, 2 in a zone) with p2 arbitrary bytes in
// place of p3 bytes at position p1.
func H_C19_datetime() {
	vReset()
	form := vParam(0)
	text := "20200229T123456"
	if form == 0 {
		text += "Z"
	}
	s := vPatch(text, vParam(1), vParam(3), vParam(2))
	y, m, d, hh, mm, ss, zone, verdict := vReadDateTime(s)
	name := "DTSTART:"
	l := vZoneOf(zone)
	if form == 2 {
		name = "DTSTART;TZID=America/New_York:"
		l = vZoneOf(2)
		if zone == 0 {
			verdict = vNo
		}
	}
	e, err := vDecodeLine(name + s)
	if !vJudge(verdict, err) || verdict == vEither {
		return
	}
	vAssert(e.DateTimeStart != nil && e.DateTimeStart.Date == nil && e.DateTimeStart.DateTime != nil, "date-time not read as a date-time")
	vAssert(vEqual(e.DateTimeStart.DateTime.Time, time.Date(y, time.Month(m), d, hh, mm, ss, 0, l)), "date-time read wrongly")
}

// H_C19_stamp: a DTSTAMP as above.
func H_C19_stamp() {
	vReset()
	s := vPatch("20200229T123456Z", vParam(0), vParam(2), vParam(1))
	y, m, d, hh, mm, ss, zone, verdict := vReadDateTime(s)
	if zone == 1 && verdict == vYes {
		verdict = vEither // the property wants UTC
	}
	cal, err := Decode(strings.NewReader("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VFREEBUSY\r\nUID:u\r\nDTSTAMP:" + s + "\r\nEND:VFREEBUSY\r\nEND:VCALENDAR\r\n"))
	if !vJudge(verdict, err) || verdict == vEither {
		return
	}
	vAssert(vEqual(cal.FreeBusy[0].DateTimeStamp.Time, time.Date(y, time.Month(m), d, hh, mm, ss, 0, time.UTC)), "date-time read wrongly")
}

// vReadInteger: integer.
func vReadInteger(s string) (int, int) {
	neg := false
	if len(s) > 0 {
		if vFork(s[0] == '-') {
			neg = true
			s = s[1:]
		} else if vFork(s[0] == '+') {
			s = s[1:]
		}
	}
	limit := uint64(2147483647)
	if neg {
		limit++
	}
	n, digits, over := vNumber(s, limit)
	if digits == 0 || digits != len(s) || over {
		return 0, vNo
	}
	if neg {
		return -int(n), vYes
	}
	return int(n), vYes
}

// H_C19_integer: an integer of p1 arbitrary bytes after prefix p0, in PRIORITY, SEQUENCE or
// PERCENT-COMPLETE (p2).
func H_C19_integer() {
	vReset()
	s := [...]string{"", "21474", "-21474", "+42949672"}[vParam(0)] + vRaw(vParam(1))
	want, verdict := vReadInteger(s)
	name := [...]string{"PRIORITY:", "SEQUENCE:", "PERCENT-COMPLETE:"}[vParam(2)]
	if vParam(2) == 2 {
		cal, err := Decode(strings.NewReader("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VTODO\r\nUID:u\r\nDTSTAMP:20200203T040506Z\r\n" + name + s + "\r\nEND:VTODO\r\nEND:VCALENDAR\r\n"))
		if !vJudge(verdict, err) {
			return
		}
		t := &cal.Todo[0]
		vAssert(t.PercentComplete != nil && int(*t.PercentComplete) == want, "integer read wrongly")
		return
	}
	e, err := vDecodeLine("DTSTART:20200203T040506Z\r\n" + name + s)
	if !vJudge(verdict, err) {
		return
	}
	if vParam(2) == 0 {
		vAssert(e.Priority != nil && int(*e.Priority) == want, "integer read wrongly")
	} else {
		vAssert(e.Sequence != nil && int(*e.Sequence) == want, "integer read wrongly")
	}
}

// vReadBoolean: boolean; what else strconv.ParseBool takes is not decided.
func vReadBoolean(s string) (bool, int) {
	up := strings.ToUpper(s)
	if vFork(up == "TRUE") {
		return true, vYes
	} else if vFork(up == "FALSE") {
		return false, vYes
	} else if vFork(up == "T" || up == "F" || up == "1" || up == "0") {
		return false, vEither
	}
	return false, vNo
}

// H_C19_boolean: a boolean of p0 arbitrary bytes as a parameter (p1 0) or a value (p1 1).
func H_C19_boolean() {
	vReset()
	s := vRaw(vParam(0))
	vASCII(s)
	want, verdict := vReadBoolean(s)
	for i := 0; i < len(s); i++ {
		vAssume(vParam(1) == 1 || s[i] != '"' && s[i] != ';' && s[i] != ':' && s[i] != ',' && s[i] != '^')
	}
	if vParam(1) == 0 {
		e, err := vDecodeLine("DTSTART:20200203T040506Z\r\nATTENDEE;RSVP=" + s + ":mailto:a@b")
		if !vJudge(verdict, err) || verdict == vEither {
			return
		}
		a := &e.Attendee[0]
		vAssert(a.RSVP != nil && bool(*a.RSVP) == want, "boolean read wrongly")
		return
	}
	e, err := vDecodeLine("DTSTART:20200203T040506Z\r\nBEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT1M\r\nDEFAULT-ALARM:" + s + "\r\nEND:VALARM")
	if !vJudge(verdict, err) || verdict == vEither {
		return
	}
	a, ok := e.Alarm[0].AlarmType.(*AlarmAudio)
	vAssert(ok && a.DefaultAlarm != nil && bool(*a.DefaultAlarm) == want, "boolean read wrongly")
}

// vReadPeriod: period; lists of periods are not decided.
func vReadPeriod(s string) (want Period, verdict int) {
	slash := -1
	for i := 0; i < len(s); i++ {
		if slash < 0 && vFork(s[i] == '/') {
			slash = i
		} else if vFork(s[i] == ',') {
			return want, vEither
		}
	}
	if slash < 0 {
		return want, vNo
	}
	start, zone, verdict := vTimeOf(s[:slash])
	if verdict == vNo {
		return want, vNo
	}
	want.Start.Time = start
	rest := s[slash+1:]
	if span, v := vReadDuration(rest); v != vNo {
		want.Duration = span
		if span.Negative {
			return want, vNo
		} else if v == vEither {
			verdict = vEither
		}
		return want, verdict
	}
	end, ezone, v := vTimeOf(rest)
	if v == vNo {
		return want, vNo
	} else if v == vEither || verdict == vEither || zone != ezone {
		return want, vEither
	}
	want.End.Time = end
	if !vFork(end.After(start)) {
		return want, vNo
	}
	return want, vYes
}

// vTimeOf reads a date-time and the kind of its zone.
func vTimeOf(s string) (t time.Time, zone, verdict int) {
	y, m, d, hh, mm, ss, zone, verdict := vReadDateTime(s)
	if verdict == vYes {
		t = time.Date(y, time.Month(m), d, hh, mm, ss, 0, vZoneOf(zone))
	}
	return t, zone, verdict
}

// H_C19_period: a period of form p0 (0 with an end, 1 with a duration) with p2 arbitrary bytes in
// place of p3 bytes at position p1.
func H_C19_period() {
	vReset()
	text := "20200229T123456Z/20200301T000000Z"
	if vParam(0) == 1 {
		text = "20200229T123456Z/PT5H30M"
	}
	s := vPatch(text, vParam(1), vParam(3), vParam(2))
	want, verdict := vReadPeriod(s)
	e, err := vDecodeLine("DTSTART:20200203T040506Z\r\nRDATE;VALUE=PERIOD:" + s)
	if !vJudge(verdict, err) || verdict == vEither {
		return
	}
	vAssert(len(e.RecurrenceDateTimes) == 1 && e.RecurrenceDateTimes[0].Period != nil, "period lost")
	vAssert(vEqual(*e.RecurrenceDateTimes[0].Period, want), "period read wrongly")
}

// vListNumber reads one member of a number list of a rule.
func vListNumber(s string, lo, hi, digits int, signed bool) (n, verdict int) {
	neg := false
	if signed && len(s) > 0 {
		if vFork(s[0] == '-') {
			neg = true
			s = s[1:]
		} else if vFork(s[0] == '+') {
			s = s[1:]
		}
	}
	v, k, over := vNumber(s, uint64(hi))
	if k == 0 || k != len(s) || over || vFork(v < uint64(lo)) {
		return 0, vNo
	}
	n = int(v)
	if neg {
		n = -n
	}
	if k > digits {
		return n, vEither
	}
	return n, vYes
}

var vWeekNames = [...]string{"SU", "MO", "TU", "WE", "TH", "FR", "SA"}
var vFreqNames = [...]string{"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"}
var vPartNames = [...]string{"FREQ", "COUNT", "INTERVAL", "UNTIL", "WKST", "BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"}

// vReadPart reads the value s of part number part of a rule into r.
func vReadPart(r *Recur, part int, s string) int {
	limits := [...][4]int{5: {0, 60, 2}, {0, 59, 2}, {0, 23, 2}, {}, {1, 31, 2, 1}, {1, 366, 3, 1}, {1, 53, 2, 1}, {1, 12, 2}, {1, 366, 3, 1}}
	switch part {
	case 0:
		for i, f := range vFreqNames {
			if vFork(s == f) {
				r.Frequency = Frequency(i)
				return vYes
			}
		}
		return vNo
	case 1, 2:
		n, k, over := vNumber(s, vMaxUint)
		if k == 0 || k != len(s) || over {
			return vNo
		}
		if part == 1 {
			r.Count = n
		} else {
			r.Interval = n
		}
		if vFork(n == 0) {
			return vEither
		}
		return vYes
	case 3:
		if len(s) == 8 {
			y, m, d, v := vReadDate(s)
			if v == vYes {
				r.Until = time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
			}
			return v
		}
		t, _, v := vTimeOf(s)
		r.Until, r.UntilTime = t, true
		return v
	case 4:
		for i, f := range vWeekNames {
			if vFork(s == f) {
				r.WeekStart = WeekDay(i + 1)
				return vYes
			}
		}
		return vNo
	}
	verdict := vYes
	from := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && !vFork(s[i] == ',') {
			continue
		}
		member := s[from:i]
		from = i + 1
		if part == 8 {
			d, ok := vByDayText(member)
			if !ok {
				return vNo
			}
			r.ByDay = append(r.ByDay, d)
			continue
		}
		l := limits[part]
		n, v := vListNumber(member, l[0], l[1], l[2], l[3] == 1)
		if v == vNo {
			return vNo
		} else if v == vEither {
			verdict = vEither
		}
		switch part {
		case 5:
			r.BySecond = append(r.BySecond, uint8(n))
		case 6:
			r.ByMinute = append(r.ByMinute, uint8(n))
		case 7:
			r.ByHour = append(r.ByHour, uint8(n))
		case 9:
			r.ByMonthDay = append(r.ByMonthDay, int8(n))
		case 10:
			r.ByYearDay = append(r.ByYearDay, int16(n))
		case 11:
			r.ByWeekNum = append(r.ByWeekNum, int8(n))
		case 12:
			r.ByMonth = append(r.ByMonth, Month(n))
		case 13:
			r.BySetPos = append(r.BySetPos, int16(n))
		}
	}
	return verdict
}

// vReadRule: recur.
func vReadRule(s string) (r Recur, verdict int) {
	verdict = vYes
	var seen [len(vPartNames)]bool
	from := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && !vFork(s[i] == ';') {
			continue
		}
		rule := s[from:i]
		from = i + 1
		eq := -1
		for j := 0; j < len(rule) && eq < 0; j++ {
			if vFork(rule[j] == '=') {
				eq = j
			}
		}
		if eq < 0 {
			return r, vNo
		}
		part := -1
		for j, n := range vPartNames {
			if vFork(rule[:eq] == n) {
				part = j
				break
			}
		}
		if part < 0 || seen[part] {
			return r, vNo
		}
		seen[part] = true
		v := vReadPart(&r, part, rule[eq+1:])
		if v == vNo {
			return r, vNo
		} else if v == vEither {
			verdict = vEither
		}
	}
	if !seen[0] || seen[1] && seen[3] {
		return r, vNo
	}
	return r, verdict
}

var vRuleForms = [...][2]string{
	{"FREQ=", ""},
	{"FREQ=", "LY;COUNT=2"},
	{"FREQ=MONTHLY;COUNT=", ""},
	{"FREQ=MONTHLY;COUNT=1844674407370955161", ""},
	{"INTERVAL=", ";FREQ=DAILY"},
	{"INTERVAL=184467440737095516", ";FREQ=DAILY"},
	{"FREQ=WEEKLY;WKST=", ";BYDAY=MO"},
	{"FREQ=YEARLY;UNTIL=2021", "29"},
	{"FREQ=YEARLY;UNTIL=20220228T", "Z;INTERVAL=3"},
	{"FREQ=YEARLY;UNTIL=20220228T0102", ""},
	{"FREQ=YEARLY;", "=1"},
	{"FREQ=YEARLY;BY", "=1"},
	{"FREQ=YEARLY", "INTERVAL=2"},
	{"", "FREQ=YEARLY"},
	{"FREQ=YEARLY;COUNT=3", ""},
	{"FREQ=MINUTELY;BYSECOND=", ""},
	{"FREQ=HOURLY;BYMINUTE=", ""},
	{"FREQ=DAILY;BYHOUR=", ""},
	{"FREQ=MONTHLY;BYDAY=", ""},
	{"FREQ=MONTHLY;BYMONTHDAY=", ""},
	{"FREQ=YEARLY;BYYEARDAY=", ""},
	{"FREQ=YEARLY;BYWEEKNO=", ""},
	{"FREQ=YEARLY;BYMONTH=", ""},
	{"FREQ=MONTHLY;BYSETPOS=", ";BYDAY=MO,TU"},
	{"FREQ=MONTHLY;BYMONTHDAY=", ",-1;BYHOUR=7"},
}

// H_C19_rule: p1 arbitrary bytes within a rule of form p0.
func H_C19_rule() {
	vReset()
	f := vRuleForms[vParam(0)]
	b := vRaw(vParam(1))
	vASCII(b)
	for i := 0; i < len(b); i++ {
		vAssume(b[i] < 'a' || b[i] > 'z')
	}
	s := f[0] + b + f[1]
	want, verdict := vReadRule(s)
	e, err := vDecodeLine("DTSTART:20200203T040506Z\r\nRRULE:" + s)
	if !vJudge(verdict, err) || verdict == vEither {
		return
	}
	vAssert(e.RecurrenceRule != nil && vEqual(Recur(*e.RecurrenceRule), want), "rule read wrongly")
}

// vForms gives the ways in which the value of a property may be written.
func vForms(gen int) [][2]string {
	const t, d, p = "20200203T040506", "20200209", "20200203T040506Z/"
	switch gen {
	case vGDateTime:
		return [][2]string{{":", t + "Z"}}
	case vGDateOrTime:
		return [][2]string{{":", t + "Z"}, {":", t}, {";VALUE=DATE-TIME:", t + "Z"}, {";VALUE=DATE:", d}, {";TZID=America/New_York:", t}}
	case vGDateTimePeriod:
		return [][2]string{{":", t + "Z"}, {";VALUE=DATE-TIME:", t + "Z"}, {";VALUE=DATE:", d}, {";VALUE=PERIOD:", p + "20200203T040507Z"}, {";VALUE=PERIOD:", p + "P1D"}}
	case vGDuration:
		return [][2]string{{":", "P1DT2H3M4S"}, {":", "-P12W"}}
	case vGTrigger:
		return [][2]string{{":", "-PT15M"}, {";VALUE=DURATION:", "PT5M"}, {";VALUE=DATE-TIME:", t + "Z"}}
	case vGInteger:
		return [][2]string{{":", "5"}, {":", "-2147483648"}}
	case vGOffset:
		return [][2]string{{":", "+0130"}, {":", "-023045"}}
	case vGRule:
		return [][2]string{{":", "FREQ=YEARLY;COUNT=4;BYDAY=-1SU,MO"}}
	case vGBool:
		return [][2]string{{":", "TRUE"}}
	case vGPeriod:
		return [][2]string{{":", p + "20200203T040507Z"}, {":", p + "P1D"}}
	}
	return nil
}

// vVerdict reads the value s of a property written as in a form.
func vVerdict(gen int, head, s string) (verdict int) {
	switch {
	case head == ";VALUE=DATE:":
		_, _, _, verdict = vReadDate(s)
	case head == ";VALUE=PERIOD:" || gen == vGPeriod:
		_, verdict = vReadPeriod(s)
	case gen == vGDuration || gen == vGTrigger && head != ";VALUE=DATE-TIME:":
		_, verdict = vReadDuration(s)
	case gen == vGInteger:
		_, verdict = vReadInteger(s)
	case gen == vGOffset:
		_, verdict = vReadOffset(s)
	case gen == vGRule:
		_, verdict = vReadRule(s)
	case gen == vGBool:
		_, verdict = vReadBoolean(s)
	default:
		var zone int
		_, zone, verdict = vTimeOf(s)
		if zone == 0 && verdict == vYes && head == ";TZID=America/New_York:" {
			verdict = vNo
		} else if zone == 1 && verdict == vYes && (gen == vGDateTime || gen == vGTrigger) {
			verdict = vEither // the property wants UTC
		}
	}
	return verdict
}

// H_C19_hosts: the value of each such property of component kind p0 with p1 arbitrary bytes in
// place of p2 bytes at every position.
func H_C19_hosts() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	forms := vForms(p.gen)
	if len(forms) == 0 {
		return
	}
	f := forms[vChoice(len(forms))]
	i := vChoice(len(f[1]) + 1)
	j := i + vParam(2)
	vAssume(j <= len(f[1]))
	b := vRaw(vParam(1))
	vASCII(b)
	text := f[1][:i] + b + f[1][j:]
	if p.gen == vGRule {
		for i := 0; i < len(b); i++ {
			vAssume(b[i] < 'a' || b[i] > 'z')
		}
	}
	verdict := vVerdict(p.gen, f[0], text)
	_, err := Decode(strings.NewReader(vInto(&s, &p, f[0]+text)))
	vJudge(verdict, err)
}
