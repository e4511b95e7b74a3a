package ics

import "time"

// C07: recurrence rules keep every part and their ranges are enforced both ways.

func vRuleCal(r Recur) *Calendar {
	cal := vCal()
	e := vEvent()
	p := PropRecurrenceRule(r)
	e.RecurrenceRule = &p
	cal.Event = []Event{e}
	return cal
}

// vRule checks that a rule within the limits survives and any other is refused.
func vRule(r Recur, ok bool) {
	cal := vRuleCal(r)
	if vFork(ok) {
		vRound(cal)
		vCover("C07 rule within the limits")
	} else {
		vAssert(vRefused(cal), "rule outside the limits accepted for encoding")
		vCover("C07 rule outside the limits")
	}
}

// vSigned returns an arbitrary number with -hi-1 <= n <= hi.
func vSigned(hi int) int {
	if vFork(vBool()) {
		return -vRange(0, hi+1)
	}
	return vRange(0, hi)
}

func vWithin(n, most int) bool {
	return n != 0 && n <= most && n >= -most
}

// H_C07_list: list p0 with p1 arbitrary members.
func H_C07_list() {
	vReset()
	r := Recur{Frequency: Yearly}
	ok := true
	for i := 0; i < vParam(1); i++ {
		switch vParam(0) {
		case 0:
			b := vByte()
			ok = ok && b <= 60
			r.BySecond = append(r.BySecond, b)
		case 1:
			b := vByte()
			ok = ok && b <= 59
			r.ByMinute = append(r.ByMinute, b)
		case 2:
			b := vByte()
			ok = ok && b <= 23
			r.ByHour = append(r.ByHour, b)
		case 3:
			d, o := vByte(), vSigned(127)
			ok = ok && 1 <= d && d <= 7 && o <= 53 && o >= -53
			r.ByDay = append(r.ByDay, DayRecur{Day: WeekDay(d), Occurrence: int8(o)})
		case 4:
			n := vSigned(127)
			ok = ok && vWithin(n, 31)
			r.ByMonthDay = append(r.ByMonthDay, int8(n))
		case 5:
			n := vSigned(32767)
			ok = ok && vWithin(n, 366)
			r.ByYearDay = append(r.ByYearDay, int16(n))
		case 6:
			n := vSigned(127)
			ok = ok && vWithin(n, 53)
			r.ByWeekNum = append(r.ByWeekNum, int8(n))
		case 7:
			b := vByte()
			ok = ok && 1 <= b && b <= 12
			r.ByMonth = append(r.ByMonth, Month(b))
		case 8:
			n := vSigned(32767)
			ok = ok && vWithin(n, 366)
			r.BySetPos = append(r.BySetPos, int16(n))
		}
	}
	vRule(r, ok)
}

// H_C07_numbers: every count and interval.
func H_C07_numbers() {
	vReset()
	r := Recur{Frequency: Weekly}
	if vFork(vBool()) {
		r.Count = uint64(vUint(20))
		r.Interval = uint64(vUint(2))
	} else {
		r.Count = uint64(vUint(2))
		r.Interval = uint64(vUint(20))
	}
	vRound(vRuleCal(r))
	vCover("C07 numbers")
}

// H_C07_until: every end in zone p0, as a date-time or a date.
func H_C07_until() {
	vReset()
	r := Recur{Frequency: Daily}
	if vFork(vBool()) {
		r.UntilTime = true
		r.Until = vAnyTime(vZoneOf(vParam(0)))
	} else {
		r.Until = vAnyDate()
	}
	vRound(vRuleCal(r))
	r.Count = uint64(vUint(20))
	vAssume(r.Count != 0)
	vAssert(vRefused(vRuleCal(r)), "rule with a count and an end accepted")
	vCover("C07 until")
}

// H_C07_enums: every frequency and week start.
func H_C07_enums() {
	vReset()
	f, w := vByte(), vByte()
	vRule(Recur{Frequency: Frequency(f), WeekStart: WeekDay(w)}, f <= 6 && w <= 7)
}

// H_C07_subsets: every set of parts.
func H_C07_subsets() {
	vReset()
	r := Recur{Frequency: Monthly}
	switch vChoice(4) {
	case 1:
		r.Count = uint64(vRange(1, 9))
	case 2:
		r.Until = time.Date(2022, 1, vRange(10, 28), 0, 0, 0, 0, time.UTC)
	case 3:
		r.Until = time.Date(2022, 1, 2, 3, 4, vRange(10, 28), 0, time.UTC)
		r.UntilTime = true
	}
	if vFork(vBool()) {
		r.Interval = uint64(vRange(1, 9))
	}
	if vFork(vBool()) {
		r.BySecond = []uint8{uint8(vRange(0, 9)), uint8(vRange(10, 60))}
		r.ByMinute = []uint8{uint8(vRange(0, 9)), uint8(vRange(10, 59))}
	}
	if vFork(vBool()) {
		r.ByHour = []uint8{uint8(vRange(0, 9)), uint8(vRange(10, 23))}
	}
	if vFork(vBool()) {
		r.ByDay = []DayRecur{{Day: Wednesday}, {Day: Friday, Occurrence: int8(-vRange(1, 9))}}
	}
	if vFork(vBool()) {
		r.ByMonthDay = []int8{int8(vRange(1, 9)), int8(-vRange(10, 31))}
	}
	if vFork(vBool()) {
		r.ByYearDay = []int16{int16(200 + vRange(0, 99)), int16(-vRange(1, 9))}
	}
	if vFork(vBool()) {
		r.ByWeekNum = []int8{int8(-vRange(1, 9)), int8(vRange(10, 53))}
	}
	if vFork(vBool()) {
		r.ByMonth = []Month{Month(vRange(1, 9)), Month(vRange(10, 12))}
	}
	if vFork(vBool()) {
		r.BySetPos = []int16{int16(-vRange(10, 99)), int16(vRange(1, 9))}
	}
	if vFork(vBool()) {
		r.WeekStart = Wednesday
	}
	vRound(vRuleCal(r))
	vCover("C07 every set of parts")
}

var vListNames = [...]string{"BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"}

// vSameList compares the single member of list which with n.
func vOneMember(r *PropRecurrenceRule, which, n int) bool {
	switch which {
	case 0:
		return len(r.BySecond) == 1 && int(r.BySecond[0]) == n
	case 1:
		return len(r.ByMinute) == 1 && int(r.ByMinute[0]) == n
	case 2:
		return len(r.ByHour) == 1 && int(r.ByHour[0]) == n
	case 4:
		return len(r.ByMonthDay) == 1 && int(r.ByMonthDay[0]) == n
	case 5:
		return len(r.ByYearDay) == 1 && int(r.ByYearDay[0]) == n
	case 6:
		return len(r.ByWeekNum) == 1 && int(r.ByWeekNum[0]) == n
	case 7:
		return len(r.ByMonth) == 1 && int(r.ByMonth[0]) == n
	case 8:
		return len(r.BySetPos) == 1 && int(r.BySetPos[0]) == n
	}
	return false
}

// H_C07_text: list p0 written with p1 arbitrary digits and sign p2 (0 none, 1 plus, 2 minus).
func H_C07_text() {
	vReset()
	which, digits := vParam(0), vParam(1)
	limits := [...][2]int{{0, 60}, {0, 59}, {0, 23}, {}, {1, 31}, {1, 366}, {1, 53}, {1, 12}, {1, 366}}
	signed := which == 4 || which == 5 || which == 6 || which == 8
	n := 0
	b := make([]byte, 0, 8)
	switch vParam(2) {
	case 1:
		b = append(b, '+')
	case 2:
		b = append(b, '-')
	}
	for i := 0; i < digits; i++ {
		d := vRange(0, 9)
		b = append(b, byte(d)+'0')
		n = n*10 + d
	}
	e, err := vDecodeLine("RRULE:FREQ=YEARLY;" + vListNames[which] + "=" + string(b))
	ok := limits[which][0] <= n && n <= limits[which][1]
	if vParam(2) != 0 && !signed {
		ok = false
	}
	if vParam(2) == 2 {
		n = -n
	}
	if vFork(ok) {
		most := 2
		if which == 5 || which == 8 {
			most = 3
		}
		if digits > most && err != nil {
			return // more digits than the grammar has
		}
		vAssert(err == nil, "number within the limits refused")
		vAssert(e.RecurrenceRule != nil && vOneMember(e.RecurrenceRule, which, n), "number read wrongly")
		vCover("C07 number read")
	} else {
		vAssert(err != nil, "number outside the limits accepted")
		vCover("C07 number refused")
	}
}

// vByDayText is an independent reader of one BYDAY member.
func vByDayText(s string) (d DayRecur, ok bool) {
	if len(s) < 2 {
		return d, false
	}
	num, day := s[:len(s)-2], s[len(s)-2:]
	names := [...]string{"SU", "MO", "TU", "WE", "TH", "FR", "SA"}
	for i, n := range names {
		if vFork(day == n) {
			d.Day = WeekDay(i + 1)
		}
	}
	if d.Day == 0 {
		return d, false
	}
	neg := false
	if len(num) > 0 {
		if vFork(num[0] == '-') {
			neg = true
			num = num[1:]
		} else if vFork(num[0] == '+') {
			num = num[1:]
		}
		if len(num) == 0 {
			return d, false
		}
	}
	if len(num) > 2 {
		return d, false
	}
	n := 0
	for i := 0; i < len(num); i++ {
		if vFork(num[i] < '0' || num[i] > '9') {
			return d, false
		}
		n = n*10 + int(num[i]-'0')
	}
	if len(num) > 0 && vFork(n < 1 || n > 53) {
		return d, false
	}
	if neg {
		n = -n
	}
	d.Occurrence = int8(n)
	return d, true
}

// H_C07_byday: a BYDAY member of p0 arbitrary bytes.
func H_C07_byday() {
	vReset()
	s := vRaw(vParam(0))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != ',' && s[i] != ';' && s[i] < 0x80)
	}
	d, ok := vByDayText(s)
	e, err := vDecodeLine("RRULE:FREQ=YEARLY;BYDAY=" + s)
	if ok {
		vAssert(err == nil, "BYDAY within the grammar refused")
		r := e.RecurrenceRule
		vAssert(r != nil && len(r.ByDay) == 1 && r.ByDay[0].Day == d.Day && r.ByDay[0].Occurrence == d.Occurrence, "BYDAY read wrongly")
		vCover("C07 BYDAY read")
	} else {
		vAssert(err != nil, "BYDAY outside the grammar accepted")
		vCover("C07 BYDAY refused")
	}
}

// H_C07_order: the parts of a rule in every order.
func H_C07_order() {
	vReset()
	parts := []string{"FREQ=MONTHLY", "INTERVAL=3", "BYDAY=-2MO,TU", "COUNT=12", "WKST=SU"}
	s := ""
	for len(parts) > 0 {
		i := vChoice(len(parts))
		if s != "" {
			s += ";"
		}
		s += parts[i]
		rest := append([]string{}, parts[:i]...)
		parts = append(rest, parts[i+1:]...)
	}
	e, err := vDecodeLine("RRULE:" + s)
	vAssert(err == nil, "rule refused in this order")
	want := PropRecurrenceRule{Frequency: Monthly, Interval: 3, Count: 12, WeekStart: Sunday, ByDay: []DayRecur{{Monday, -2}, {Tuesday, 0}}}
	vAssert(vEqual(*e.RecurrenceRule, want), "rule read differently in this order")
	vCover("C07 any order")
}

var vRuleParts = [...]string{"FREQ=DAILY", "COUNT=3", "INTERVAL=2", "BYSECOND=1", "BYMINUTE=1", "BYHOUR=1", "BYDAY=MO", "BYMONTHDAY=1", "BYYEARDAY=1", "BYWEEKNO=1", "BYMONTH=1", "BYSETPOS=1", "WKST=MO", "UNTIL=20220102", "UNTIL=20220102T030405Z"}

// H_C07_refused: rules with a repeated part, without a frequency or with both a count and an end.
func H_C07_refused() {
	vReset()
	var s string
	switch vChoice(4) {
	case 0:
		p := vRuleParts[vChoice(len(vRuleParts))]
		s = "FREQ=DAILY;" + p
		if p != "FREQ=DAILY" {
			s += ";" + p
		}
	case 1:
		s = vRuleParts[1+vChoice(len(vRuleParts)-1)]
	case 2:
		a, b := "COUNT=3", vRuleParts[13+vChoice(2)]
		if vFork(vBool()) {
			a, b = b, a
		}
		s = "FREQ=DAILY;" + a + ";INTERVAL=2;" + b
	case 3:
		bad := [...]string{"FREQ=DAILY;", "FREQ=DAILY;COUNT", "FREQ=", "FREQ=NEVER", "FREQ=DAILY;X=1", "FREQ=DAILY;WKST=XX", "FREQ=DAILY;WKST=", "FREQ=DAILY;COUNT=", "FREQ=DAILY;COUNT=-1", "FREQ=DAILY;COUNT=18446744073709551616", "FREQ=DAILY;BYHOUR=1,", "FREQ=DAILY;BYHOUR=,1", "FREQ=DAILY;BYDAY=MO,,TU", "FREQ=DAILY;UNTIL=20220230", "FREQ=DAILY;UNTIL=", ""}
		s = bad[vChoice(len(bad))]
	}
	_, err := vDecodeLine("RRULE:" + s)
	vAssert(err != nil, "malformed rule accepted")
	vCover("C07 malformed rule refused")
}
