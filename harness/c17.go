package ics

import "strings"

// C17: unknown content is skipped and names ignore case.

// vSafe returns n bytes that may stand in a value.
func vSafe(n int) string {
	s := vString(n)
	for i := 0; i < n; i++ {
		vAssume(!vControl(s[i]))
	}
	vAssume(vUTF8(s))
	return s
}

// vNameOf returns n bytes that may stand in a name.
func vNameOf(n int) string {
	s := vString(n)
	for i := 0; i < n; i++ {
		vAssume(vNameByte(s[i]))
	}
	return s
}

// vStream returns a stream with component kind having all its properties, and the places where
// its lines begin, including the one behind the last.
func vStream(kind int) (string, []int) {
	s := vSpecOf(kind)
	lines := ""
	for _, p := range s.props {
		if len(s.not) > 0 && p.name == s.not[0][1] {
			continue
		}
		lines += p.name + p.tail + "\r\n"
		if p.many {
			lines += p.name + p.tail + "\r\n"
		}
	}
	if len(s.any) > 0 {
		lines += vPart(s.any[0]) + vPart(s.any[1])
	}
	if kind < 2 {
		lines += "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:PT1H\r\nEND:VALARM\r\n"
	}
	t := s.wrap(lines)
	at := []int{}
	for i := 1; i < len(t); i++ {
		if t[i-1] == '\n' {
			at = append(at, i)
		}
	}
	return t, at
}

// vInAlarm tells whether the place is inside an alarm.
func vInAlarm(t string, i int) bool {
	return strings.Count(t[:i], "BEGIN:VALARM") > strings.Count(t[:i], "END:VALARM")
}

// vSkipped checks that t with x inserted at one of the places decodes as t does.
func vSkipped(t string, i int, x string) {
	want := vDecode(t)
	cal, err := Decode(strings.NewReader(t[:i] + x + t[i:]))
	vAssert(err == nil, "unknown content makes Decode fail")
	vAssert(vEqual(cal, want), "unknown content changes the result")
}

// H_C17_property: an unknown property anywhere in a stream with component kind p0; form p1, with
// p2 arbitrary bytes.
func H_C17_property() {
	t, at := vStream(vParam(0))
	i := at[vChoice(len(at))]
	n := vParam(2)
	x := ""
	switch vParam(1) {
	case 0:
		x = "X-" + vNameOf(n) + ":v"
	case 1:
		x = vNameOf(2) + ":v"
	case 2:
		x = "X-PROP:" + vSafe(n)
	case 3:
		p := vSafe(n)
		for j := 0; j < n; j++ {
			vAssume(p[j] != '"')
		}
		x = "X-PROP;VALUE=\"" + p + "\",DATE;TZID=:BEGIN:VEVENT"
	case 4:
		// a known name with something in front, behind or missing
		y := []string{"SUMMARY", "DTSTAMP", "END", "BEGIN", "UID", "ACTION", "VERSION", "RRULE", "TZID", "TRIGGER"}[vChoice(10)]
		switch vChoice(4) {
		case 0:
			x = vNameOf(1) + y + ":v"
			vAssume(y != "RRULE" || x[0] != 'X' && x[0] != 'x')
		case 1:
			x = y + vNameOf(1) + ":v"
		case 2:
			x = y[1:] + ":VEVENT"
			vAssume(y != "BEGIN" && y != "END")
		case 3:
			x = y[:len(y)-1] + ":VEVENT"
		}
	case 5:
		x = []string{"METHOD:PUBLISH", "CALSCALE:GREGORIAN", "X-WR-CALNAME:x", "NAME:a\\,b;c", "COLOR:red", "X-:;:", "-:", "x-a;b=c,\"d\":e"}[vChoice(8)]
	case 6:
		// every other name of that length
		x = vNameOf(n)
		for name := range vTails {
			vAssume(len(name) != n || strings.ToUpper(x) != name)
		}
		vAssume(n != 5 || strings.ToUpper(x) != "BEGIN")
		vAssume(n != 3 || strings.ToUpper(x) != "END")
		x += ";a=b:c"
	}
	vSkipped(t, i, x+"\r\n")
	vCover("C17 unknown property")
}

// H_C17_param: an unknown parameter in each property of component kind p0, before or behind the
// known ones; form p1 with p2 arbitrary bytes.
func H_C17_param() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	n := vParam(2)
	x := ""
	switch vParam(1) {
	case 0:
		x = ";X-" + vNameOf(n) + "=v"
	case 1:
		v := vSafe(n)
		for j := 0; j < n; j++ {
			vAssume(v[j] != '"' && v[j] != ';' && v[j] != ':')
		}
		x = ";X-P=" + v
	case 2:
		v := vSafe(n)
		for j := 0; j < n; j++ {
			vAssume(v[j] != '"')
		}
		x = ";X-P=\"" + v + "\""
	case 3:
		x = []string{";X-P=a,\"b\",c", ";X-P=\"VALUE=DATE\"", ";X-VALUE=BINARY", ";VALUES=X", ";VALU=X;TZ=y", ";X-P=;X-P="}[vChoice(6)]
	case 4:
		// every other name of that length
		y := vNameOf(n)
		for _, name := range vParamNames {
			vAssume(len(name) != n || strings.ToUpper(y) != name)
		}
		x = ";" + y + "=v"
	}
	t := p.tail
	k := vFirstColon(t)
	if vFork(vBool()) {
		k = 0
	}
	head := s.complete(p.name) + p.name
	want := vDecode(s.wrap(head + t + "\r\n"))
	got, err := Decode(strings.NewReader(s.wrap(head + t[:k] + x + t[k:] + "\r\n")))
	vAssert(err == nil, "an unknown parameter makes Decode fail")
	vAssert(vEqual(got, want), "an unknown parameter changes the result")
	vCover("C17 unknown parameter")
}

// vFirstColon is the place of the colon before the value.
func vFirstColon(t string) int {
	q := false
	for i := 0; i < len(t); i++ {
		if t[i] == '"' {
			q = !q
		} else if t[i] == ':' && !q {
			return i
		}
	}
	return -1
}

// H_C17_component: an unknown component anywhere outside an alarm in a stream with component kind
// p0; form p1 with p2 arbitrary bytes.
func H_C17_component() {
	t, at := vStream(vParam(0))
	i := at[vChoice(len(at))]
	vAssume(!vInAlarm(t, i))
	n := vParam(2)
	x := ""
	switch vParam(1) {
	case 0:
		y := "X-" + vNameOf(n)
		x = "BEGIN:" + y + "\r\nSUMMARY:a\r\nEND:" + y + "\r\n"
	case 1:
		x = "BEGIN:X-Y\r\nDESCRIPTION;" + "X=" + ":" + vSafe(n) + "\r\nUID:u\r\nDTSTART:bad\r\nEND:X-Y\r\n"
	case 2:
		x = "BEGIN:X-Y\r\nBEGIN:X-" + "Z\r\nX:" + vSafe(n) + "\r\nBEGIN:W\r\nEND:W\r\nEND:X-Z\r\nDTSTAMP:x\r\nBEGIN:X-Y\r\nEND:X-Y\r\nEND:X-Y\r\n"
	case 3:
		// known components inside an unknown one, incomplete
		y := []string{"VEVENT", "VALARM", "VTODO", "STANDARD", "VTIMEZONE", "VCALENDAR", "DAYLIGHT", "VFREEBUSY", "VJOURNAL"}[vChoice(9)]
		x = "BEGIN:X-Y\r\nBEGIN:" + y + "\r\nACTION:NONE\r\nEND:" + y + "\r\nEND:X-Y\r\n"
	case 4:
		x = "BEGIN:\r\nEND:\r\nBEGIN:AVAILABLE\r\nEND:AVAILABLE\r\nBEGIN:VEVENTS\r\nEND:VEVENTS\r\nbegin:x\r\nend:X\r\n"
	case 5:
		// case of the names of unknown components
		y := "x-y" + vNameOf(n)
		x = "Begin:" + y + "\r\nEnd:" + strings.ToUpper(y) + "\r\n"
	case 6:
		// every other name of that length
		y := vNameOf(n)
		for _, name := range vNames {
			vAssume(len(name) != n || name == "X" || strings.ToUpper(y) != name)
		}
		x = "BEGIN:" + y + "\r\nUID:u\r\nEND:" + y + "\r\n"
	}
	vSkipped(t, i, x)
	vCover("C17 unknown component")
}

// vCase returns s with each letter in either case.
func vCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			if x := vByte(); true {
				vAssume(x == c || x == c+'a'-'A')
				b[i] = x
			}
		}
	}
	return string(b)
}

// H_C17_case: each property of component kind p0 with its name and the names of its parameters in
// any case.
func H_C17_case() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	t := p.tail
	l := vCase(p.name)
	for len(t) > 0 && t[0] == ';' {
		k := strings.IndexByte(t, '=')
		l += vCase(t[:k])
		t = t[k:]
		q := false
		for k = 0; k < len(t) && (q || t[k] != ';' && t[k] != ':'); k++ {
			if t[k] == '"' {
				q = !q
			}
		}
		l += t[:k]
		t = t[k:]
	}
	head := s.complete(p.name)
	want := vDecode(s.wrap(head + p.name + p.tail + "\r\n"))
	got, err := Decode(strings.NewReader(s.wrap(head + l + t + "\r\n")))
	vAssert(err == nil, "Decode refuses a name in another case")
	vAssert(vEqual(got, want), "the case of a name changes the result")
	vCover("C17 case")
}

// H_C17_begin: the lines that begin and end component kind p0 in any case.
func H_C17_begin() {
	s := vSpecOf(vParam(0))
	req := s.required("")
	want := vDecode(s.wrap(req))
	b, e := "BEGIN:"+s.begin, "END:"+s.begin
	if vFork(vBool()) {
		b = vCase(b)
	} else {
		e = vCase(e)
	}
	r := b + "\r\n" + req + e + "\r\n"
	for i := len(s.outer) - 1; i >= 0; i-- {
		r = s.outer[i][0] + r + s.outer[i][1]
	}
	got, err := Decode(strings.NewReader(r))
	vAssert(err == nil, "Decode refuses a component name in another case")
	vAssert(vEqual(got, want), "the case of a component name changes the result")
	vCover("C17 begin case")
}
