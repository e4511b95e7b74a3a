package ics

import "strings"

// C16: component rules are enforced when decoding.

// vLines counts the properties of a component and decides by its rules.
type vLines struct {
	s     *vSpec
	count []int
	parts int
	text  string
}

func (l *vLines) index(name string) int {
	for i, p := range l.s.props {
		if p.name == name {
			return i
		}
	}
	vAssert(false, "harness: unknown property "+name)
	return -1
}

// add appends the i-th property.
func (l *vLines) add(i int) {
	p := l.s.props[i]
	l.count[i]++
	l.text += p.name + p.tail + "\r\n"
}

// ok tells whether the rules of the component are met.
func (l *vLines) ok() bool {
	for i, p := range l.s.props {
		if p.req && l.count[i] == 0 || !p.many && l.count[i] > 1 {
			return false
		}
	}
	for _, n := range l.s.not {
		if l.count[l.index(n[0])] > 0 && l.count[l.index(n[1])] > 0 {
			return false
		}
	}
	for _, n := range l.s.needs {
		if l.count[l.index(n[0])] > 0 && l.count[l.index(n[1])] == 0 {
			return false
		}
	}
	return len(l.s.any) == 0 || l.parts > 0
}

// vJudge compares Decode's verdict on the component with the rules.
func (l *vLines) judge() *Calendar {
	cal, err := Decode(strings.NewReader(l.s.wrap(l.text)))
	if l.ok() {
		vAssert(err == nil, "Decode refuses a component that meets its rules")
		vAssert(cal != nil, "Decode returns no calendar")
		vCover("C16 accepted")
	} else {
		vAssert(err != nil, "Decode accepts a component that breaks its rules")
		vAssert(cal == nil, "Decode returns a calendar with an error")
		vCover("C16 refused")
	}
	return cal
}

// vInTodo places the alarm of kind in a to-do instead of an event.
func (s *vSpec) inTodo() {
	s.outer = vIn(vCalOuter, "BEGIN:VTODO\r\nUID:u\r\nDTSTAMP:20200203T040506Z\r\n", "END:VTODO\r\n")
}

func (l *vLines) part() {
	if len(l.s.any) > 0 {
		l.parts++
		l.text += vPart(l.s.any[vChoice(len(l.s.any))])
	}
}

// H_C16_select: component kind p0 with p1 properties in any order and repetition in front of,
// between or behind the required ones, of which one may be missing; p2 is set for an alarm in a
// to-do.
func H_C16_select() {
	s := vSpecOf(vParam(0))
	if vParam(2) == 1 {
		s.inTodo()
	}
	l := &vLines{s: &s, count: make([]int, len(s.props))}
	var req []int
	for i, p := range s.props {
		if p.req {
			req = append(req, i)
		}
	}
	drop := vChoice(len(req) + 2)
	place := vChoice(len(req) + 1)
	for i := 0; i <= len(req); i++ {
		if i == place {
			for j := 0; j < vParam(1); j++ {
				l.add(vChoice(len(s.props)))
			}
		}
		if i < len(req) && i != drop {
			l.add(req[i])
		}
	}
	if drop != len(req) {
		l.part()
	}
	l.judge()
}

// H_C16_full: component kind p0 with all its properties other than one (or none), one of them
// twice (or none).
func H_C16_full() {
	s := vSpecOf(vParam(0))
	l := &vLines{s: &s, count: make([]int, len(s.props))}
	n := len(s.props)
	drop, twice := vChoice(n+1), vChoice(n+1)
	not := map[int]bool{}
	for _, x := range s.not {
		not[l.index(x[vParam(1)])] = true
	}
	for i := range s.props {
		if i == drop || not[i] && i != twice {
			continue
		}
		l.add(i)
	}
	l.part()
	if twice < n {
		l.add(twice)
	}
	l.judge()
}

// H_C16_order: p1 properties of component kind p0 in any order give the same result as in the
// order of the table.
func H_C16_order() {
	s := vSpecOf(vParam(0))
	k := vParam(1)
	n := len(s.props)
	at := make([]int, k)
	for j := range at {
		lo := 0
		if j > 0 {
			lo = at[j-1] + 1
		}
		vAssume(lo < n)
		at[j] = lo + vChoice(n-lo)
	}
	in := &vLines{s: &s, count: make([]int, n)}
	for i, p := range s.props {
		if p.req && !vHas(at, i) {
			in.add(i)
		}
	}
	in.part()
	base := *in
	base.count = append([]int(nil), in.count...)
	for _, i := range at {
		base.add(i)
	}
	vAssume(base.ok())
	left := append([]int(nil), at...)
	front := vFork(vBool())
	rest := in.text
	if front {
		in.text = ""
	}
	for len(left) > 0 {
		j := vChoice(len(left))
		in.add(left[j])
		left = append(left[:j], left[j+1:]...)
	}
	if front {
		in.text += rest
	}
	want := base.judge()
	got := in.judge()
	vAssert(vEqual(want, got), "the order of different properties changes the result")
	vCover("C16 order")
}

func vHas(l []int, i int) bool {
	for _, x := range l {
		if x == i {
			return true
		}
	}
	return false
}

// H_C16_end: the closing line of component kind p0 with p1 arbitrary bytes at any place of its
// name, replaced (p2 = 0) or inserted (p2 = 1).
func H_C16_end() {
	s := vSpecOf(vParam(0))
	n := vParam(1)
	b := vString(n)
	i := vChoice(len(s.begin) + 1)
	j := i
	if vParam(2) == 0 {
		j += n
		vAssume(j <= len(s.begin))
	}
	name := s.begin[:i] + b + s.begin[j:]
	t := s.wrap(s.required(""))
	k := strings.LastIndex(t, "END:"+s.begin+"\r\n")
	cal, err := Decode(strings.NewReader(t[:k] + "END:" + name + t[k+4+len(s.begin):]))
	if len(name) == len(s.begin) && vFork(strings.ToUpper(name) == s.begin) {
		vAssert(err == nil, "a component with the right END line is refused")
		vCover("C16 right end")
	} else if vFork(vHasFold(name)) {
		// a folded or broken line: judged by other properties
	} else {
		vAssert(err != nil, "a component closed by another name is accepted")
		vAssert(cal == nil, "Decode returns a calendar with an error")
		vCover("C16 wrong end")
	}
}

func vHasFold(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' || s[i] == '\n' {
			return true
		}
	}
	return false
}

var vNames = [...]string{"VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "", "X", "BEGIN"}

// H_C16_other: component kind p0 closed by the name of another component, or not at all.
func H_C16_other() {
	s := vSpecOf(vParam(0))
	t := s.wrap(s.required(""))
	k := strings.LastIndex(t, "END:"+s.begin+"\r\n")
	rest := t[k+6+len(s.begin):]
	w := vChoice(len(vNames) + 1)
	line := ""
	if w < len(vNames) {
		vAssume(vNames[w] != s.begin)
		line = "END:" + vNames[w] + "\r\n"
	}
	for i := 0; i < 2; i++ {
		cal, err := Decode(strings.NewReader(t[:k] + line + rest))
		vAssert(err != nil, "a component closed by another name is accepted")
		vAssert(cal == nil, "Decode returns a calendar with an error")
		if vParam(0) == 11 {
			break
		}
		rest = "END:" + s.begin + "\r\n" + rest
		if line == "" {
			break
		}
	}
	vCover("C16 other end")
}
