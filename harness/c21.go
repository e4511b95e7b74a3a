package ics

import "strings"

// C21: alarms keep their kind and contents.

var vActions = [...]string{"AUDIO", "DISPLAY", "EMAIL", "URI", "NONE"}

// vAnAlarm returns an alarm of the kind-th action with every choice of n optional fields.
func vAnAlarm(kind, n int) Alarm {
	if kind == 4 {
		return Alarm{&AlarmNone{}}
	}
	c := vComp(7 + kind)
	vSelect(c, n)
	vFix(c, -1)
	cal := vCal()
	c.add(cal)
	return cal.Event[0].Alarm[0]
}

// vPlaceAlarms puts alarms in an event or a to-do, among other things.
func vPlaceAlarms(todo bool, a []Alarm) *Calendar {
	cal := vCal()
	if todo {
		t, u := gTodo(), gTodo()
		t.Alarm = a
		cal.Todo = []Todo{u, t}
	} else {
		e, f := gEvent(), gEvent()
		e.Alarm = a
		cal.Event = []Event{e, f}
	}
	return cal
}

func vAlarmsOf(cal *Calendar, todo bool) []Alarm {
	if todo {
		vAssert(len(cal.Todo) == 2 && len(cal.Todo[0].Alarm) == 0, "alarm in another component")
		return cal.Todo[1].Alarm
	}
	vAssert(len(cal.Event) == 2 && len(cal.Event[1].Alarm) == 0, "alarm in another component")
	return cal.Event[0].Alarm
}

// H_C21_round: an alarm of kind p0 with p1 optional fields, behind and before alarms of another
// kind.
func H_C21_round() {
	vReset()
	todo := vFork(vBool())
	a := []Alarm{vAnAlarm(vParam(0), vParam(1))}
	if o := vChoice(6); o < 5 {
		a = append(a, vAnAlarm(o, 0))
		if vFork(vBool()) {
			a[0], a[1] = a[1], a[0]
		}
	}
	cal := vPlaceAlarms(todo, a)
	got := vDecode(vEncode(cal))
	b := vAlarmsOf(got, todo)
	vAssert(len(b) == len(a), "number of alarms changed")
	for i := range a {
		vAssert(b[i].Type() == a[i].Type(), "kind of alarm changed")
		vAssert(vEqual(a[i], b[i]), "alarm changed")
	}
	vAssert(vEqual(got, cal), "something else changed")
	vCover("C21 round trip")
}

// vAlarmLines returns a stream with the lines of an alarm in an event or to-do.
func vAlarmLines(todo bool, lines string) string {
	s := vSpecOf(12)
	if todo {
		s.inTodo()
	}
	return s.wrap(lines)
}

func vTheAlarm(cal *Calendar, todo bool) Alarm {
	if todo {
		vAssert(len(cal.Todo) == 1 && len(cal.Todo[0].Alarm) == 1, "alarm lost")
		return cal.Todo[0].Alarm[0]
	}
	vAssert(len(cal.Event) == 1 && len(cal.Event[0].Alarm) == 1, "alarm lost")
	return cal.Event[0].Alarm[0]
}

func vSameKind(a Alarm, kind int) bool {
	switch a.AlarmType.(type) {
	case *AlarmAudio:
		return kind == 0
	case *AlarmDisplay:
		return kind == 1
	case *AlarmEmail:
		return kind == 2
	case *AlarmURI:
		return kind == 3
	case *AlarmNone:
		return kind == 4
	}
	return false
}

// vAlarmSpec returns the rules of an alarm by its action.
func vAlarmSpec(kind int) vSpec {
	if kind == 4 {
		return vSpecOf(12)
	}
	return vSpecOf(7 + kind)
}

// H_C21_place: the action line of kind p0 at any place among the required lines and up to p1
// others, whichever they are.
func H_C21_place() {
	kind := vParam(0)
	todo := vFork(vBool())
	s := vAlarmSpec(kind)
	var lines []string
	l := &vLines{s: &s, count: make([]int, len(s.props))}
	for i, p := range s.props {
		if p.req && p.name != "ACTION" {
			l.count[i]++
			lines = append(lines, p.name+p.tail+"\r\n")
		}
	}
	for j := 0; j < vParam(1); j++ {
		i := vChoice(len(s.props))
		vAssume(s.props[i].name != "ACTION")
		l.count[i]++
		lines = append(lines, s.props[i].name+s.props[i].tail+"\r\n")
	}
	at := vChoice(len(lines) + 1)
	text, rest := "", ""
	for i, x := range lines {
		if i == at {
			text += "ACTION:" + vActions[kind] + "\r\n"
		}
		text += x
		rest += x
	}
	if at == len(lines) {
		text += "ACTION:" + vActions[kind] + "\r\n"
	}
	l.count[l.index("ACTION")]++
	cal, err := Decode(strings.NewReader(vAlarmLines(todo, text)))
	if !l.ok() {
		vAssert(err != nil, "an alarm that breaks the rules of its kind is accepted")
		vCover("C21 refused")
		return
	}
	vAssert(err == nil, "an alarm is refused")
	vAssert(vSameKind(vTheAlarm(cal, todo), kind), "alarm of another kind")
	vAssert(vEqual(cal, vDecode(vAlarmLines(todo, "ACTION:"+vActions[kind]+"\r\n"+rest))), "the place of the action line matters")
	vCover("C21 place")
}

const vAllAlarmLines = "TRIGGER:-PT15M\r\nDESCRIPTION:d\r\nSUMMARY:s\r\nURI:http://h\r\nATTACH:cid:x\r\n"

// H_C21_action: an action of p0 arbitrary bytes in an alarm with the lines of every kind.
func H_C21_action() {
	n := vParam(0)
	b := vRaw(n)
	for i := 0; i < n; i++ {
		vAssume(b[i] < 0x80)
	}
	todo := vFork(vBool())
	text := vAllAlarmLines
	switch vChoice(3) {
	case 0:
		text = "ACTION:" + b + "\r\n" + text
	case 1:
		text += "ACTION:" + b + "\r\n"
	case 2:
		text = "ACTION;X-Y=AUDIO:" + b + "\r\n" + text
	}
	kind := -1
	for k, a := range vActions {
		if len(a) == n && vFork(strings.ToUpper(b) == a) {
			kind = k
		}
	}
	cal, err := Decode(strings.NewReader(vAlarmLines(todo, text)))
	if kind < 0 {
		vAssert(err != nil, "an unknown action is accepted")
		vCover("C21 unknown action")
		return
	}
	vAssert(err == nil, "a known action is refused")
	a := vTheAlarm(cal, todo)
	vAssert(vSameKind(a, kind), "action read as another kind")
	vAssert(a.Type() == vActions[kind], "name of the kind")
	vCover("C21 known action")
}

// H_C21_actions: any number of actions other than one is refused, wherever they stand.
func H_C21_actions() {
	todo := vFork(vBool())
	lines := strings.SplitAfter(vAllAlarmLines, "\r\n")
	lines = lines[:len(lines)-1]
	n := vChoice(3)
	for i := 0; i < n; i++ {
		at := vChoice(len(lines) + 1)
		x := "ACTION:" + vActions[vChoice(5)] + "\r\n"
		lines = append(lines[:at], append([]string{x}, lines[at:]...)...)
	}
	cal, err := Decode(strings.NewReader(vAlarmLines(todo, strings.Join(lines, ""))))
	if n == 1 {
		vAssert(err == nil, "an alarm with one action is refused")
		vCover("C21 one action")
	} else {
		vAssert(err != nil && cal == nil, "an alarm without an action or with two is accepted")
		vCover("C21 no action or two")
	}
}

// H_C21_rules: an alarm of kind p0 with p1 lines of any kind of alarm.
func H_C21_rules() {
	kind := vParam(0)
	s := vAlarmSpec(kind)
	l := &vLines{s: &s, count: make([]int, len(s.props))}
	text := ""
	for i := 0; i < vParam(1); i++ {
		o := vAlarmSpec(vChoice(4))
		p := o.props[1+vChoice(len(o.props)-1)]
		text += p.name + p.tail + "\r\n"
		for j, q := range s.props {
			if q.name == p.name {
				l.count[j]++
			}
		}
	}
	l.count[l.index("ACTION")]++
	cal, err := Decode(strings.NewReader(vAlarmLines(false, text+"ACTION:"+vActions[kind]+"\r\n")))
	vAssert((err == nil) == (cal != nil), "calendar and error do not fit together")
	if l.ok() {
		vAssert(err == nil, "an alarm that meets the rules of its kind is refused")
		vAssert(vSameKind(cal.Event[0].Alarm[0], kind), "alarm of another kind")
		vCover("C21 rules met")
	} else {
		vAssert(err != nil, "an alarm that breaks the rules of its kind is accepted")
		vCover("C21 rules broken")
	}
}
