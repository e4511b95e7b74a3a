package ics

import (
	"bytes"
	"errors"
	"strings"
)

// C14: a failing writer makes Encode fail, and only a failing writer.

var vBroken = errors.New("broken")

// vWriter accepts room bytes and then fails; how tells what it does with the write that is too
// long: take what fits, take nothing, or take all of it and fail nevertheless. With count set
// room is a number of writes instead.
type vWriter struct {
	want   string // the complete output
	pos    int    // bytes offered so far
	room   int
	how    int
	count  bool
	failed bool
}

func (w *vWriter) Write(p []byte) (int, error) {
	vAssert(!w.failed, "something is written after a failure")
	vAssert(w.pos+len(p) <= len(w.want) && string(p) == w.want[w.pos:w.pos+len(p)], "a failing writer gets other bytes")
	w.pos += len(p)
	if w.count {
		if w.room > 0 {
			w.room--
			return len(p), nil
		}
		w.failed = true
		return 0, vBroken
	}
	if vFork(w.room >= len(p)) {
		w.room -= len(p)
		return len(p), nil
	}
	w.failed = true
	switch w.how {
	case 0:
		return w.room, vBroken
	case 1:
		return 0, vBroken
	}
	return len(p), vBroken
}

// vTally counts writes.
type vTally struct {
	bytes.Buffer
	writes int
}

func (t *vTally) Write(p []byte) (int, error) {
	t.writes++
	return t.Buffer.Write(p)
}

// vFails encodes cal with writers that fail.
func vFails(cal *Calendar) {
	want := vEncode(cal)
	var t vTally
	vAssert(Encode(&t, cal) == nil, "Encode fails though the writer does not")
	vAssert(t.String() == want, "two runs write different bytes")
	w := &vWriter{want: want, how: vChoice(4)}
	if w.how == 3 {
		w.count, w.room = true, vChoice(t.writes+1)
	} else {
		w.room = vInt(0, len(want))
	}
	err := Encode(w, cal)
	if w.failed {
		vAssert(err != nil, "Encode hides the writer's failure")
		vAssert(err == vBroken, "Encode does not return the writer's error")
		vCover("C14 failure")
	} else {
		vAssert(err == nil, "Encode fails though the writer does not")
		vAssert(w.pos == len(want), "the output is incomplete")
		vCover("C14 no failure")
	}
}

// H_C14_hosts: component kind p0 with each property, with all its parameters.
func H_C14_hosts() {
	kind := vParam(0)
	cal := vHost(kind, vField(kind), func() { vAll = true })
	vFails(cal)
}

// H_C14_long: a text of p0 letters and p1 arbitrary bytes, an attachment of p2 bytes.
func H_C14_long() {
	cal := vCal()
	e := vEvent()
	e.Summary = &PropSummary{Text: Text(strings.Repeat("a", vParam(0)) + vText(vParam(1)))}
	if vParam(2) > 0 {
		b := Binary(vString(vParam(2)))
		e.Attachment = []PropAttachment{{Binary: &b}}
	}
	cal.Event = []Event{e}
	vFails(cal)
}

// H_C14_refused: a calendar that is refused does not reach the writer.
func H_C14_refused() {
	cal := vCal()
	e := vEvent()
	e.Summary = &PropSummary{Text: Text(vString(vParam(0)))}
	cal.Event = []Event{e}
	var b bytes.Buffer
	err := Encode(&b, cal)
	if err != nil {
		w := &vWriter{}
		vAssert(Encode(w, cal) != nil, "a refused calendar is accepted")
		vAssert(!w.failed && w.pos == 0, "a refused calendar reaches the writer")
		vCover("C14 refused")
	} else {
		vFails(cal)
	}
}
