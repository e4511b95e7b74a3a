package ics

import (
	"errors"
	"strings"
)

// C15: truncated or failing input is never returned as a complete calendar.

var vLost = errors.New("lost")

// vCut cuts the stream before its i-th byte and expects an error from Decode, with end of input
// or with a failing reader, reported with or after the last bytes, whatever the chunks; full is
// every combination of these.
func vCut(s string, i int, full bool) {
	r := &vReader{s: s[:i], sizes: []int{5000}}
	var size int
	if full {
		size, r.eof = vChoice(7), vFork(vBool())
		if vFork(vBool()) {
			r.err = vLost
		}
	} else {
		switch vChoice(6) {
		case 1:
			r.eof = true
		case 2:
			r.eof, r.err = true, vLost
		case 3:
			size, r.err = 1, vLost
		case 4:
			size, r.eof = 2, true
		case 5:
			size = 4
		}
	}
	switch size {
	case 0:
	case 1:
		r.sizes = []int{1}
	case 2:
		r.sizes = []int{7}
	default:
		vAssume(size-2 < i)
		r.sizes = []int{i - (size - 2), 5000}
	}
	failing := r.err != nil
	cal, err := Decode(r)
	vAssert(err != nil, "a cut stream is accepted")
	vAssert(cal == nil, "a calendar is returned for a cut stream")
	vAssert(r.after < 10, "the reader is asked again and again after the end of input")
	vCover("C15 cut")
	if failing {
		vCover("C15 reader failure")
	}
}

// vClose is the closing line; a stream that contains it up to its last letter is complete.
const vClose = "END:VCALENDAR"

// H_C15_line: each property of component p0, its line with p1 arbitrary bytes at its end, cut at
// every position of the line and up to the closing line.
func H_C15_line() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	head, all := s.around(p.name)
	l := p.name + p.tail + vString(vParam(1)) + "\r\n"
	t := strings.Replace(all, "\x00", l, 1)
	lo := len(head)
	vCut(t, lo+vChoice(len(l)+1), vParam(2) == 1)
}

// H_C15_fold: the same with the line folded everywhere.
func H_C15_fold() {
	s := vSpecOf(vParam(0))
	p := s.props[vChoice(len(s.props))]
	head, all := s.around(p.name)
	l := p.name + p.tail
	f := ""
	for i := 0; i < len(l); i++ {
		f += l[i : i+1]
		if i%5 == vParam(1) {
			f += "\r\n "
		}
	}
	t := strings.Replace(all, "\x00", f+"\r\n", 1)
	lo := len(head)
	vCut(t, lo+vChoice(len(f)+3), vParam(2) == 1)
}

// H_C15_all: a stream with a component of kind p0, cut at every position.
func H_C15_all() {
	s := vSpecOf(vParam(0))
	t := s.wrap(s.required(""))
	vDecode(t)
	vCut(t, vChoice(strings.LastIndex(t, vClose)+len(vClose)), vParam(1) == 1)
}

// around returns the stream with a component that has everything the property named needs, a
// zero byte standing for its line, and what stands before that.
func (s *vSpec) around(name string) (head, all string) {
	all = s.wrap(s.complete(name) + "\x00")
	return all[:strings.IndexByte(all, 0)], all
}

// H_C15_end: p0 arbitrary bytes in place of the end of the closing line.
func H_C15_end() {
	s := vSpecOf(0)
	t := s.wrap(s.required(""))
	n := strings.LastIndex(t, vClose) + len(vClose)
	k := 1 + vChoice(6)
	end := vString(vParam(0))
	cal, err := Decode(&vReader{s: t[:n-k] + end, sizes: []int{5000}})
	vAssert((cal == nil) == (err != nil), "calendar and error do not fit together")
	if err == nil {
		vAssert(len(end) >= k, "a stream without its closing line is accepted")
		for j := 0; j < k; j++ {
			vAssert(end[j] == t[n-k+j] || end[j] == t[n-k+j]+'a'-'A', "a stream with another closing line is accepted")
		}
		vCover("C15 closed")
	} else {
		vCover("C15 not closed")
	}
}

// H_C15_unknown: an unknown component with another one inside, in component p0, cut at every
// position from its first line on; with p1 arbitrary bytes in it.
func H_C15_unknown() {
	s := vSpecOf(vParam(0))
	req := s.required("")
	x := "BEGIN:X-A\r\nSUMMARY:x" + vPlain(vParam(1)) + "\r\nBEGIN:X-B\r\nX;Y=z:y\r\nEND:X-B\r\nEND:X-A\r\n"
	t := s.wrap(req + x)
	lo := strings.Index(t, "BEGIN:X-A")
	vCut(t, lo+vChoice(strings.LastIndex(t, vClose)+len(vClose)-lo), false)
}
