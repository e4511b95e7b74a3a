package ics

import (
	"io"
	"strings"
)

// C10: decoding does not depend on fold positions or on how the input arrives.

// vReader delivers a stream in chunks.
type vReader struct {
	s     string
	sizes []int // sizes of the chunks; the last one repeats
	eof   bool  // end of input reported together with the last bytes
	err   error // reported instead of end of input
	after int   // number of reads after the end of input
	idle  int   // if positive, every such read delivers nothing
	reads int
}

func (r *vReader) Read(p []byte) (int, error) {
	e := r.err
	if e == nil {
		e = io.EOF
	}
	r.reads++
	if r.idle > 0 && r.reads%r.idle == 0 {
		return 0, nil
	}
	if len(r.s) == 0 {
		r.after++
		return 0, e
	}
	n := len(r.s)
	if len(r.sizes) > 0 {
		if r.sizes[0] < n {
			n = r.sizes[0]
		}
		if len(r.sizes) > 1 {
			r.sizes = r.sizes[1:]
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if len(r.s) == 0 && r.eof {
		return n, e
	}
	return n, nil
}

// vSameResult decodes both streams and compares the results.
func vSameResult(s string, r io.Reader) {
	want, err := Decode(strings.NewReader(s))
	got, err2 := Decode(r)
	vAssert((err == nil) == (err2 == nil), "only one of the two forms of the stream is accepted")
	vAssert((got == nil) == (err2 != nil), "calendar and error do not fit together")
	if err == nil {
		vAssert(vEqual(want, got), "the two forms of the stream decode differently")
		vCover("C10 accepted")
	} else {
		vCover("C10 refused")
	}
}

// vPlain returns n bytes other than CR and LF.
func vPlain(n int) string {
	s := vString(n)
	for i := 0; i < n; i++ {
		vAssume(s[i] != '\r' && s[i] != '\n')
	}
	return s
}

const vHead = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nDTSTAMP:20200203T040506Z\r\nUID:u\r\nDTSTART:20200203T040506Z\r\n"
const vTail = "END:VEVENT\r\nEND:VCALENDAR\r\n"

// vFoldLine returns a line of the given form with n arbitrary bytes in it.
func vFoldLine(form, n int) string {
	switch form {
	case 0:
		return "SUMMARY:a" + vPlain(n) + "b"
	case 1:
		return "COMMENT;LANGUAGE=e" + vPlain(n) + "n;ALTREP=\"cid:x\":hi\\, you"
	case 2:
		return "ATTENDEE;CN=\"q" + vPlain(n) + "\";RSVP=TRUE;ROLE=CHAIR:mailto:x@y"
	case 3:
		return "X-UNKNOWN;X" + vPlain(n) + "=1:v"
	case 4:
		return "RRULE:FREQ=DAILY;COUNT=" + vPlain(n) + ";INTERVAL=2"
	case 5:
		return "DTEND;TZID=America/New_York:20200304T0506" + vPlain(n)
	case 6:
		return "ATTACH;ENCODING=BASE64;VALUE=BINARY:QUJD" + vPlain(n) + "RA=="
	case 7:
		return "SUM" + vPlain(n) + "ARY:h\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80  x"
	case 8:
		return "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT1" + vPlain(n) + "\r\nEND:VALARM"
	}
	return "BEGIN:X-" + vPlain(n) + "\r\nSUMMARY:a\r\nEND:X-Z"
}

var vFolds = [...]string{"\r\n ", "\r\n\t"}

// vFoldAt inserts a fold at one of the positions lo and up; a fold stands behind at least one
// byte of a line and not inside a line break.
func vFoldAt(s string, lo, span int, fold string) (string, int) {
	hi := len(s)
	if span > 0 && lo+span < hi {
		hi = lo + span
	}
	vAssume(lo <= hi)
	i := lo + vChoice(hi-lo+1)
	vAssume(i == len(s) || s[i] != '\n')
	vAssume(s[i-1] != '\n')
	return s[:i] + fold + s[i:], i
}

// H_C10_fold: one fold anywhere in a line with arbitrary bytes. Parameters: form, number of
// arbitrary bytes, fold sequence.
func H_C10_fold() {
	l := vFoldLine(vParam(0), vParam(1))
	f, _ := vFoldAt(l, 1, 0, vFolds[vParam(2)])
	vSameResult(vHead+l+"\r\n"+vTail, strings.NewReader(vHead+f+"\r\n"+vTail))
}

// H_C10_folds: two folds, the second close behind the first; the last parameter is the
// largest distance.
func H_C10_folds() {
	l := vFoldLine(vParam(0), vParam(1))
	f, i := vFoldAt(l, 1, 0, vFolds[vChoice(2)])
	f, _ = vFoldAt(f, i+3, vParam(2), vFolds[vChoice(2)])
	vSameResult(vHead+l+"\r\n"+vTail, strings.NewReader(vHead+f+"\r\n"+vTail))
}

// H_C10_head: a fold anywhere in the other lines of the stream.
func H_C10_head() {
	l := vHead + "SUMMARY:a" + vPlain(vParam(0)) + "b\r\n" + vTail
	f, _ := vFoldAt(l, 1, 0, vFolds[vChoice(2)])
	vSameResult(l, strings.NewReader(f))
}

// H_C10_every: a fold behind every byte of the line.
func H_C10_every() {
	l := vFoldLine(vParam(0), vParam(1))
	fold := vFolds[vChoice(2)]
	var f string
	for i := 0; i < len(l); i++ {
		f += l[i : i+1]
		if l[i] != '\n' && l[i] != '\r' {
			f += fold
		}
	}
	vSameResult(vHead+l+"\r\n"+vTail, strings.NewReader(vHead+f+"\r\n"+vTail))
}

// H_C10_chunks: a folded stream delivered in chunks of equal size.
func H_C10_chunks() {
	l := vHead + vFoldLine(vParam(0), vParam(1)) + "\r\n DESCRIPTION:x\r\n  y\xE2\r\n \x82\xAC\r\nDESCRIPTION:x\r\n  y\xE2\r\n \x82\xAC\r\n" + vTail
	vSameResult(l, &vReader{s: l, sizes: []int{vParam(2)}, eof: vFork(vBool())})
}

// H_C10_split: a folded stream delivered in two chunks, or with one short chunk in between,
// cut anywhere in the line.
func H_C10_split() {
	l := "D" + vFoldLine(vParam(0), vParam(1))[1:] + "\r\nDESCRIPTION:x\r\n  y\xE2\r\n \x82\xAC\r\n"
	i := len(vHead) + vChoice(len(l)+1)
	r := &vReader{s: vHead + l + vTail, sizes: []int{i, 1 + vChoice(vParam(2)), 5000}, eof: vFork(vBool())}
	vSameResult(vHead+l+vTail, r)
}

// H_C10_last: the end of the stream delivered in two chunks, end of input with or after it, and
// without the last line break.
func H_C10_last() {
	l := vHead + "SUMMARY:a" + vPlain(vParam(0)) + "\r\n" + vTail
	if vFork(vBool()) {
		l = l[:len(l)-2]
	}
	if vFork(vBool()) {
		l += "X:" + vPlain(vParam(0))
	}
	k := vChoice(16)
	vSameResult(l, &vReader{s: l, sizes: []int{len(l) - k, 5000}, eof: vFork(vBool())})
}

// H_C10_long: a fold at every position around the reader's block size.
func H_C10_long() {
	// the text is placed so that the fold starts vParam(0) bytes into the stream
	pre := vHead + "SUMMARY:"
	s := vPlain(vParam(1))
	pad := vParam(0) - len(pre) - len(s)
	t := strings.Repeat("a", pad) + s
	l := pre + t + "z  \xE2\x82\xACend\r\n" + vTail
	f := pre + t + vFolds[vChoice(2)] + "z  \xE2\x82\xACend\r\n" + vTail
	vSameResult(l, &vReader{s: f, sizes: []int{vParam(2)}, eof: vFork(vBool())})
}
