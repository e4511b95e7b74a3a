package ics

import (
	"net/url"
	"strings"
	"time"
)

// Generators of valid values of every property and parameter type. The values are symbolic;
// their shape (parameters, alternatives, zones, enumeration members) is fixed unless vRich is
// set, in which case every shape is explored.

var vRich bool

// vWordLen is the number of symbolic letters in a generated word.
var vWordLen = 1

// vPlainMode asks for words of any characters without a meaning of their own, not only letters.
var vPlainMode bool

// vBefore and vBehind are the numbers of letters before and behind the arbitrary bytes of a string.
var vBefore, vBehind int

// The modes below widen one kind of value to its full range.
var (
	vTextMode  int  // number of arbitrary text bytes in a Text; negative for empty texts
	vParamMode int  // number of arbitrary text bytes in a string parameter
	vTimeMode  bool // every civil date and time
	vNumMode   int  // number of digits of numbers
	vIntMode   int  // number of digits of integer properties, if not vNumMode
	vEnumMode  bool // every member of an enumeration
	vPickMax   int  // if positive, the largest number of optional parameters
	vPicked    int
	vAll       bool // every optional parameter
	vRawLen    int  // if not zero, one string (the vRawAt-th) has that many arbitrary bytes, or is plain
	vRawAt     int
	vZoneRaw   bool // a fixed zone as the vRawAt-th string
	vURIWay    int  // the form of URIs
	vRawDone   bool // the string has been generated
	vListLen   int  // if positive, the number of members of lists
	vBad       int  // if not zero, the vBadAt-th value of that sort is invalid (see c13.go)
	vBadAt     int
	vBadDone   bool
)

func vReset() {
	vRich, vWordLen, vPlainMode, vBefore, vBehind = false, 1, false, 0, 0
	vTextMode, vParamMode, vTimeMode, vNumMode, vEnumMode, vPickMax, vPicked = 0, 0, false, 0, false, 0, 0
	vBad, vBadAt = 0, 0
	vListLen, vIntMode = 0, 0
	vAll, vRawLen, vRawAt, vZoneRaw, vURIWay = false, 0, 0, false, 0
}

// vBadNow reports whether the value about to be generated, of the given sort, is to be invalid.
func vBadNow(sort int) bool {
	if vBad != sort {
		return false
	}
	vBadAt--
	vBadDone = vBadDone || vBadAt == -1
	return vBadAt == -1
}

// vPick decides whether an optional parameter is present.
func vPick() bool {
	if vAll {
		return true
	}
	if !vRich || vPickMax > 0 && vPicked >= vPickMax || !vFork(vBool()) {
		return false
	}
	vPicked++
	return true
}

// vLen is the length of a list that usually has n members.
func vLen(n int) int {
	if vListLen > 0 {
		return vListLen
	}
	return n
}

// vEnum chooses a member of an enumeration.
func vEnum(n int) int {
	if vEnumMode {
		return vChoice(n)
	}
	return 1
}

// vRawString reports whether this is the string to be filled with arbitrary bytes.
func vRawString() bool {
	if vRawLen == 0 {
		return false
	}
	vRawAt--
	vRawDone = vRawDone || vRawAt == -1
	return vRawAt == -1
}

func vRawBytes() string {
	if vRawLen < 0 {
		return "zz"
	}
	return vPadded(vString(vRawLen))
}

// vPadded puts s between vBefore and vBehind letters.
func vPadded(s string) string {
	return strings.Repeat("a", vBefore) + s + strings.Repeat("b", vBehind)
}

// vPWord returns the value of a string parameter.
func vPWord() string {
	if vBadNow(vBadText) {
		return vBadString()
	}
	if vParamMode > 0 {
		return vPadded(vText(vParamMode))
	}
	return vPlainWord(false)
}

// vWay chooses one of n shapes; without vRich always the first.
func vWay(n int) int {
	if !vRich {
		return 0
	}
	return vChoice(n)
}

// vMember chooses a member of an enumeration; without vRich always the first.
func vMember(n int) int {
	if vBadNow(vBadEnum) {
		return vBadMember(n)
	}
	return vWay(n)
}

// vWord returns a short word of symbolic lower-case letters.
func vWord() string {
	if vRawString() {
		return vRawBytes()
	}
	b := make([]byte, vWordLen)
	for i := range b {
		b[i] = vLetter()
	}
	return string(b)
}

func vLetter() byte {
	c := vByte()
	if vPlainMode {
		vAssume((c|0x20)-'a' < 26 || c-'0' < 10)
	} else {
		vAssume('a' <= c && c <= 'z')
	}
	return c
}

// vPlainWord returns a short word that needs no escapes as a text or as a parameter.
func vPlainWord(text bool) string {
	if !vPlainMode || vRawLen != 0 {
		return vWord()
	}
	b := make([]byte, vWordLen)
	for i := range b {
		c := vByte()
		if text {
			vAssume(' ' <= c && c <= '~' && c != ',' && c != ';' && c != '\\')
		} else {
			vAssume(' ' <= c && c <= '~' && c != '"' && c != ',' && c != ':' && c != ';' && c != '^')
		}
		b[i] = c
	}
	return string(b)
}

// vRange returns an integer between lo and hi.
func vRange(lo, hi int) int {
	var n int
	switch {
	case lo < 0 || hi <= 99:
		n = vInt(lo, hi)
	case hi%100 == 99:
		// in chunks of two decimal digits, which keeps decimal arithmetic cheap
		n = vRange(lo/100, hi/100)*100 + vInt(0, 99)
	case lo/100 < hi/100 && vFork(vBool()):
		n = vRange(lo/100, hi/100-1)*100 + vInt(0, 99)
	default:
		n = hi/100*100 + vInt(0, hi%100)
	}
	vAssume(lo <= n && n <= hi)
	return n
}

func gText() Text {
	if vBadNow(vBadText) {
		return Text(vBadString())
	}
	if vTextMode > 0 {
		return Text(vPadded(vText(vTextMode)))
	}
	if vTextMode < 0 {
		return ""
	}
	return Text(vPlainWord(true))
}

func gMText() MText {
	if vBadNow(vBadCount) {
		return nil
	}
	if vWay(2) == 1 {
		return MText{gText()}
	}
	m := make(MText, vLen(2))
	for i := range m {
		m[i] = gText()
	}
	return m
}

func gURI() URI {
	if vBadNow(vBadURI) {
		return URI{URL: vBadURL()}
	}
	if vURIWay == 1 || vWay(2) == 1 {
		return URI{URL: url.URL{Scheme: "http", Host: vWord(), Path: "/" + vWord(), RawQuery: vWord()}}
	}
	return URI{URL: url.URL{Scheme: "cid", Opaque: vWord()}}
}

func gAddr() CalendarAddress {
	if vBadNow(vBadURI) {
		return CalendarAddress{URL: vBadURL()}
	}
	return CalendarAddress{URL: url.URL{Scheme: "mailto", Opaque: vWord() + "@" + vWord()}}
}

func vAddrs(n int) []CalendarAddress {
	a := make([]CalendarAddress, vLen(n))
	for i := range a {
		a[i] = gAddr()
	}
	return a
}

var vNewYork *time.Location

func vNamedZone() *time.Location {
	if vNewYork == nil {
		l, err := time.LoadLocation("America/New_York")
		if err != nil {
			panic("no zone data")
		}
		vNewYork = l
	}
	return vNewYork
}

func gZone() *time.Location {
	if vBadNow(vBadZone) {
		return vBadLocation()
	}
	if vZoneRaw && vRawString() {
		n := vRawBytes()
		vAssume(n != "UTC" && n != "Local")
		return time.FixedZone(n, 0)
	}
	switch vWay(3) {
	case 1:
		return time.Local
	case 2:
		return vNamedZone()
	}
	return time.UTC
}

func gTime(l *time.Location) time.Time {
	if vBadNow(vBadTime) {
		return vBadInstant(l)
	}
	if vTimeMode {
		return vAnyTime(l)
	}
	return time.Date(2021, 3, vRange(10, 28), 12, vRange(10, 59), 7, 0, l)
}

func gDateTime() DateTime { return DateTime{Time: gTime(gZone())} }

func gDate() Date {
	if vBadNow(vBadTime) {
		return Date{Time: vBadInstant(time.UTC)}
	}
	if vTimeMode {
		return Date{Time: vAnyDate()}
	}
	return Date{Time: time.Date(2021, 4, vRange(10, 28), 0, 0, 0, 0, time.UTC)}
}

func vLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// vCivil returns an arbitrary civil date of the years 1 to 9999, other than the first of them.
func vCivil() (int, time.Month, int) {
	y, m, d := vRange(1, 9999), vRange(1, 12), vRange(1, 31)
	vAssume(d <= 28 || m != 2 && (d <= 30 || m != 4 && m != 6 && m != 9 && m != 11) || m == 2 && d == 29 && vLeap(y))
	vAssume(y > 1 || m > 1 || d > 1)
	return y, time.Month(m), d
}

func vAnyTime(l *time.Location) time.Time {
	y, m, d := vCivil()
	return time.Date(y, m, d, vRange(0, 23), vRange(0, 59), vRange(0, 59), 0, l)
}

func vAnyDate() time.Time {
	y, m, d := vCivil()
	return time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
}

// vNum returns a number of up to vNumMode decimal digits, or one between lo and hi.
func vNum(lo, hi int) int {
	if vNumMode == 0 {
		return vRange(lo, hi)
	}
	m := 1
	for i := 0; i < vNumMode; i++ {
		m *= 10
	}
	return vRange(0, m-1)
}

func gDuration() Duration {
	if vBadNow(vBadDuration) {
		return vBadSpan()
	}
	switch vWay(3) {
	case 1:
		return Duration{Negative: vBool(), Weeks: uint(vNum(1, 9))}
	case 2:
		if vNumMode > 0 {
			return Duration{Negative: vBool(), Days: uint(vNum(1, 9)), Hours: uint(vNum(1, 9)), Minutes: uint(vNum(1, 9)), Seconds: uint(vNum(1, 9))}
		}
		return Duration{Days: uint(vRange(1, 9)), Hours: uint(vRange(1, 9)), Seconds: uint(vRange(1, 9))}
	}
	return Duration{Minutes: uint(vRange(10, 99))}
}

func gPeriod() Period {
	l := gZone()
	if vBadNow(vBadPeriod) {
		return vBadStretch(l)
	}
	if vTimeMode {
		p := Period{Start: DateTime{Time: vAnyTime(l)}}
		if vWay(2) == 1 {
			p.Duration.Hours = 1
		} else {
			p.End.Time = vAnyTime(l)
			vAssume(p.End.After(p.Start.Time))
		}
		return p
	}
	s := time.Date(2021, 5, 6, 7, vRange(10, 29), 9, 0, l)
	if vWay(2) == 1 {
		return Period{Start: DateTime{Time: s}, Duration: Duration{Hours: uint(vRange(1, 9))}}
	}
	return Period{Start: DateTime{Time: s}, End: DateTime{Time: time.Date(2021, 5, 6, 7, vRange(30, 59), 9, 0, l)}}
}

func gRecur() Recur {
	if vBadNow(vBadRule) {
		return vBadRecur()
	}
	r := Recur{Frequency: Daily, Interval: uint64(vRange(10, 99))}
	if vListLen > 0 {
		vLongLists(&r, -1)
		return r
	}
	switch vWay(6) {
	case 1:
		r.Frequency = Yearly
		r.Count = uint64(vRange(10, 99))
		r.ByDay = []DayRecur{{Day: Monday, Occurrence: int8(vRange(1, 9))}, {Day: Sunday}}
	case 2:
		r.Frequency = Monthly
		r.Until = gTime(time.UTC)
		r.UntilTime = true
		r.ByMonthDay = []int8{int8(vRange(10, 31)), int8(-vRange(1, 9))}
	case 3:
		r.Frequency = Weekly
		r.Until = time.Date(2022, 1, vRange(10, 31), 0, 0, 0, 0, time.UTC)
		r.WeekStart = Tuesday
	case 4:
		r.Until = gTime(vNamedZone())
		r.UntilTime = true
	case 5:
		r.Until = gTime(time.Local)
		r.UntilTime = true
	}
	vAssume(!r.UntilTime || !r.Until.IsZero())
	return r
}

// parameters; nil unless chosen

func gLanguage() *ParamLanguage {
	if !vPick() {
		return nil
	}
	return NewLanguage(ParamLanguage(vPWord()))
}

func gAltRep() *ParamAlternativeRepresentation {
	if !vPick() {
		return nil
	}
	p := ParamAlternativeRepresentation(URI{URL: url.URL{Scheme: "cid", Opaque: vWord()}})
	return &p
}

func gCommonName() *ParamCommonName {
	if !vPick() {
		return nil
	}
	return NewCommonName(ParamCommonName(vPWord()))
}

func gDirectoryEntry() *ParamDirectoryEntry {
	if !vPick() {
		return nil
	}
	return NewDirectoryEntry(ParamDirectoryEntry(vPWord()))
}

func gSentBy() *ParamSentBy {
	if !vPick() {
		return nil
	}
	return NewSentBy(ParamSentBy(vPWord()))
}

func gFormatType() *ParamFormatType {
	if !vPick() {
		return nil
	}
	if vBadNow(vBadFormat) {
		return NewFormatType(ParamFormatType(vBadType()))
	}
	plain := vPlainMode
	vPlainMode = false // the expression that finds the type tells digits and letters apart
	t := ParamFormatType(vWord() + "/" + vWord())
	vPlainMode = plain
	return NewFormatType(t)
}

// properties

func gAttachment() (p PropAttachment) {
	p.FormatType = gFormatType()
	if vBadNow(vBadCount) {
		if vFork(vBool()) {
			u := gURI()
			p.URI, p.Binary = &u, &Binary{1}
		}
		return
	}
	if vWay(2) == 1 {
		b := Binary{vByte(), vByte(), vByte()}
		p.Binary = &b
		return
	}
	u := gURI()
	p.URI = &u
	return
}

func gAttendee() (p PropAttendee) {
	if vPick() {
		p.CalendarUserType = ParamCalendarUserType(vEnum(5)).New()
	}
	if vPick() {
		p.Member = make(ParamMember, vLen(2))
		for i := range p.Member {
			p.Member[i] = vPWord()
		}
	}
	if vPick() {
		p.ParticipationRole = ParamParticipationRole(vEnum(5)).New()
	}
	if vPick() {
		p.ParticipationStatus = ParamParticipationStatus(vEnum(8)).New()
	}
	if vPick() {
		p.RSVP = NewRSVP(ParamRSVP(vWay(2) == 0))
	}
	if vPick() {
		p.Delagatee = ParamDelagatee(vAddrs(2))
	}
	if vPick() {
		p.Delegator = ParamDelegator(vAddrs(1))
	}
	p.SentBy = gSentBy()
	p.CommonName = gCommonName()
	p.DirectoryEntry = gDirectoryEntry()
	p.Language = gLanguage()
	p.CalendarAddress = gAddr()
	return
}

func gOrganizer() PropOrganizer {
	return PropOrganizer{CommonName: gCommonName(), DirectoryEntry: gDirectoryEntry(), SentBy: gSentBy(), Language: gLanguage(), CalendarAddress: gAddr()}
}

func gCategories() PropCategories { return PropCategories{Language: gLanguage(), MText: gMText()} }
func gResources() PropResources {
	return PropResources{AlternativeRepresentation: gAltRep(), Language: gLanguage(), MText: gMText()}
}
func gComment() PropComment { return PropComment{gAltRep(), gLanguage(), gText()} }
func gContact() PropContact { return PropContact{gAltRep(), gLanguage(), gText()} }
func gDescription() PropDescription {
	return PropDescription{gAltRep(), gLanguage(), gText()}
}
func gLocation() PropLocation         { return PropLocation{gAltRep(), gLanguage(), gText()} }
func gSummary() PropSummary           { return PropSummary{gAltRep(), gLanguage(), gText()} }
func gClass() PropClass               { return PropClass(vMember(3)) }
func gCompleted() PropCompleted       { return PropCompleted(gDateTime()) }
func gCreated() PropCreated           { return PropCreated(gDateTime()) }
func gLastModified() PropLastModified { return PropLastModified(gDateTime()) }
func gDateTimeStamp() PropDateTimeStamp {
	return PropDateTimeStamp(gDateTime())
}
func gLastTriggered() PropLastTriggered { return PropLastTriggered(gDateTime()) }
func gAcknowledged() PropAcknowledged   { return PropAcknowledged(gDateTime()) }

// vTimeOrDate chooses between the two alternatives.
func vTimeOrDate() (*DateTime, *Date) {
	if vBadNow(vBadCount) {
		if vFork(vBool()) {
			return nil, nil
		}
		t, d := gDateTime(), gDate()
		return &t, &d
	}
	if vWay(2) == 1 {
		d := gDate()
		return nil, &d
	}
	d := gDateTime()
	return &d, nil
}

func gDateTimeStart() (p PropDateTimeStart) { p.DateTime, p.Date = vTimeOrDate(); return }
func gDateTimeEnd() (p PropDateTimeEnd)     { p.DateTime, p.Date = vTimeOrDate(); return }
func gDue() (p PropDue)                     { p.DateTime, p.Date = vTimeOrDate(); return }
func gExceptionDateTime() (p PropExceptionDateTime) {
	p.DateTime, p.Date = vTimeOrDate()
	return
}
func gRecurrenceID() (p PropRecurrenceID) {
	if vPick() {
		p.Range = new(ParamRange)
	}
	p.DateTime, p.Date = vTimeOrDate()
	return
}
func gRecurrenceDateTimes() (p PropRecurrenceDateTimes) {
	if vBadNow(vBadCount) {
		t, d, x := gDateTime(), gDate(), gPeriod()
		switch vChoice(5) {
		case 1:
			p.DateTime, p.Date = &t, &d
		case 2:
			p.DateTime, p.Period = &t, &x
		case 3:
			p.Date, p.Period = &d, &x
		case 4:
			p.DateTime, p.Date, p.Period = &t, &d, &x
		}
		return
	}
	if vWay(2) == 1 {
		x := gPeriod()
		p.Period = &x
		return
	}
	p.DateTime, p.Date = vTimeOrDate()
	return
}
func gTrigger() (p PropTrigger) {
	if vBadNow(vBadCount) {
		if vFork(vBool()) {
			t, d := gDateTime(), gDuration()
			p.DateTime, p.Duration = &t, &d
		}
		return
	}
	if vWay(2) == 1 {
		d := gDateTime()
		p.DateTime = &d
		return
	}
	d := gDuration()
	p.Duration = &d
	return
}
func gPropDuration() PropDuration { return PropDuration(gDuration()) }
func gFreeBusy() (p PropFreeBusy) {
	if vPick() {
		p.FreeBusyType = ParamFreeBusyType(vEnum(5)).New()
	}
	p.Period = gPeriod()
	return
}
func gGeo() PropGeo {
	if vBadNow(vBadGeo) {
		return vBadPlace()
	}
	return PropGeo{float64(vWay(2)) + 1.5, -2.25}
}

func gInteger() int32 {
	d := vNumMode
	if vIntMode > 0 {
		d = vIntMode
	}
	if d > 0 {
		m := 1
		for i := 0; i < d; i++ {
			m *= 10
		}
		n := vRange(0, m-1)
		if vFork(vBool()) {
			n = -n
		}
		return int32(n)
	}
	return int32(vRange(10, 99))
}
func gPercentComplete() PropPercentComplete   { return PropPercentComplete(gInteger()) }
func gPriority() PropPriority                 { return PropPriority(gInteger()) }
func gSequence() PropSequence                 { return PropSequence(gInteger()) }
func gRepeat() PropRepeat                     { return PropRepeat(gInteger()) }
func gStatus() PropStatus                     { return PropStatus(vMember(8)) }
func gTimeTransparency() PropTimeTransparency { return PropTimeTransparency(vMember(2)) }
func gAlarmStatus() PropAlarmStatus           { return PropAlarmStatus(vMember(3)) }
func gRelatedTo() (p PropRelatedTo) {
	if vPick() {
		p.RelationshipType = ParamRelationshipType(vEnum(4)).New()
	}
	p.Text = gText()
	return
}
func gRequestStatus() PropRequestStatus   { return PropRequestStatus(gText()) }
func gRecurrenceRule() PropRecurrenceRule { return PropRecurrenceRule(gRecur()) }
func gURL() PropURL                       { return PropURL(gURI()) }
func gPropURI() PropURI                   { return PropURI(gURI()) }
func gTimezoneURL() PropTimezoneURL       { return PropTimezoneURL(gURI()) }
func gGeoLocation() PropGeoLocation       { return PropGeoLocation(gURI()) }
func gUID() PropUID                       { return PropUID(gText()) }
func gTimezoneID() PropTimezoneID         { return PropTimezoneID(gText()) }
func gVersion() PropVersion               { return PropVersion(gText()) }
func gProductID() PropProductID           { return PropProductID(gText()) }
func gProximity() PropProximity           { return PropProximity(gText()) }
func gDefaultAlarm() PropDefaultAlarm     { return PropDefaultAlarm(vWay(2) == 0) }
func gTimezoneName() PropTimezoneName     { return PropTimezoneName{gLanguage(), gText()} }
func gOffset() int {
	if vBadNow(vBadOffset) {
		return vBadShift()
	}
	switch vWay(3) {
	case 1:
		return -3600 * vRange(1, 9)
	case 2:
		return 3600*vRange(10, 23) + vRange(0, 59)
	}
	return 3600 * vRange(1, 9)
}
func gTimezoneOffsetFrom() PropTimezoneOffsetFrom { return PropTimezoneOffsetFrom(gOffset()) }
func gTimezoneOffsetTo() PropTimezoneOffsetTo     { return PropTimezoneOffsetTo(gOffset()) }
func gAlarmAgent() (p PropAlarmAgent) {
	if vPick() {
		u := ParamURI(gURI())
		p.URI = &u
	}
	if vPick() {
		p.ID = NewID(ParamID(vPWord()))
	}
	if vPick() {
		p.AgentID = NewAgentID(ParamAgentID(vPWord()))
	}
	p.Text = gText()
	return
}
