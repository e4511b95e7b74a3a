package main

import (
	"fmt"
	"time"
)

// Times are kept in a packed civil form: Time.ext holds pack(y,mo,d,h,mi,s) minus the packed
// form of 0001-01-01 00:00:00, so that the zero Time, ordering and equality work unchanged in
// the real code of package time, while the calendar arithmetic (division by 146097 and so on)
// is replaced by these functions. The civil fields are those of the time's own zone; conversions
// between zones look the offset up in the zone data, one period of constant offset at a time.

const pack0 = 1<<26 | 1<<22 | 1<<17

func packC(y, mo, d, h, mi, s int) uint64 {
	return uint64(int64(y)<<26 | int64(mo)<<22 | int64(d)<<17 | int64(h)<<12 | int64(mi)<<6 | int64(s) - pack0)
}

func unpackC(v uint64) [6]int {
	p := int64(v) + pack0
	return [6]int{int(p >> 26), int(p >> 22 & 15), int(p >> 17 & 31), int(p >> 12 & 31), int(p >> 6 & 63), int(p & 63)}
}

func nativeTime(v uint64) time.Time {
	c := unpackC(v)
	return time.Date(c[0], time.Month(c[1]), c[2], c[3], c[4], c[5], 0, time.UTC)
}

func packTime(t time.Time) uint64 {
	return packC(t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second())
}

func (m *Machine) packS(c [6]Value) Value {
	x := m.x
	r := x.Const(0, 64)
	for i, sh := range []uint64{26, 22, 17, 12, 6, 0} {
		r = x.Bin(OOr, r, x.Bin(OShl, m.expr(c[i], 64), x.Const(sh, 64)))
	}
	k := int64(pack0)
	v := unexpr(x.Bin(OAdd, r, x.Const(uint64(-k), 64)))
	if e, ok := v.(*Expr); ok {
		if _, had := m.packs[e]; !had {
			m.packs[e] = c
			m.onUndo(func() { delete(m.packs, e) })
		}
	}
	return v
}

func (m *Machine) unpack(v Value) [6]Value {
	switch v := v.(type) {
	case uint64:
		c := unpackC(v)
		var r [6]Value
		for i := range c {
			r[i] = uint64(int64(c[i]))
		}
		return r
	case *Expr:
		if c, ok := m.packs[v]; ok {
			return c
		}
		x := m.x
		p := x.Bin(OAdd, v, x.Const(pack0, 64))
		var r [6]Value
		r[0] = unexpr(x.Bin(OAshr, p, x.Const(26, 64)))
		for i, sh := range []uint64{22, 17, 12, 6, 0} {
			r[i+1] = unexpr(x.Bin(OAnd, x.Bin(OLshr, p, x.Const(sh, 64)), x.Const([]uint64{15, 31, 31, 63, 63}[i], 64)))
		}
		return r
	}
	panic("unpack")
}

// locName is "UTC", "Local" or the name of the zone.
func (m *Machine) locName(v Value) string {
	p, _ := v.(*Value)
	if p == nil || p == m.utcLoc().(*Value) {
		return "UTC"
	}
	if p == m.localLoc().(*Value) {
		return "Local"
	}
	s, ok := (*p).(Struct)[0].(string)
	if !ok {
		return fmt.Sprintf("?%p", p)
	}
	return s
}

func (m *Machine) concTime(v Value, what string) uint64 {
	s, ok := v.(Struct)[1].(uint64)
	if !ok {
		m.unsupported("symbolic " + what)
	}
	return s
}

func (m *Machine) isLocalZone(v Value) bool {
	return m.locName(v) == "UTC" || m.locName(v) == "Local"
}

// normal reports whether the six fields are in their normal ranges.
func (m *Machine) normal(c [6]Value) *Expr {
	x := m.x
	k := func(v uint64) *Expr { return x.Const(v, 64) }
	e := func(i int) *Expr { return m.expr(c[i], 64) }
	ok := x.Ult(e(0), k(100000))
	ok = x.And(ok, x.And(x.Not(x.Ult(e(1), k(1))), x.Ult(e(1), k(13))))
	ok = x.And(ok, x.Ult(e(3), k(24)))
	ok = x.And(ok, x.Ult(e(4), k(60)))
	ok = x.And(ok, x.Ult(e(5), k(60)))
	days := m.monthDays(e(0), e(1))
	d := e(2)
	return x.And(ok, x.And(x.Not(x.Ult(d, k(1))), x.Not(x.Ult(days, d))))
}

func timeIntrinsics() {
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	reg("time.Date", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		var c [6]Value
		all := true
		for i := range c {
			c[i] = a[i]
			if !conc(a[i]) {
				all = false
			}
		}
		if n, ok := a[6].(uint64); ok && n >= 1e9 || !ok && !m.decide(m.x.Ult(a[6].(*Expr), m.x.Const(1e9, 64))) {
			m.unsupported("time.Date with nanoseconds out of range")
		}
		if p, _ := a[7].(*Value); p == nil {
			m.goPanic("time: missing Location in call to Date")
		}
		loc := a[7]
		if loc == m.utcLoc() {
			loc = (*Value)(nil)
		}
		if all {
			var n [6]int
			for i := range n {
				n[i] = int(int64(c[i].(uint64)))
			}
			t := time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], 0, time.UTC)
			return Struct{a[6], packTime(t), loc}, true
		}
		if !m.decide(m.normal(c)) {
			m.unsupported("time.Date with fields out of range")
		}
		return Struct{a[6], m.packS(c), loc}, true
	})
	reg("(time.Time).locabs", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		t := a[0].(Struct)
		name := m.locName(t[2])
		if name == "Local" {
			name = "UTC"
		}
		return Tuple{name, uint64(0), t[1]}, true
	})
	ident := func(m *Machine, fr *Frame, a []Value) (Value, bool) { return a[0], true }
	reg("(time.Time).absSec", func(m *Machine, fr *Frame, a []Value) (Value, bool) { return a[0].(Struct)[1], true })
	reg("(time.absSeconds).days", ident)
	reg("(time.absDays).date", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		c := m.unpack(a[0])
		return Tuple{c[0], c[1], c[2]}, true
	})
	reg("(time.absSeconds).clock", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		c := m.unpack(a[0])
		return Tuple{c[3], c[4], c[5]}, true
	})
	for i, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second"} {
		reg("(time.Time)."+n, func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			return m.unpack(a[0].(Struct)[1])[i], true
		})
	}
	reg("(time.Time).Date", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		c := m.unpack(a[0].(Struct)[1])
		return Tuple{c[0], c[1], c[2]}, true
	})
	reg("(time.Time).Clock", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		c := m.unpack(a[0].(Struct)[1])
		return Tuple{c[3], c[4], c[5]}, true
	})
	reg("(time.absDays).weekday", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		v, ok := a[0].(uint64)
		if !ok {
			m.unsupported("weekday of symbolic date")
		}
		return uint64(nativeTime(v).Weekday()), true
	})
	reg("(time.absDays).yearYday", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		v, ok := a[0].(uint64)
		if !ok {
			m.unsupported("day of year of symbolic date")
		}
		return Tuple{uint64(int64(nativeTime(v).Year())), uint64(nativeTime(v).YearDay())}, true
	})
	reg("(time.Time).Add", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		t := a[0].(Struct)
		d, ok := a[1].(uint64)
		v, ok2 := t[1].(uint64)
		if ok && d == 0 {
			return t, true
		}
		if ok && ok2 && int64(d)%1e9 == 0 {
			return Struct{t[0], packTime(nativeTime(v).Add(time.Duration(d))), t[2]}, true
		}
		return Struct{t[0], m.freshCivil(), t[2]}, true
	})
	reg("(time.Time).AddDate", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		t := a[0].(Struct)
		v, ok := t[1].(uint64)
		if ok && conc(a[1]) && conc(a[2]) && conc(a[3]) {
			n := nativeTime(v).AddDate(int(int64(a[1].(uint64))), int(int64(a[2].(uint64))), int(int64(a[3].(uint64))))
			return Struct{t[0], packTime(n), t[2]}, true
		}
		return Struct{t[0], m.freshCivil(), t[2]}, true
	})
	reg("(time.Time).Sub", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		x := m.concTime(a[0], "Time.Sub")
		y := m.concTime(a[1], "Time.Sub")
		return uint64(nativeTime(x).Sub(nativeTime(y))), true
	})
	reg("(time.Time).Truncate", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		d, ok := a[1].(uint64)
		if ok && d <= 1e9 {
			return a[0], true
		}
		t := a[0].(Struct)
		if from := map[uint64]int{60e9: 5, 3600e9: 4, 86400e9: 3}[d]; ok && from > 0 && (m.isLocalZone(t[2]) || m.locName(t[2]) == "UTC") {
			c := m.unpack(t[1])
			for i := from; i < 6; i++ {
				c[i] = uint64(0)
			}
			return Struct{t[0], m.packS(c), t[2]}, true
		}
		return Struct{t[0], m.freshCivil(), t[2]}, true
	})
	reg("(time.Time).Round", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		if d, ok := a[1].(uint64); ok && d <= 1e9 {
			return a[0], true
		}
		t := a[0].(Struct)
		return Struct{t[0], m.freshCivil(), t[2]}, true
	})
	for _, n := range []string{"Unix", "UnixNano", "UnixMilli", "ISOWeek", "ZoneBounds", "MarshalBinary", "AppendBinary"} {
		reg("(time.Time)."+n, unsup("time.Time."+n))
	}
	reg("(time.Time).Zone", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		n, off := m.zoneOf(a[0].(Struct))
		return Tuple{n, uint64(int64(off))}, true
	})
	for _, n := range []string{"After", "Before", "Equal", "Compare"} {
		reg("(time.Time)."+n, func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			t, u := a[0].(Struct), a[1].(Struct)
			if m.locName(t[2]) != m.locName(u[2]) {
				a[0], a[1] = m.inUTC(t), m.inUTC(u)
			}
			return nil, false
		})
	}
	reg("time.Now", unsup("time.Now"))
	reg("time.initLocal", noop)
	reg("time.runtimeNano", func(m *Machine, fr *Frame, a []Value) (Value, bool) { return uint64(1), true })
	reg("(*time.Location).get", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		if p := a[0].(*Value); p == nil {
			return m.utcLoc(), true
		}
		return a[0], true
	})
	conv := func(target func(m *Machine, a []Value) Value) intrinsic {
		return func(m *Machine, fr *Frame, a []Value) (Value, bool) {
			t := a[0].(Struct)
			loc := target(m, a)
			set := loc
			if loc == m.utcLoc() {
				set = (*Value)(nil)
			}
			ext := t[1]
			if !(m.isLocalZone(t[2]) && m.isLocalZone(loc)) && m.locName(t[2]) != m.locName(loc) {
				ext = m.inUTC(t)[1]
				if !m.isLocalZone(loc) {
					_, off := m.zoneAt(ext, loc, true)
					ext = m.shift(ext, off)
				}
			}
			return Struct{t[0], ext, set}, true
		}
	}
	reg("(time.Time).UTC", conv(func(m *Machine, a []Value) Value { return m.utcLoc() }))
	reg("(time.Time).Local", conv(func(m *Machine, a []Value) Value { return m.localLoc() }))
	reg("(time.Time).In", conv(func(m *Machine, a []Value) Value { return a[1] }))
	reg("time.FixedZone", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		for _, n := range []string{"UTC", "Local"} {
			if strLen(a[0]) == len(n) && m.truth(m.eqStr(a[0], n)) {
				m.unsupported("FixedZone named like a standard zone")
			}
		}
		l := m.newLoc(a[0])
		m.fixed[l.(*Value)] = a[1]
		return l, true
	})
	reg("time.LoadLocation", func(m *Machine, fr *Frame, a []Value) (Value, bool) {
		n, ok := a[0].(string)
		if !ok {
			l := strLen(a[0])
			for _, z := range append([]string{"UTC", "Local"}, m.prog.zones...) {
				if len(z) == l && m.truth(m.eqStr(a[0], z)) {
					n, ok = z, true
					break
				}
			}
			if !ok {
				// any other name of this length is taken to be unknown
				m.setHavoc()
				return Tuple{(*Value)(nil), m.parseErr()}, true
			}
		}
		switch n {
		case "", "UTC":
			return Tuple{m.utcLoc(), Iface{}}, true
		case "Local":
			return Tuple{m.localLoc(), Iface{}}, true
		}
		good, known := m.locCache[n]
		if !known {
			_, err := time.LoadLocation(n)
			good = err == nil
			m.locCache[n] = good
		}
		if !good {
			return Tuple{(*Value)(nil), m.parseErr()}, true
		}
		return Tuple{m.newLoc(n), Iface{}}, true
	})
}

// zoneOf is the abbreviation and offset in use at t.
func (m *Machine) zoneOf(t Struct) (string, int) { return m.zoneAt(t[1], t[2], false) }

// inUTC is t with the civil fields of UTC.
func (m *Machine) inUTC(t Struct) Struct {
	_, off := m.zoneOf(t)
	return Struct{t[0], m.shift(t[1], -off), (*Value)(nil)}
}

// zoneAt looks up the zone in use at the given civil time, of UTC or of the zone itself.
func (m *Machine) zoneAt(ext, loc Value, utc bool) (string, int) {
	if m.isLocalZone(loc) {
		return "UTC", 0
	}
	name := m.locName(loc)
	if off, ok := m.fixed[loc.(*Value)]; ok {
		return name, int(m.toInt(off))
	}
	l, err := time.LoadLocation(name)
	if err != nil {
		m.unsupported("offset of zone " + name)
	}
	lookup := func(v uint64) time.Time {
		if utc {
			return nativeTime(v).In(l)
		}
		c := unpackC(v)
		return time.Date(c[0], time.Month(c[1]), c[2], c[3], c[4], c[5], 0, l)
	}
	e, ok := ext.(*Expr)
	if !ok {
		return lookup(ext.(uint64)).Zone()
	}
	if m.spec {
		panic(specAbort{})
	}
	x := m.x
	for i := 0; i < 8; i++ {
		v, ok := m.replay(e)
		if !ok {
			v = m.pickValue(e)
			m.record(v, e)
		}
		t := lookup(v)
		n, off := t.Zone()
		in := x.Bool(true)
		civil := func(b time.Time) *Expr {
			if utc {
				return x.Const(packTime(b.UTC()), 64)
			}
			return x.Const(packTime(b.In(time.FixedZone("", off))), 64)
		}
		start, end := t.ZoneBounds()
		if !start.IsZero() {
			in = x.And(in, x.Not(x.Ult(e, civil(start))))
		}
		if !end.IsZero() {
			in = x.And(in, x.Ult(e, civil(end)))
		}
		if m.decide(in) {
			return n, off
		}
	}
	m.unsupported("time over many periods of a zone")
	return "", 0
}

// shift adds less than two days, in seconds, to a civil time.
func (m *Machine) shift(ext Value, sec int) Value {
	if sec == 0 {
		return ext
	}
	if v, ok := ext.(uint64); ok {
		return packTime(nativeTime(v).Add(time.Duration(sec) * time.Second))
	}
	x := m.x
	k := func(v int) *Expr { return x.Const(uint64(int64(v)), 64) }
	days := 0
	for sec < 0 {
		sec += 86400
		days--
	}
	for sec >= 86400 {
		sec -= 86400
		days++
	}
	c := m.unpack(ext)
	e := func(i int) *Expr { return m.expr(c[i], 64) }
	carry := k(0)
	add := func(v *Expr, n, mod int) *Expr {
		s := x.Bin(OAdd, x.Bin(OAdd, v, k(n)), carry)
		over := x.Not(x.Ult(s, k(mod)))
		carry = x.Ite(over, k(1), k(0))
		return x.Ite(over, x.Bin(OSub, s, k(mod)), s)
	}
	ss := add(e(5), sec%60, 60)
	mi := add(e(4), sec/60%60, 60)
	hh := add(e(3), sec/3600, 24)
	y, mo, d := e(0), e(1), x.Bin(OAdd, e(2), carry)
	for ; days < 0; days++ {
		first := x.Eq(d, k(1))
		jan := x.And(first, x.Eq(mo, k(1)))
		y = x.Ite(jan, x.Bin(OSub, y, k(1)), y)
		mo = x.Ite(first, x.Ite(jan, k(12), x.Bin(OSub, mo, k(1))), mo)
		d = x.Ite(first, m.monthDays(y, mo), x.Bin(OSub, d, k(1)))
	}
	for ; days >= 0; days-- {
		last := x.Ult(m.monthDays(y, mo), d)
		dec := x.And(last, x.Eq(mo, k(12)))
		y = x.Ite(dec, x.Bin(OAdd, y, k(1)), y)
		mo = x.Ite(last, x.Ite(dec, k(1), x.Bin(OAdd, mo, k(1))), mo)
		d = x.Ite(last, k(1), d)
		if days > 0 {
			d = x.Bin(OAdd, d, k(1))
		}
	}
	return m.packS([6]Value{unexpr(y), unexpr(mo), unexpr(d), unexpr(hh), unexpr(mi), unexpr(ss)})
}

func (m *Machine) monthDays(y, mo *Expr) *Expr {
	x := m.x
	k := func(v uint64) *Expr { return x.Const(v, 64) }
	div := func(n uint64) *Expr { return x.Eq(x.Bin(OURem, y, k(n)), k(0)) }
	// exactly as package time computes it: year%4 == 0 && (year%100 != 0 || year%400 == 0)
	leap := x.And(div(4), x.Or(x.Not(div(100)), div(400)))
	feb := x.Eq(mo, k(2))
	short := x.Or(x.Or(x.Eq(mo, k(4)), x.Eq(mo, k(6))), x.Or(x.Eq(mo, k(9)), x.Eq(mo, k(11))))
	return x.Ite(feb, x.Ite(leap, k(29), k(28)), x.Ite(short, k(30), k(31)))
}

func (m *Machine) freshCivil() Value {
	m.setHavoc()
	v := m.auxVar(64)
	m.assume(m.x.Ult(v, m.x.Const(1<<40, 64)))
	return v
}

func (m *Machine) newLoc(name Value) Value {
	s := zero(m.prog.locType).(Struct)
	s[0] = name
	p := new(Value)
	*p = s
	return p
}

func (m *Machine) utcLoc() Value {
	return m.global(m.prog.utcLoc)
}

func (m *Machine) localLoc() Value {
	return m.global(m.prog.localLocG)
}

var _ = fmt.Sprint
