package ics

import "io"

// Models of library functions, interpreted in place of the originals when their arguments are
// symbolic (formatting of numbers) or always (package fmt).

func vmAppendUint(b []byte, n uint64, base int) []byte {
	var buf [64]byte
	i := len(buf)
	for {
		i--
		d := byte(n % uint64(base))
		if d < 10 {
			buf[i] = '0' + d
		} else {
			buf[i] = 'a' + d - 10
		}
		n /= uint64(base)
		if n == 0 {
			break
		}
	}
	return append(b, buf[i:]...)
}

func vmAppendInt(b []byte, n int64, base int) []byte {
	if n < 0 {
		return vmAppendUint(append(b, '-'), uint64(-n), base)
	}
	return vmAppendUint(b, uint64(n), base)
}

func vmFormatUint(n uint64, base int) string { return string(vmAppendUint(nil, n, base)) }
func vmFormatInt(n int64, base int) string   { return string(vmAppendInt(nil, n, base)) }

type vmWrap struct {
	msg string
	err error
}

func (w *vmWrap) Error() string { return w.msg }
func (w *vmWrap) Unwrap() error { return w.err }

type vmErr struct{ msg string }

func (w *vmErr) Error() string { return w.msg }

func vmErrorf(format string, args ...any) error {
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			if format[i+1] == 'w' && n < len(args) {
				if e, ok := args[n].(error); ok {
					return &vmWrap{msg: format, err: e}
				}
			}
			if format[i+1] != '%' {
				n++
			}
			i++
		}
	}
	return &vmErr{msg: format}
}

func vmArg(b []byte, verb byte, width int, zero, minus bool, a any) []byte {
	var s []byte
	neg := false
	num := false
	base := 10
	if verb == 'x' {
		base = 16
	}
	var u uint64
	switch v := a.(type) {
	case string:
		s = append(s, v...)
	case []byte:
		s = append(s, v...)
	case bool:
		if v {
			s = append(s, "true"...)
		} else {
			s = append(s, "false"...)
		}
	case int:
		num, neg, u = true, v < 0, uint64(v)
	case int8:
		num, neg, u = true, v < 0, uint64(v)
	case int16:
		num, neg, u = true, v < 0, uint64(v)
	case int32:
		num, neg, u = true, v < 0, uint64(v)
	case int64:
		num, neg, u = true, v < 0, uint64(v)
	case uint:
		num, u = true, uint64(v)
	case uint8:
		num, u = true, uint64(v)
	case uint16:
		num, u = true, uint64(v)
	case uint32:
		num, u = true, uint64(v)
	case uint64:
		num, u = true, v
	case error:
		s = append(s, v.Error()...)
	case interface{ String() string }:
		s = append(s, v.String()...)
	default:
		panic("model of fmt: argument type")
	}
	if num {
		if verb == 'c' {
			s = append(s, string(rune(u))...)
		} else {
			if neg {
				u = -u
			}
			s = vmAppendUint(s, u, base)
			if zero {
				w := width
				if neg {
					w--
				}
				for len(s) < w {
					s = append([]byte{'0'}, s...)
				}
			}
			if neg {
				s = append([]byte{'-'}, s...)
			}
		}
	} else if verb == 'q' {
		panic("model of fmt: %q")
	}
	for !minus && len(s) < width {
		s = append([]byte{' '}, s...)
	}
	b = append(b, s...)
	for n := len(s); minus && n < width; n++ {
		b = append(b, ' ')
	}
	return b
}

func vmAppendf(b []byte, format string, args ...any) []byte {
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			b = append(b, format[i])
			continue
		}
		i++
		if format[i] == '%' {
			b = append(b, '%')
			continue
		}
		zero, minus := false, false
		for format[i] == '0' || format[i] == '-' || format[i] == '+' {
			switch format[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			default:
				panic("model of fmt: plus flag")
			}
			i++
		}
		width := 0
		for format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		switch format[i] {
		case 'd', 's', 'v', 'c', 'x', 'q':
		default:
			panic("model of fmt: verb")
		}
		b = vmArg(b, format[i], width, zero, minus, args[n])
		n++
	}
	return b
}

func vmSprintf(format string, args ...any) string { return string(vmAppendf(nil, format, args...)) }

func vmSprint(args ...any) string {
	var b []byte
	for _, a := range args {
		b = vmArg(b, 'v', 0, false, false, a)
	}
	return string(b)
}

func vmFprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write(vmAppendf(nil, format, args...))
}

func vmFprint(w io.Writer, args ...any) (int, error) {
	return io.WriteString(w, vmSprint(args...))
}
