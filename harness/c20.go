package ics

import "strings"

// C20: content lines are split into name, parameters and value correctly.

// vSplit splits at line breaks.
func vSplit(s string) []string {
	var lines []string
	j := 0
	for i := 0; i+1 < len(s); i++ {
		if vFork(s[i] == '\r' && s[i+1] == '\n') {
			vAssume(i+2 == len(s) || s[i+2] != ' ' && s[i+2] != '\t')
			lines = append(lines, s[j:i])
			j = i + 2
			i++
		}
	}
	return append(lines, s[j:])
}

// vReadLines reads every line; ok is false when one of them does not match the grammar.
func vReadLines(s string) (cs []vContent, ok bool) {
	for _, l := range vSplit(s) {
		c, ok := vReadLine(l)
		if !ok {
			return nil, false
		}
		cs = append(cs, c)
	}
	return cs, true
}

func vSplitForm(form int, b string) string {
	switch form {
	case 0:
		return "X" + b
	case 1:
		return "COMMENT:a" + b + "b\r\nCOMMENT:c"
	case 2:
		return "ATTENDEE;MEMBER=\"a" + b + "b\":mailto:x"
	case 3:
		return "COMMENT;LANGUAGE=a" + b + "b:t"
	case 4:
		return "COMMENT" + b + "LANGUAGE=x:t"
	case 5:
		return "COMMENT;LANGUAGE=\"a" + b + "b\":t"
	case 6:
		return b + "COMMENT:t"
	case 7:
		return "ATTENDEE;MEMBER=" + b + "\"b\":mailto:x"
	case 8:
		return "COMMENT;LANGUAGE=" + b
	case 9:
		return "COMMENT;LANGUAGE=x:t" + b
	case 10:
		return "ATTENDEE;MEMBER=\"a\"" + b + ":mailto:x"
	case 11:
		return "COMMENT;X-P=a" + b + ";LANGUAGE=x:t"
	case 12:
		return "COMMENT;LANGUAGE=x" + b + ":t"
	}
	return b + ":c"
}

// H_C20_line: a line of form p0 with p1 arbitrary bytes in it.
func H_C20_line() {
	b := vString(vParam(1))
	vAssume(vUTF8(b))
	l := vSplitForm(vParam(0), b)
	vAssume(l[0] != ' ' && l[0] != '\t')
	cs, ok := vReadLines(l)
	e, err := vDecodeLine(l)
	if !ok {
		vAssert(err != nil, "a line outside the grammar is accepted")
		vCover("C20 refused")
		return
	}
	var comments []string
	var langs [][]string
	var members [][]string
	for _, c := range cs {
		var lang, member []string
		switch name := strings.ToUpper(c.name); name {
		case "COMMENT":
			for i, p := range c.params {
				if strings.ToUpper(p) == "LANGUAGE" {
					vAssume(lang == nil)
					lang = []string{v6868(c.vals[i][0].text)}
				} else {
					vAssume(!strings.HasPrefix(strings.ToUpper(p), "LANGUAGE,") && strings.ToUpper(p) != "ALTREP")
				}
			}
			t, rest := vUnescape(c.value)
			vAssume(rest == "")
			comments = append(comments, t)
			langs = append(langs, lang)
		case "ATTENDEE":
			for i := range c.params {
				p := strings.ToUpper(c.params[i])
				if strings.HasPrefix(p, "MEMBER") {
					vAssume(member == nil)
					for _, v := range c.vals[i] {
						if !v.quoted {
							vAssert(err != nil, "an unquoted member is accepted")
							return
						}
						member = append(member, v6868(v.text))
					}
				} else {
					for _, name := range vParamNames {
						vAssume(!strings.HasPrefix(p, name) || len(p) > len(name) && p[len(name)] != ',')
					}
				}
			}
			vAssume(c.value == "mailto:x")
			members = append(members, member)
		default:
			_, known := vTails[name]
			vAssume(!known && name != "BEGIN" && name != "END")
		}
	}
	vAssert(err == nil, "a line that matches the grammar is refused")
	vAssert(len(e.Comment) == len(comments), "number of lines read")
	for i, c := range e.Comment {
		vAssert(string(c.Text) == comments[i], "value split wrongly")
		vAssert((c.Language != nil) == (langs[i] != nil), "parameter lost or added")
		if c.Language != nil {
			vAssert(string(*c.Language) == langs[i][0], "parameter split wrongly")
		}
		vAssert(c.AlternativeRepresentation == nil, "parameter added")
	}
	vAssert(len(e.Attendee) == len(members), "number of lines read")
	for i, a := range e.Attendee {
		vAssert(len(a.Member) == len(members[i]), "parameter values split wrongly")
		for j, m := range a.Member {
			vAssert(m == members[i][j], "parameter value split wrongly")
		}
	}
	vAssert(e.UID == "u" && e.Summary == nil, "other lines changed")
	vCover("C20 read")
}
