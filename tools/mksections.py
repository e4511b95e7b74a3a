#!/usr/bin/env python3
"""Writes harness/gensec.go: field-by-field constructors of every component, from the
exported struct definitions in /repo/sections.go. Run by hand when those change; the result
is committed."""
import re
src=open('/repo/sections.go').read()
NAMES={'PropDuration':'gPropDuration','PropURI':'gPropURI'}
def gen(t):
    return NAMES.get(t,'g'+t[4:] if t.startswith('Prop') else 'g'+t)
out=['package ics','','// Code generated by tools/mksections.py; constructors of the components, one field at a time.','']
order=['Event','Todo','Journal','FreeBusy','Timezone','Standard','Daylight','AlarmAudio','AlarmDisplay','AlarmEmail','AlarmURI']
info={}
for n in order:
    body=re.search(r'^type %s struct \{\n(.*?)^\}'%n,src,re.S|re.M).group(1)
    f=[l.split() for l in body.strip().split('\n')]
    req=[(a,b) for a,b in f if b[0] not in '*[']
    opt=[(a,b) for a,b in f if b[0] in '*[']
    info[n]=opt
    fn={'FreeBusy':'gFreeBusySection'}.get(n,'g'+n)
    out.append('// %s returns the component with its required properties only.'%fn)
    out.append('func %s() (s %s) {'%(fn,n))
    for a,b in req: out.append('\ts.%s = %s()'%(a,gen(b)))
    out.append('\treturn\n}\n')
    out.append('const v%sFields = %d\n'%(n,len(opt)))
    out.append('var v%sNames = [...]string{%s}\n'%(n,', '.join('"%s"'%a for a,_ in opt)))
    out.append('// v%sSet sets the i-th optional field, or adds an element to it.'%n)
    out.append('func v%sSet(s *%s, i int) {\n\tswitch i {'%(n,n))
    for i,(a,b) in enumerate(opt):
        out.append('\tcase %d:'%i)
        if b.startswith('[]'):
            out.append('\t\ts.%s = append(s.%s, %s())'%(a,a,gen(b[2:])))
        else:
            out.append('\t\tx := %s()\n\t\ts.%s = &x'%(gen(b[1:]),a))
    out.append('\t}\n}\n')
    out.append('// v%sRepeats reports whether the i-th optional field is a list.'%n)
    lst=[str(i) for i,(a,b) in enumerate(opt) if b.startswith('[]')]
    out.append('func v%sRepeats(i int) bool {\n\tswitch i {\n\tcase %s:\n\t\treturn true\n\t}\n\treturn false\n}\n'%(n,', '.join(lst)))
# rules
out.append('''func gAlarm() Alarm {
	switch vWay(5) {
	case 1:
		a := gAlarmDisplay()
		return Alarm{&a}
	case 2:
		a := gAlarmEmail()
		return Alarm{&a}
	case 3:
		a := gAlarmURI()
		return Alarm{&a}
	case 4:
		return Alarm{&AlarmNone{}}
	}
	a := gAlarmAudio()
	return Alarm{&a}
}
''')
open('/verif/harness/gensec.go','w').write('\n'.join(out))
