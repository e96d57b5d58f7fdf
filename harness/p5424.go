package main

// RFC 5424: register semantics of Rfc5424.tla (Exec1, Finish, Outcome) for
// the exported control automaton, the recorder for the real parsers, and the
// comparison clauses (the same ones as Judge in Trace5424.tla; TLC has the
// last word, this side only selects candidates).

import (
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

const (
	aNum action = iota
	aPri
	aVer
	aPush
	aTs
	aHost
	aApp
	aProc
	aMsgid
	aSdOpen
	aID
	aIDchk
	aPn
	aVal
	aPar
	aMsg
	// RFC 3164
	a3Stamp
	a3Rfc
	a3Text
	a3Tag
	a3Set1
	a3Set2
	a3Unset
	a3End
)

var acts5424 = map[string]action{"num": aNum, "pri!": aPri, "ver": aVer, "push": aPush, "ts!": aTs,
	"host!": aHost, "app!": aApp, "proc!": aProc, "msgid!": aMsgid, "sd{": aSdOpen, "id!": aID, "id?": aIDchk,
	"pn!": aPn, "val!": aVal, "par!": aPar, "msg": aMsg}

type tsv struct{ y, mo, d, h, mi, s, us, offmin int }

type exp5424 struct {
	acc  bool
	kind string
	col  int
	// registers
	pri     int // -1: not set
	ver     int
	hasTs   bool
	ts      tsv
	host    string
	app     string
	proc    string
	msgid   string
	sd      map[string]map[string]string
	msg     string
	minimal bool
	path    int // control state the input ended or failed in
}

func isLeap(y int) bool { return y%4 == 0 && y%100 != 0 || y%400 == 0 }
func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if isLeap(y) {
			return 29
		}
		return 28
	}
	return 31
}

func tsFields(s []byte) tsv {
	two := func(i int) int { return int(s[i]-'0')*10 + int(s[i+1]-'0') }
	v := tsv{y: two(0)*100 + two(2), mo: two(5), d: two(8), h: two(11), mi: two(14), s: two(17)}
	i := 19
	if s[i] == '.' {
		i++
		pow := 100000
		for s[i] >= '0' && s[i] <= '9' {
			v.us += int(s[i]-'0') * pow
			pow /= 10
			i++
		}
	}
	switch s[i] {
	case '+':
		v.offmin = two(i+1)*60 + two(i+4)
	case '-':
		v.offmin = -(two(i+1)*60 + two(i+4))
	}
	return v
}

func (t *table) run5424(in []byte) *exp5424 {
	x := &exp5424{pri: -1}
	num, ver := 0, 0
	var cur, msg []byte
	var elem, pname, pval string
	i := t.init
	do := func(e edge, b byte, col int) bool {
		for _, a := range e.acts {
			switch a {
			case aNum:
				num = num*10 + int(b-'0')
			case aPri:
				x.pri = num
			case aVer:
				ver = ver*10 + int(b-'0')
			case aPush:
				cur = append(cur, b)
			case aTs:
				v := tsFields(cur)
				if v.d > daysIn(v.y, v.mo) {
					x.kind, x.col = "date", col
					return false
				}
				x.ts, x.hasTs, cur = v, true, nil
			case aHost:
				x.host, cur = string(cur), nil
			case aApp:
				x.app, cur = string(cur), nil
			case aProc:
				x.proc, cur = string(cur), nil
			case aMsgid:
				x.msgid, cur = string(cur), nil
			case aSdOpen:
				x.sd = map[string]map[string]string{}
			case aID, aIDchk:
				if _, dup := x.sd[string(cur)]; dup {
					x.kind, x.col = "dupid", col
					return false
				}
				if a == aID {
					elem = string(cur)
					x.sd[elem] = map[string]string{}
					cur = nil
				}
			case aPn:
				pname, cur = string(cur), nil
			case aVal:
				pval, cur = string(cur), nil
			case aPar:
				x.sd[elem][pname] = pval
			case aMsg:
				msg = append(msg, b)
			}
		}
		return true
	}
	ok := true
	n := len(in)
	for p := 0; p < n && ok; p++ {
		e := t.states[i].edges[in[p]]
		if ok = do(e, in[p], p); !ok {
			break
		}
		if f := t.states[e.to].fail; f != "" {
			x.kind, x.col, ok = f, p, false
			x.path = i
			i = e.to
			break
		}
		i = e.to
	}
	if ok {
		x.path = i
		e := t.states[i].eof
		if do(e, 0, n) {
			if f := t.states[e.to].fail; f != "" {
				x.kind, x.col = f, n
			} else {
				x.acc = true
			}
		}
	}
	x.ver = ver
	x.msg = string(msg)
	x.minimal = x.pri >= 0 && ver >= 1 && ver <= 999
	if len(x.sd) == 0 {
		x.sd = nil
	}
	return x
}

// errText5424: the documented texts, printed by TLC from ErrText of Rfc5424.tla
var errText5424 map[string]string

// normErr maps the time package's text for an impossible day to "DATE".
func normErr(e error) string {
	s := e.Error()
	if strings.HasPrefix(s, "parsing time ") {
		if i := strings.Index(s, ": day out of range"); i >= 0 {
			return "DATE" + s[i+len(": day out of range"):]
		}
	}
	return s
}

type res5424 struct {
	panicked string
	msg      *rfc5424.SyslogMessage
	otherMsg bool
	err      error
}

func parse5424(m syslog.Machine, in []byte) (r res5424) {
	defer func() {
		if p := recover(); p != nil {
			r = res5424{panicked: fmt.Sprint(p)}
		}
	}()
	msg, err := m.Parse(in)
	r.err = err
	if msg != nil {
		sm, ok := msg.(*rfc5424.SyslogMessage)
		if ok {
			r.msg = sm // may be nil pointer in a non-nil interface
			if sm == nil {
				r.otherMsg = true
			}
		} else {
			r.otherMsg = true
		}
	}
	return
}

const (
	cfgMS = iota
	cfgMB
	cfgPS
	cfgPB
)

func mach5424(cfg int, cmp bool) syslog.Machine {
	var o []syslog.MachineOption
	if cfg == cfgMB || cfg == cfgPB {
		o = append(o, rfc5424.WithBestEffort())
	}
	if cmp {
		o = append(o, rfc5424.WithCompliantMsg())
	}
	if cfg == cfgMS || cfg == cfgMB {
		return rfc5424.NewMachine(o...)
	}
	return rfc5424.NewParser(o...)
}

// ---- comparison

func strDiff(p *string, want string) bool {
	if want == "" || want == "-" {
		return p != nil
	}
	return p == nil || *p != want
}

func tsDiff(p *time.Time, has bool, v tsv) bool {
	if p == nil || !has {
		return (p != nil) != has
	}
	y, mo, d := p.Date()
	h, mi, s := p.Clock()
	_, off := p.Zone()
	return y != v.y || int(mo) != v.mo || d != v.d || h != v.h || mi != v.mi || s != v.s || p.Nanosecond() != v.us*1000 || off != v.offmin*60
}

func sdDiff(p *map[string]map[string]string, want map[string]map[string]string) bool {
	if p == nil || want == nil {
		return (p != nil) != (want != nil)
	}
	if len(*p) != len(want) {
		return true
	}
	for id, ps := range want {
		g, ok := (*p)[id]
		if !ok || len(g) != len(ps) {
			return true
		}
		for n, v := range ps {
			gv, ok := g[n]
			if !ok || gv != v {
				return true
			}
		}
	}
	return false
}

func u8(p *uint8) int {
	if p == nil {
		return -1
	}
	return int(*p)
}

func fieldDiff5424(m *rfc5424.SyslogMessage, x *exp5424) bool {
	return u8(m.Priority) != x.pri || u8(m.Facility) != x.pri/8 || u8(m.Severity) != x.pri%8 || int(m.Version) != x.ver ||
		tsDiff(m.Timestamp, x.hasTs, x.ts) || strDiff(m.Hostname, x.host) || strDiff(m.Appname, x.app) ||
		strDiff(m.ProcID, x.proc) || strDiff(m.MsgID, x.msgid) || sdDiff(m.StructuredData, x.sd) || msgDiffS(m.Message, x.msg)
}

func msgDiffS(p *string, want string) bool {
	if want == "" {
		return p != nil
	}
	return p == nil || *p != want
}

func errDiff(e error, x *exp5424) bool {
	if e == nil || x.acc {
		return (e != nil) == x.acc
	}
	return normErr(e) != fmt.Sprintf("%s [col %d]", errText5424[x.kind], x.col)
}

// judge5424 mirrors Judge of Trace5424.tla; bit k of the result is clause k.
const (
	bC01 = 1 << iota
	bC02
	bC03
	bC04
	bC05
	bC09
)

var clauseBit = map[string]int{"C01": bC01, "C02": bC02, "C03": bC03, "C04": bC04, "C05": bC05, "C09": bC09}

func judge5424(x *exp5424, rs [4]res5424, cmp bool) int {
	bad := 0
	msgDiff := func(r res5424, want bool) bool {
		has := r.msg != nil || r.otherMsg
		if has != want {
			return true
		}
		if r.otherMsg {
			return true
		}
		return has && fieldDiff5424(r.msg, x)
	}
	for k, r := range rs {
		strict := k == cfgMS || k == cfgPS
		has := r.msg != nil || r.otherMsg
		if r.panicked != "" {
			bad |= bC09
		}
		if strict && !cmp {
			if (r.err == nil) != x.acc || has != x.acc {
				bad |= bC01
			}
		}
		if strict && x.acc && has && (r.otherMsg || fieldDiff5424(r.msg, x)) {
			bad |= bC02
		}
		if !x.acc && r.err != nil && errDiff(r.err, x) {
			bad |= bC03
		}
		if !strict {
			if msgDiff(r, x.acc || x.minimal) || (r.err == nil) != x.acc {
				bad |= bC04
			}
		}
		if cmp {
			if errDiff(r.err, x) || msgDiff(r, x.acc || (!strict && x.minimal)) {
				bad |= bC05
			}
		} else if x.acc && x.msg != "" {
			if r.err != nil || r.msg == nil || msgDiffS(r.msg.Message, x.msg) {
				bad |= bC05
			}
		}
		if !has && r.err == nil || r.otherMsg {
			bad |= bC09
		}
		if strict && has && r.err != nil {
			bad |= bC09
		}
		if r.msg != nil {
			p := u8(r.msg.Priority)
			if !r.msg.Valid() || p < 0 || p > 191 || u8(r.msg.Facility) != p/8 || u8(r.msg.Severity) != p%8 {
				bad |= bC09
			}
		}
	}
	if sameRes5424(rs[cfgMS], rs[cfgPS]) != "" || sameRes5424(rs[cfgMB], rs[cfgPB]) != "" {
		bad |= bC09
	}
	return bad
}

func run4(in []byte, cmp bool) (rs [4]res5424) {
	var done int32
	watched(func() J {
		n := int(atomic.LoadInt32(&done))
		for k := n; k < 4; k++ {
			rs[k] = res5424{panicked: didNotReturn}
		}
		return trace5424J(in, cmp, rs)
	}, func() {
		for k := range rs {
			rs[k] = parse5424(mach5424(k, cmp), in)
			atomic.StoreInt32(&done, int32(k+1))
		}
	})
	return
}

func sameRes5424(a, b res5424) string {
	if a.panicked != b.panicked {
		return "panic"
	}
	if (a.err == nil) != (b.err == nil) || a.err != nil && a.err.Error() != b.err.Error() {
		return "error"
	}
	if (a.msg == nil) != (b.msg == nil) || a.otherMsg != b.otherMsg {
		return "message"
	}
	if a.msg != nil {
		return sameMsg5424(a.msg, b.msg)
	}
	return ""
}

func sameStr(a, b *string) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }
func sameU8(a, b *uint8) bool   { return (a == nil) == (b == nil) && (a == nil || *a == *b) }
func sameTime(a, b *time.Time) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	_, x := a.Zone()
	_, y := b.Zone()
	return a.Equal(*b) && x == y
}

func sameMsg5424(a, b *rfc5424.SyslogMessage) string {
	switch {
	case !sameU8(a.Priority, b.Priority):
		return "pri"
	case !sameU8(a.Facility, b.Facility):
		return "fac"
	case !sameU8(a.Severity, b.Severity):
		return "sev"
	case a.Version != b.Version:
		return "ver"
	case !sameTime(a.Timestamp, b.Timestamp):
		return "ts"
	case !sameStr(a.Hostname, b.Hostname):
		return "host"
	case !sameStr(a.Appname, b.Appname):
		return "app"
	case !sameStr(a.ProcID, b.ProcID):
		return "proc"
	case !sameStr(a.MsgID, b.MsgID):
		return "msgid"
	case !sameStr(a.Message, b.Message):
		return "msg"
	}
	if (a.StructuredData == nil) != (b.StructuredData == nil) {
		return "sd"
	}
	if a.StructuredData != nil && sdDiff(a.StructuredData, *b.StructuredData) {
		return "sd"
	}
	return ""
}
