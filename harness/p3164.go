package main

// RFC 3164: register semantics of Rfc3164.tla, recorder and comparison (see
// p5424.go).

import (
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

var acts3164 = map[string]action{"num": aNum, "pri!": aPri, "push": aPush, "host!": aHost, "stamp!": a3Stamp, "rfc!": a3Rfc,
	"msg": a3Text, "tag!": a3Tag, "set1": a3Set1, "set2": a3Set2, "unset": a3Unset, "end!": a3End}

var errText3164 map[string]string

type exp3164 struct {
	acc   bool
	kind  string
	col   int
	pri   int
	hasTs bool
	rfc   bool // timestamp in RFC 3339 form
	ts    tsv
	host  string
	app   string
	proc  string
	msg   string
}

var monthNo = map[string]int{"Jan": 1, "Feb": 2, "Mar": 3, "Apr": 4, "May": 5, "Jun": 6, "Jul": 7, "Aug": 8, "Sep": 9, "Oct": 10, "Nov": 11, "Dec": 12}

func stampFields(s []byte) tsv {
	two := func(i int) int {
		d := 0
		if s[i] != ' ' {
			d = int(s[i]-'0') * 10
		}
		return d + int(s[i+1]-'0')
	}
	return tsv{y: 0, mo: monthNo[string(s[:3])], d: two(4), h: two(7), mi: two(10), s: two(13)}
}

func (t *table) run3164(in []byte) *exp3164 {
	x := &exp3164{pri: -1}
	num := 0
	var cur, text []byte
	var tag string
	at := 0
	i := t.init
	do := func(e edge, b byte, col int) bool {
		for _, a := range e.acts {
			switch a {
			case aNum:
				num = num*10 + int(b-'0')
			case aPri:
				x.pri = num
			case aPush:
				cur = append(cur, b)
			case a3Stamp, a3Rfc:
				var v tsv
				if a == a3Stamp {
					v = stampFields(cur)
				} else {
					v = tsFields(cur)
				}
				if v.d > daysIn(v.y, v.mo) {
					x.kind, x.col = "date", col
					return false
				}
				x.ts, x.hasTs, x.rfc, cur = v, true, a == a3Rfc, nil
			case aHost:
				x.host, cur = string(cur), nil
			case a3Text:
				text = append(text, b)
			case a3Tag:
				tag = string(text)
			case a3Set1:
				x.app, at = tag, len(text)
			case a3Set2:
				x.app, at = tag, len(text)
				x.proc = string(text[len(tag)+1 : len(text)-3])
			case a3Unset:
				x.app, x.proc, at = "", "", 0
			case a3End:
				x.msg = string(text[at:])
			}
		}
		return true
	}
	ok := true
	n := len(in)
	for p := 0; p < n && ok; p++ {
		e := t.states[i].edges[in[p]]
		if ok = do(e, in[p], p); !ok {
			break
		}
		if f := t.states[e.to].fail; f != "" {
			x.kind, x.col, ok = f, p, false
			break
		}
		i = e.to
	}
	if ok {
		e := t.states[i].eof
		if do(e, 0, n) {
			if f := t.states[e.to].fail; f != "" {
				x.kind, x.col = f, n
			} else {
				x.acc = true
			}
		}
	}
	return x
}

// ---- options

// nearTransition: the wall clock reading is close to an offset change of the
// locale zone, where it may denote no instant or two; such combinations are
// not used, because the time package leaves open what they mean.
func (x *exp3164) nearTransition(o opt3164) bool {
	if o.locale == nil || !x.hasTs || x.rfc {
		return false
	}
	v := x.ts
	t := time.Date(o.year, time.Month(v.mo), v.d, v.h, v.mi, v.s, 0, o.locale)
	_, a := t.Add(-30 * time.Hour).Zone()
	_, b := t.Add(30 * time.Hour).Zone()
	_, c := t.Zone()
	return a != b || a != c
}

type opt3164 struct {
	rfc     bool
	year    int
	hasYear bool
	locale  *time.Location
	zone    *time.Location
	order   int
}

// ownYear is a YearOperator of the caller's
type ownYear int

func (y ownYear) Apply() int { return int(y) }

func (o opt3164) options(bestEffort bool) []syslog.MachineOption {
	var os []syslog.MachineOption
	if bestEffort {
		os = append(os, rfc3164.WithBestEffort())
	}
	if o.rfc {
		os = append(os, rfc3164.WithRFC3339())
	}
	if o.hasYear {
		var y rfc3164.YearOperator = rfc3164.Year{YYYY: o.year}
		switch o.order { // years come from operators of any kind
		case 1:
			y = &rfc3164.Year{YYYY: o.year}
		case 2:
			y = ownYear(o.year)
		}
		os = append(os, rfc3164.WithYear(y))
	}
	if o.locale != nil {
		os = append(os, rfc3164.WithLocaleTimezone(o.locale))
	}
	if o.zone != nil {
		os = append(os, rfc3164.WithTimezone(o.zone))
	}
	for k := 0; k < o.order && len(os) > 1; k++ { // some rotation: the order of options does not matter
		os = append(os[1:], os[0])
	}
	return os
}

func mach3164(cfg int, o opt3164) syslog.Machine {
	os := o.options(cfg == cfgMB || cfg == cfgPB)
	if cfg == cfgMS || cfg == cfgMB {
		return rfc3164.NewMachine(os...)
	}
	return rfc3164.NewParser(os...)
}

type res3164 struct {
	panicked string
	msg      *rfc3164.SyslogMessage
	otherMsg bool
	err      error
}

func parse3164(m syslog.Machine, in []byte) (r res3164) {
	defer func() {
		if p := recover(); p != nil {
			r = res3164{panicked: fmt.Sprint(p)}
		}
	}()
	msg, err := m.Parse(in)
	r.err = err
	if msg != nil {
		sm, ok := msg.(*rfc3164.SyslogMessage)
		if ok && sm != nil {
			r.msg = sm
		} else {
			r.otherMsg = true
		}
	}
	return
}

// by WithRFC3339
var tables3164 = map[bool]*table{}

func run4x3164(in []byte, o opt3164) (rs [4]res3164) {
	var done int32
	watched(func() J {
		n := int(atomic.LoadInt32(&done))
		for k := n; k < 4; k++ {
			rs[k] = res3164{panicked: didNotReturn}
		}
		return trace3164J(in, o, rs, tables3164[o.rfc].run3164(in))
	}, func() {
		for k := range rs {
			rs[k] = parse3164(mach3164(k, o), in)
			atomic.StoreInt32(&done, int32(k+1))
		}
	})
	return
}

// wantTime: the meaning of the timestamp under the options; the time package
// is the environment that knows the zones.
func (x *exp3164) wantTime(o opt3164) time.Time {
	v := x.ts
	if x.rfc {
		return time.Date(v.y, time.Month(v.mo), v.d, v.h, v.mi, v.s, 0, time.FixedZone("", v.offmin*60))
	}
	l := o.locale
	if l == nil {
		l = time.UTC
	}
	t := time.Date(o.year, time.Month(v.mo), v.d, v.h, v.mi, v.s, 0, l)
	if o.zone != nil {
		t = t.In(o.zone)
	}
	return t
}

func tsDiff3164(p *time.Time, x *exp3164, o opt3164) bool {
	if p == nil || !x.hasTs {
		return (p != nil) != x.hasTs
	}
	w := x.wantTime(o)
	_, a := p.Zone()
	_, b := w.Zone()
	return !p.Equal(w) || a != b
}

func fieldDiff3164(m *rfc3164.SyslogMessage, x *exp3164, o opt3164) bool {
	return u8(m.Priority) != x.pri || u8(m.Facility) != x.pri/8 || u8(m.Severity) != x.pri%8 || strDiff(m.Hostname, x.host) ||
		strDiff(m.Appname, x.app) || strDiff(m.ProcID, x.proc) || m.MsgID != nil || msgDiffS(m.Message, x.msg)
}

const (
	bC06 = 1 << (iota + 8)
	bC07
	bC08
)

func init() {
	clauseBit["C06"], clauseBit["C07"], clauseBit["C08"] = bC06, bC07, bC08
}

func judge3164(x *exp3164, rs [4]res3164, o opt3164) int {
	bad := 0
	for k, r := range rs {
		strict := k == cfgMS || k == cfgPS
		has := r.msg != nil || r.otherMsg
		fd, td := false, false
		if r.msg != nil {
			fd, td = fieldDiff3164(r.msg, x, o), tsDiff3164(r.msg.Timestamp, x, o)
		}
		if r.panicked != "" || !has && r.err == nil || r.otherMsg || strict && has && r.err != nil {
			bad |= bC09
		}
		if r.msg != nil {
			p := u8(r.msg.Priority)
			if !r.msg.Valid() || p < 0 || p > 191 || u8(r.msg.Facility) != p/8 || u8(r.msg.Severity) != p%8 {
				bad |= bC09
			}
		}
		if strict {
			if (r.err == nil) != x.acc || x.acc && (!has || fd || r.otherMsg) {
				bad |= bC06
			}
		}
		if x.acc {
			if has && td || r.err != nil {
				bad |= bC07
			}
			if !strict && (r.err != nil || !has || fd || td) {
				bad |= bC08
			}
		} else {
			if (x.kind == "timestamp" || x.kind == "rfc3339" || x.kind == "date") && r.err == nil {
				bad |= bC07
			}
			if r.err == nil || normErr(r.err) != fmt.Sprintf("%s [col %d]", errText3164[x.kind], x.col) {
				bad |= bC08
			}
			if strict && has {
				bad |= bC08
			}
			if !strict && (has != (x.pri >= 0) || has && (fd || td)) {
				bad |= bC08
			}
		}
	}
	if sameRes3164(rs[cfgMS], rs[cfgPS]) != "" || sameRes3164(rs[cfgMB], rs[cfgPB]) != "" {
		bad |= bC09
	}
	return bad
}

func sameRes3164(a, b res3164) string {
	if a.panicked != b.panicked {
		return "panic"
	}
	if (a.err == nil) != (b.err == nil) || a.err != nil && a.err.Error() != b.err.Error() {
		return "error"
	}
	if (a.msg == nil) != (b.msg == nil) || a.otherMsg != b.otherMsg {
		return "message"
	}
	if a.msg != nil {
		return sameMsg3164(a.msg, b.msg)
	}
	return ""
}

func sameMsg3164(a, b *rfc3164.SyslogMessage) string {
	switch {
	case !sameU8(a.Priority, b.Priority):
		return "pri"
	case !sameU8(a.Facility, b.Facility):
		return "fac"
	case !sameU8(a.Severity, b.Severity):
		return "sev"
	case !sameTime(a.Timestamp, b.Timestamp):
		return "ts"
	case !sameStr(a.Hostname, b.Hostname):
		return "host"
	case !sameStr(a.Appname, b.Appname):
		return "app"
	case !sameStr(a.ProcID, b.ProcID):
		return "proc"
	case !sameStr(a.MsgID, b.MsgID):
		return "msgid"
	case !sameStr(a.Message, b.Message):
		return "msg"
	}
	return ""
}

func msg3164J(m *rfc3164.SyslogMessage) J {
	return J{"pri": u8(m.Priority), "fac": u8(m.Facility), "sev": u8(m.Severity), "ts": tsJ(m.Timestamp),
		"host": optJ(m.Hostname), "app": optJ(m.Appname), "proc": optJ(m.ProcID), "msgid": optJ(m.MsgID), "msg": optJ(m.Message), "valid": m.Valid()}
}

func res3164J(r res3164) J {
	j := J{"panic": r.panicked, "err": errJ(r.err), "msg": []J{}}
	if r.msg != nil {
		j["msg"] = []J{msg3164J(r.msg)}
	}
	if r.otherMsg {
		j["panic"] = "message of another type"
	}
	return j
}

// trace3164J records the options as the model sees them: the zones only by
// the offsets they have at the time in question (environment, from the time
// package).
func trace3164J(in []byte, o opt3164, rs [4]res3164, x *exp3164) J {
	locoff := 0
	zoneoff := []int{}
	if x.hasTs && !x.rfc {
		l := o.locale
		if l == nil {
			l = time.UTC
		}
		v := x.ts
		t := time.Date(o.year, time.Month(v.mo), v.d, v.h, v.mi, v.s, 0, l)
		_, locoff = t.Zone()
		if o.zone != nil {
			_, zo := t.In(o.zone).Zone()
			zoneoff = []int{zo}
		}
	}
	return J{"in": bytesJ(string(in)), "opt": J{"rfc": o.rfc, "year": o.year, "locoff": locoff, "zoneoff": zoneoff, "names": strings.Join(o.names(), " ")},
		"ms": res3164J(rs[cfgMS]), "mb": res3164J(rs[cfgMB]), "ps": res3164J(rs[cfgPS]), "pb": res3164J(rs[cfgPB])}
}

func (o opt3164) names() []string {
	var n []string
	if o.rfc {
		n = append(n, "rfc3339")
	}
	if o.hasYear {
		n = append(n, fmt.Sprint("year=", o.year))
	}
	if o.locale != nil {
		n = append(n, "locale="+o.locale.String())
	}
	if o.zone != nil {
		n = append(n, "zone="+o.zone.String())
	}
	return n
}
