package main

// Messages as Go programs have them (MessageCells.tla): copies of messages,
// pointers shared between them, parts assigned by the program. Histories of
// such steps on real messages against the cells of the specification; the
// clauses are those of TraceMessageCells.tla (TLC has the last word).

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

const (
	cMsgs = 3
	cHeld = 3
)

type sdmap = map[string]map[string]string

// tcell is a timestamp with its nanoseconds and the seconds of its offset
type tcell struct{ y, mo, d, h, mi, s, ns, off int }

func tcellOf(t time.Time) tcell {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	_, off := t.Zone()
	return tcell{y, int(mo), d, h, mi, s, t.Nanosecond(), off}
}

func (t tcell) json() J {
	return J{"y": t.y, "mo": t.mo, "d": t.d, "h": t.h, "mi": t.mi, "s": t.s, "ns": t.ns, "off": t.off}
}

var cTexts = []string{"host", "app", "proc", "msgid", "msg"}
var cNums = []string{"pri", "fac", "sev"}
var cPtrs = append(append([]string{"ts", "sd"}, cTexts...), cNums...)

func cKind(f string) string {
	switch f {
	case "ts", "sd", "ver":
		return f
	case "pri", "fac", "sev":
		return "num"
	}
	return "text"
}

type cop struct {
	do       string
	m, to, k int
	f, kind  string
	o        bop
	val      interface{} // string, int, time.Time, sdmap
	in       []byte
}

func (o cop) json() J {
	j := J{"do": o.do}
	switch o.do {
	case "set":
		j["m"], j["o"] = o.m, o.o.json()
		if o.o.op == "compute" {
			j["o"] = J{"op": o.o.op, "n": o.o.n}
		}
	case "copy":
		j["m"], j["to"] = o.m, o.to
	case "hold", "lend":
		j["k"], j["m"], j["f"] = o.k, o.m, o.f
	case "give":
		j["m"], j["f"], j["kind"], j["v"] = o.m, o.f, cKind(o.f), cValJ(o.val)
	case "drop":
		j["m"], j["f"] = o.m, o.f
	case "write":
		j["k"], j["kind"], j["v"] = o.k, o.kind, cValJ(o.val)
	case "parse":
		j["m"], j["v"] = o.m, bytesJ(string(o.in))
	}
	return j
}

func cValJ(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		return bytesJ(x)
	case int:
		return x
	case time.Time:
		return tcellOf(x).json()
	case tcell:
		return x.json()
	case sdmap:
		return sdJ(&x).([][]J)[0]
	}
	panic("value of no kind")
}

// ---- the cells of the specification

type cmsg struct {
	at  map[string]int // field -> cell + 1; 0: nil
	ver int
}

type cworld struct {
	b     *bmodel
	cells []interface{} // string, int, tcell, sdmap
	msgs  [cMsgs + 1]cmsg
	held  [cHeld + 1]struct {
		kind string
		at   int
	}
}

func (b *bmodel) newCells() *cworld {
	w := &cworld{b: b}
	for i := range w.msgs {
		w.msgs[i].at = map[string]int{}
	}
	return w
}

func (w *cworld) fresh(i int, f string, v interface{}) {
	w.cells = append(w.cells, v)
	w.msgs[i].at[f] = len(w.cells)
}

func (w *cworld) val(i int, f string) interface{} {
	if a := w.msgs[i].at[f]; a > 0 {
		return w.cells[a-1]
	}
	return nil
}

func copySd(x sdmap) sdmap {
	if x == nil {
		return sdmap{}
	}
	return cloneExp(&exp5424{sd: x}).sd
}

func asCell(v interface{}) interface{} {
	switch x := v.(type) {
	case time.Time:
		return tcellOf(x)
	case sdmap:
		return copySd(x)
	}
	return v
}

func (w *cworld) set(i int, o bop) {
	x := blank()
	switch o.op {
	case "priority", "compute":
		if o.op == "compute" || o.n <= 191 {
			w.fresh(i, "pri", o.n)
			w.fresh(i, "fac", o.n/8)
			w.fresh(i, "sev", o.n%8)
		}
		return
	case "version":
		x.ver = w.msgs[i].ver
		w.b.do(x, o)
		w.msgs[i].ver = x.ver
		return
	case "element", "param":
		c := w.msgs[i].at["sd"]
		if c > 0 {
			x.sd = copySd(w.cells[c-1].(sdmap))
		}
		w.b.do(x, o)
		if c > 0 {
			w.cells[c-1] = x.sd
		} else if x.sd != nil {
			w.fresh(i, "sd", x.sd)
		}
		return
	}
	w.b.do(x, o)
	if x.hasTs {
		w.fresh(i, "ts", tcellOfTsv(x.ts))
	}
	for f, s := range map[string]string{"host": x.host, "app": x.app, "proc": x.proc, "msgid": x.msgid, "msg": x.msg} {
		if s != "" {
			w.fresh(i, f, s)
		}
	}
}

func tcellOfTsv(t tsv) tcell {
	return tcell{t.y, t.mo, t.d, t.h, t.mi, t.s, t.us * 1000, t.offmin * 60}
}

func (w *cworld) act(o cop) {
	switch o.do {
	case "set":
		w.set(o.m, o.o)
	case "copy":
		c := cmsg{map[string]int{}, w.msgs[o.m].ver}
		for f, a := range w.msgs[o.m].at {
			c.at[f] = a
		}
		w.msgs[o.to] = c
	case "hold":
		h := &w.held[o.k]
		h.kind, h.at = cKind(o.f), w.msgs[o.m].at[o.f]
	case "lend":
		if h := w.held[o.k]; h.at > 0 && h.kind == cKind(o.f) {
			w.msgs[o.m].at[o.f] = h.at
		}
	case "give":
		if o.f == "ver" {
			w.msgs[o.m].ver = o.val.(int)
		} else {
			w.fresh(o.m, o.f, asCell(o.val))
		}
	case "drop":
		w.msgs[o.m].at[o.f] = 0
	case "write":
		if h := w.held[o.k]; h.at > 0 && h.kind == o.kind {
			w.cells[h.at-1] = asCell(o.val)
		}
	case "parse":
		x := w.b.t.run5424(o.in)
		if !x.acc {
			return
		}
		w.msgs[o.m] = cmsg{map[string]int{}, x.ver}
		if x.hasTs {
			w.fresh(o.m, "ts", tcellOfTsv(x.ts))
		}
		for f, s := range map[string]string{"host": nd(x.host), "app": nd(x.app), "proc": nd(x.proc), "msgid": nd(x.msgid), "msg": x.msg} {
			if s != "" {
				w.fresh(o.m, f, s)
			}
		}
		if x.sd != nil {
			w.fresh(o.m, "sd", x.sd)
		}
		w.set(o.m, bop{op: "priority", n: x.pri})
	}
}

func sameSd(a, b sdmap) bool { return !sdDiff(&a, b) }

// ---- the program

type creal struct {
	p    syslog.Machine
	msgs [cMsgs + 1]rfc5424.SyslogMessage
	held [cHeld + 1]interface{} // *string, *uint8, *time.Time, *sdmap, nil
}

func textAt(m *rfc5424.SyslogMessage, f string) **string {
	switch f {
	case "host":
		return &m.Hostname
	case "app":
		return &m.Appname
	case "proc":
		return &m.ProcID
	case "msgid":
		return &m.MsgID
	}
	return &m.Message
}

func numAt(m *rfc5424.SyslogMessage, f string) **uint8 {
	switch f {
	case "pri":
		return &m.Priority
	case "fac":
		return &m.Facility
	}
	return &m.Severity
}

// assign lets the field point to what p points to
func (x *creal) assign(m *rfc5424.SyslogMessage, f string, p interface{}) {
	switch q := p.(type) {
	case *string:
		*textAt(m, f) = q
	case *uint8:
		*numAt(m, f) = q
	case *time.Time:
		m.Timestamp = q
	case *sdmap:
		m.StructuredData = q
	}
}

func ownSd(v sdmap) sdmap {
	if v == nil {
		return nil
	}
	o := sdmap{}
	for k, e := range v {
		if e == nil {
			o[k] = nil
			continue
		}
		o[k] = map[string]string{}
		for a, b := range e {
			o[k][a] = b
		}
	}
	return o
}

func pointerTo(v interface{}) interface{} {
	switch y := v.(type) {
	case string:
		return &y
	case int:
		n := uint8(y)
		return &n
	case time.Time:
		return &y
	case sdmap:
		c := ownSd(y)
		return &c
	}
	panic("value of no kind")
}

func kindOfPtr(p interface{}) string {
	switch p.(type) {
	case *string:
		return "text"
	case *uint8:
		return "num"
	case *time.Time:
		return "ts"
	case *sdmap:
		return "sd"
	}
	return ""
}

func (x *creal) act(o cop) (pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprint("panic: ", p)
		}
	}()
	var m *rfc5424.SyslogMessage
	if o.m > 0 {
		m = &x.msgs[o.m]
	}
	switch o.do {
	case "set":
		if o.o.op == "compute" {
			m.ComputeFromPriority(uint8(o.o.n))
			return
		}
		b, pan := applyReal(m, o.o)
		if pan == "" && b != rfc5424.Builder(m) {
			pan = "returned another message"
		}
		return pan
	case "copy":
		x.msgs[o.to] = x.msgs[o.m]
	case "hold":
		x.held[o.k] = nil
		switch cKind(o.f) {
		case "text":
			if p := *textAt(m, o.f); p != nil {
				x.held[o.k] = p
			}
		case "num":
			if p := *numAt(m, o.f); p != nil {
				x.held[o.k] = p
			}
		case "ts":
			if m.Timestamp != nil {
				x.held[o.k] = m.Timestamp
			}
		case "sd":
			if m.StructuredData != nil {
				x.held[o.k] = m.StructuredData
			}
		}
	case "lend":
		if kindOfPtr(x.held[o.k]) == cKind(o.f) {
			x.assign(m, o.f, x.held[o.k])
		}
	case "give":
		if o.f == "ver" {
			m.Version = uint16(o.val.(int))
		} else {
			x.assign(m, o.f, pointerTo(o.val))
		}
	case "drop":
		switch cKind(o.f) {
		case "text":
			*textAt(m, o.f) = nil
		case "num":
			*numAt(m, o.f) = nil
		case "ts":
			m.Timestamp = nil
		case "sd":
			m.StructuredData = nil
		}
	case "write":
		if kindOfPtr(x.held[o.k]) != o.kind {
			return
		}
		switch p := x.held[o.k].(type) {
		case *string:
			*p = o.val.(string)
		case *uint8:
			*p = uint8(o.val.(int))
		case *time.Time:
			*p = o.val.(time.Time)
		case *sdmap:
			if v := o.val.(sdmap); v != nil && len(v) == 0 && *p != nil {
				for k := range *p { // in place
					delete(*p, k)
				}
			} else {
				*p = ownSd(v)
			}
		}
	case "parse":
		r, err := x.p.Parse(o.in)
		if g, ok := r.(*rfc5424.SyslogMessage); ok && g != nil && err == nil {
			*m = *g
		}
	}
	return
}

// ---- comparing

func (w *cworld) diff(x *creal) bool {
	for i := 1; i <= cMsgs; i++ {
		m := &x.msgs[i]
		if int(m.Version) != w.msgs[i].ver {
			return true
		}
		for _, f := range cTexts {
			p, v := *textAt(m, f), w.val(i, f)
			if (p == nil) != (v == nil) || p != nil && *p != v.(string) {
				return true
			}
		}
		for _, f := range cNums {
			p, v := *numAt(m, f), w.val(i, f)
			if (p == nil) != (v == nil) || p != nil && int(*p) != v.(int) {
				return true
			}
		}
		v := w.val(i, "ts")
		if (m.Timestamp == nil) != (v == nil) || v != nil && tcellOf(*m.Timestamp) != v.(tcell) {
			return true
		}
		v = w.val(i, "sd")
		if (m.StructuredData == nil) != (v == nil) || v != nil && !sameSd(*m.StructuredData, v.(sdmap)) {
			return true
		}
		p := w.val(i, "pri")
		if m.Valid() != (p != nil && p.(int) <= 191 && w.msgs[i].ver >= 1 && w.msgs[i].ver <= 999) {
			return true
		}
	}
	for k := 1; k <= cHeld; k++ {
		h := w.held[k]
		if (x.held[k] == nil) != (h.at == 0) {
			return true
		}
		if h.at == 0 {
			continue
		}
		switch p := x.held[k].(type) {
		case *string:
			if *p != w.cells[h.at-1].(string) {
				return true
			}
		case *uint8:
			if int(*p) != w.cells[h.at-1].(int) {
				return true
			}
		case *time.Time:
			if tcellOf(*p) != w.cells[h.at-1].(tcell) {
				return true
			}
		case *sdmap:
			if !sameSd(*p, w.cells[h.at-1].(sdmap)) {
				return true
			}
		}
	}
	return false
}

func (x *creal) json() (ms, hs []interface{}) {
	for i := 1; i <= cMsgs; i++ {
		m := &x.msgs[i]
		j := msg5424J(m)
		for _, f := range cNums {
			if p := *numAt(m, f); p != nil {
				j[f] = []int{int(*p)}
			} else {
				j[f] = []int{}
			}
		}
		ms = append(ms, j)
	}
	for k := 1; k <= cHeld; k++ {
		switch p := x.held[k].(type) {
		case *string:
			hs = append(hs, []interface{}{"text", bytesJ(*p)})
		case *uint8:
			hs = append(hs, []interface{}{"num", int(*p)})
		case *time.Time:
			hs = append(hs, []interface{}{"ts", tcellOf(*p).json()})
		case *sdmap:
			hs = append(hs, []interface{}{"sd", cValJ(ownSd(*p))})
		default:
			hs = append(hs, []int{})
		}
	}
	return
}

// expected: the message String is to give, nil if it is no valid one or one
// that RFC 5424 cannot express
func (w *cworld) expected(i int) (x *exp5424, valid bool) {
	p := w.val(i, "pri")
	if p == nil || p.(int) > 191 || w.msgs[i].ver < 1 || w.msgs[i].ver > 999 {
		return nil, false
	}
	x = blank()
	x.pri, x.ver = p.(int), w.msgs[i].ver
	for f, g := range map[string]string{"host": "hostname", "app": "appname", "proc": "procid", "msgid": "msgid", "msg": ""} {
		v := w.val(i, f)
		if v == nil {
			continue
		}
		s := v.(string)
		if g != "" {
			if ok, _, _ := w.b.field(g, s); !ok {
				return nil, true
			}
			s = nd(s)
		}
		switch f {
		case "host":
			x.host = s
		case "app":
			x.app = s
		case "proc":
			x.proc = s
		case "msgid":
			x.msgid = s
		default:
			x.msg = s
		}
	}
	if v := w.val(i, "ts"); v != nil {
		t := v.(tcell)
		if t.y < 0 || t.y > 9999 || t.off%60 != 0 || t.off <= -86400 || t.off >= 86400 {
			return nil, true
		}
		x.hasTs, x.ts = true, tsv{t.y, t.mo, t.d, t.h, t.mi, t.s, t.ns / 1000, t.off / 60}
	}
	if v := w.val(i, "sd"); v != nil && len(v.(sdmap)) > 0 {
		x.sd = v.(sdmap)
		for id, ps := range x.sd {
			if ok, _, _ := w.b.field("sdid", id); !ok {
				return nil, true
			}
			for n, v := range ps {
				if ok, _, _ := w.b.field("sdpn", n); !ok {
					return nil, true
				}
				if ok, _, _ := w.b.field("sdpv", escapeVal(v)); !ok && v != "" {
					return nil, true
				}
			}
		}
	}
	return x, true
}

// ask calls everything that reads a message
func ask(m *rfc5424.SyslogMessage) (s bstr) {
	defer func() {
		if p := recover(); p != nil {
			s.panic = fmt.Sprint("panic: ", p)
		}
	}()
	m.Valid()
	m.FacilityMessage()
	m.FacilityLevel()
	m.SeverityMessage()
	m.SeverityLevel()
	m.SeverityShortLevel()
	t, err := m.String()
	if err == nil {
		s.has, s.s = true, t
		s.re = parse5424(rfc5424.NewParser(), []byte(t)).msg
	}
	return
}

func (b *bmodel) cellHistory(ops []cop, rec bool) (bad bool, tr J) {
	w, x := b.newCells(), &creal{p: rfc5424.NewParser()}
	steps := []J{}
	for _, o := range ops {
		var pan string
		var s bstr
		ser := 0
		ms, hs := x.json()
		now := func(p string) J {
			return J{"op": o.json(), "msgs": ms, "held": hs, "ser": 0, "str": [][]int{}, "re": []J{}, "panic": p}
		}
		watched(func() J { return J{"nm": cMsgs, "nh": cHeld, "steps": append(steps, now(didNotReturn))} }, func() {
			if o.do == "none" {
				ser = o.m
				s = ask(&x.msgs[ser])
				pan = s.panic
			} else {
				pan = x.act(o)
			}
		})
		w.act(o)
		if pan != "" || w.diff(x) {
			bad = true
		}
		if ser > 0 && pan == "" {
			e, valid := w.expected(ser)
			if s.has != valid {
				bad = true
			} else if e != nil {
				y := b.t.run5424([]byte(s.s))
				bad = bad || !y.acc || !sameExp(e, y) || s.re == nil || fieldDiffB(s.re, e)
			}
		}
		if rec {
			ms, hs = x.json()
			j := now(pan)
			j["ser"] = ser
			if s.has {
				j["str"] = [][]int{bytesJ(s.s)}
			}
			if s.re != nil {
				r := msg5424J(s.re)
				for _, f := range cNums {
					r[f] = []int{u8(*numAt(s.re, f))}
				}
				j["re"] = []J{r}
			}
			steps = append(steps, j)
		}
		if pan != "" {
			break
		}
	}
	if rec {
		tr = J{"nm": cMsgs, "nh": cHeld, "steps": steps}
	}
	return
}

// ---- generation

var cStamps = []time.Time{
	time.Date(2003, 10, 11, 22, 14, 15, 3000000, time.UTC),
	time.Date(2003, 10, 11, 22, 14, 15, 123456789, time.FixedZone("", -7*3600)),
	time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.FixedZone("A", 5*3600+1800)),
	time.Date(9999, 12, 31, 23, 59, 59, 999999500, time.UTC),
	time.Date(0, 1, 1, 0, 0, 0, 1, time.FixedZone("odd", 86399-59)),
	time.Date(2020, 2, 29, 12, 0, 0, 1000, time.FixedZone("west", -86340)),
	time.Date(2020, 2, 29, 12, 0, 0, 0, time.FixedZone("seconds", 3601)),
	time.Date(12020, 2, 29, 12, 0, 0, 0, time.UTC),
	time.Date(-1, 2, 28, 12, 0, 0, 0, time.UTC),
	{},
}

var cSds = []sdmap{nil, {}, {"a": nil}, {"a": {}}, {"a": {"n": "v"}}, {"a": {"n": `q"]\`}, "b": nil}, {"b": {"n": "", "o": "é"}}, {"a b": {}}, {"a": {"n": "\xff"}}, {"a": {"": "x"}}, {"x@1": {"n": "1"}, "a": {"o": "2"}}}

func (b *bmodel) cGive(r *rand.Rand, kind string) interface{} {
	switch kind {
	case "text":
		if r.Intn(2) == 0 {
			return [...]string{"a", "b", "-", "", "same", "two words", "é", "x]", "\n", strings.Repeat("h", 48), strings.Repeat("h", 256)}[r.Intn(11)]
		}
		return b.word(r, headerFields[1+r.Intn(4)])
	case "num":
		return [...]int{0, 1, 7, 8, 23, 24, 100, 191, 192, 255}[r.Intn(10)]
	case "ver":
		return [...]int{0, 1, 2, 10, 999, 1000, 65535}[r.Intn(7)]
	case "ts":
		t := cStamps[r.Intn(len(cStamps))]
		if r.Intn(3) == 0 {
			t = time.Unix(int64(r.Intn(1<<31-1)), int64(r.Intn(1e9)))
		}
		return t
	}
	return cSds[r.Intn(len(cSds))]
}

var cFull = []byte(`<165>3 2019-12-31T23:59:59.123456+05:30 host app proc id [a n="1" o="2"][b] text`)

func (b *bmodel) cRandOp(r *rand.Rand) cop {
	m, k, f := 1+r.Intn(cMsgs), 1+r.Intn(cHeld), cPtrs[r.Intn(len(cPtrs))]
	switch r.Intn(20) {
	case 0, 1:
		return cop{do: "copy", m: m, to: 1 + m%cMsgs}
	case 2, 3, 4:
		return cop{do: "hold", k: k, m: m, f: f}
	case 5, 6, 7:
		return cop{do: "lend", k: k, m: m, f: f}
	case 8, 9:
		if r.Intn(6) == 0 {
			f = "ver"
		}
		return cop{do: "give", m: m, f: f, val: b.cGive(r, cKind(f))}
	case 10:
		if r.Intn(3) == 0 {
			return cop{do: "drop", m: m, f: f}
		}
		return cop{do: "write", k: k, kind: cKind(f), val: b.cGive(r, cKind(f))}
	case 11:
		in := gen5424(r)
		if r.Intn(2) == 0 {
			in = cFull
		}
		if len(in) > 300 {
			in = cFull
		}
		return cop{do: "parse", m: m, in: in}
	case 12, 13:
		return cop{do: "none", m: m}
	}
	ids, names := []string{"a", "b", "a", "x@1"}, []string{"n", "o"}
	o := b.randOp(r, &ids, &names, map[string]string{})
	if r.Intn(20) == 0 {
		o = bop{op: "compute", n: r.Intn(256)}
	}
	return cop{do: "set", m: m, o: o}
}

func copsSize(ops []cop) int {
	n := 0
	for _, o := range ops {
		n += 10 + len(o.in) + len(o.o.v) + len(o.o.id) + len(o.o.name)
	}
	return n
}

// cSystem: every way to come by a value, every way to share it, every setter
func cSystem() (hs [][]cop) {
	setters := []bop{{op: "priority", n: 34}, {op: "priority", n: 200}, {op: "compute", n: 7}, {op: "compute", n: 250}, {op: "version", n: 2}, {op: "version", n: 1000},
		{op: "timestamp", v: "2020-06-30T12:59:59.5+01:00"}, {op: "timestamp", v: "-"}, {op: "timestamp", v: ""}, {op: "timestamp", v: "2019-02-29T00:00:00Z"},
		{op: "element", id: "a"}, {op: "element", id: "new"}, {op: "element", id: "n w"}, {op: "param", id: "a", name: "n", v: "again"}, {op: "param", id: "a", name: "p", v: `x\]`},
		{op: "param", id: "b", name: "n", v: `"`}, {op: "param", id: "c", name: "n", v: "v"}, {op: "param", id: "a", name: "=", v: "v"}}
	for _, f := range []string{"hostname", "appname", "procid", "msgid", "message"} {
		for _, v := range []string{"set", "-", "", "host", "s p", "é"} {
			setters = append(setters, bop{op: f, v: v})
		}
	}
	origins := [][]cop{
		{{do: "parse", m: 1, in: cFull}},
		{{do: "set", m: 1, o: bop{op: "priority", n: 165}}, {do: "set", m: 1, o: bop{op: "version", n: 3}}, {do: "set", m: 1, o: bop{op: "timestamp", v: "2003-10-11T22:14:15.003Z"}},
			{do: "set", m: 1, o: bop{op: "hostname", v: "host"}}, {do: "set", m: 1, o: bop{op: "appname", v: "app"}}, {do: "set", m: 1, o: bop{op: "procid", v: "proc"}}, {do: "set", m: 1, o: bop{op: "msgid", v: "id"}},
			{do: "set", m: 1, o: bop{op: "param", id: "a", name: "n", v: "1"}}, {do: "set", m: 1, o: bop{op: "message", v: "text"}}},
	}
	base := []cop{{do: "give", m: 1, f: "pri", val: 165}, {do: "give", m: 1, f: "ver", val: 1}, {do: "give", m: 1, f: "fac", val: 20}, {do: "give", m: 1, f: "sev", val: 5}}
	for i, sd := range cSds {
		g := append(append([]cop{}, base...), cop{do: "give", m: 1, f: "sd", val: sd}, cop{do: "give", m: 1, f: "ts", val: cStamps[i%len(cStamps)]})
		for _, f := range cTexts {
			g = append(g, cop{do: "give", m: 1, f: f, val: []string{f, "-", ""}[i%3]})
			if i%3 == 2 && f != "msg" {
				g[len(g)-1] = cop{do: "give", m: 1, f: f, val: f + "2"}
			}
		}
		origins = append(origins, g)
	}
	var shares [][]cop
	shares = append(shares, []cop{}, []cop{{do: "copy", m: 1, to: 2}}, []cop{{do: "copy", m: 1, to: 2}, {do: "copy", m: 2, to: 3}, {do: "drop", m: 3, f: "sd"}})
	for _, f := range cPtrs {
		for _, g := range cPtrs {
			if cKind(f) == cKind(g) {
				shares = append(shares, []cop{{do: "hold", k: 1, m: 1, f: f}, {do: "lend", k: 1, m: 1, f: g}, {do: "lend", k: 1, m: 2, f: g}, {do: "give", m: 2, f: "ver", val: 1}})
			}
		}
	}
	ends := []cop{{do: "none", m: 1}, {do: "none", m: 2}, {do: "none", m: 3}}
	// equal values given to two messages, the program changing that of one, and
	// a third message
	written := map[string]interface{}{"text": "written", "num": 99, "ts": cStamps[1], "sd": sdmap{}}
	twice := func(at func(m int) cop) {
		for _, f := range cPtrs {
			for _, n := range []int{1, 2} {
				for _, v := range []interface{}{written[cKind(f)], sdmap{"w": {"x": "y"}}} {
					if _, ok := v.(sdmap); ok != (f == "sd") {
						continue
					}
					h := []cop{at(1), at(2), {do: "hold", k: 1, m: n, f: f}, {do: "write", k: 1, kind: cKind(f), val: v}, at(3)}
					hs = append(hs, append(append(h, ends...), at(2), ends[1], ends[0]))
				}
			}
		}
	}
	for _, o := range setters {
		o := o
		twice(func(m int) cop { return cop{do: "set", m: m, o: o} })
	}
	for _, in := range []string{string(cFull), "<165>3 2019-12-31T23:59:59Z a a a a [a] a", "<0>1 - - - - - -", `<1>1 - - - - - [a][b n="\]"] x`} {
		in := []byte(in)
		twice(func(m int) cop { return cop{do: "parse", m: m, in: in} })
	}
	for _, o := range origins {
		for _, s := range shares {
			for _, st := range setters {
				for _, at := range []int{1, 2} {
					h := append(append(append([]cop{}, o...), s...), cop{do: "set", m: at, o: st})
					hs = append(hs, append(append(h, ends...), cop{do: "set", m: at, o: st}, cop{do: "none", m: at}))
				}
			}
			hs = append(hs, append(append(append([]cop{}, o...), s...), ends...),
				append(append(append(append([]cop{}, o...), s...), ends...), cop{do: "parse", m: 2, in: cFull}, cop{do: "set", m: 2, o: setters[0]}, cop{do: "none", m: 2}))
		}
	}
	return
}

func tcells(args map[string]string) {
	t := loadTables(args["table"], acts5424)["plain"]
	errText5424 = loadErrTexts(args["table"])
	b := loadBuilder(args["entries"], t)
	startWatch(args)
	seed := int64(atoi(args["seed"]))
	dl := time.Now().Add(time.Duration(atoi(args["secs"])) * time.Second)
	var mu sync.Mutex
	var cands [][]cop
	hist, calls, mism := 0, 0, 0
	check := func(ops []cop) {
		bad, _ := b.cellHistory(ops, false)
		mu.Lock()
		hist++
		calls += len(ops)
		if bad {
			mism++
			if len(cands) < 4000 {
				cands = append(cands, ops)
			}
		}
		mu.Unlock()
	}
	sys := cSystem()
	var first [][]cop // structured data that is emptied and given again
	for _, h := range sys[:2000] {
		if h[0].do == "set" && h[0].o.op == "element" && h[3].kind == "sd" && len(h[3].val.(sdmap)) == 0 {
			first = append(first, h)
		}
	}
	sys = append(first, sys...)
	out := newNdj(args["out"])
	for i := 0; i < 64; i++ { // in order and recorded: what the first messages of a process get
		hist++
		calls += len(sys[i])
		if bad, tr := b.cellHistory(sys[i], true); bad {
			mism++
			out.add(tr)
		}
	}
	pool(len(sys)-64, seed, dl, func(i int, r *rand.Rand) { check(sys[64+i]) })
	nsys := hist
	gen := func(r *rand.Rand) (ops []cop) {
		n := 4 + r.Intn(14)
		if r.Intn(20) == 0 {
			n += 40
		}
		switch r.Intn(3) {
		case 0:
			ops = append(ops, cop{do: "parse", m: 1, in: cFull})
		case 1:
			ops = append(ops, cop{do: "set", m: 1, o: bop{op: "priority", n: 3}}, cop{do: "give", m: 1, f: "ver", val: 1})
		}
		for len(ops) < n {
			ops = append(ops, b.cRandOp(r))
		}
		for i := 1; i <= cMsgs; i++ {
			ops = append(ops, cop{do: "none", m: i})
		}
		return
	}
	pool(atoi(args["random"]), seed, dl, func(i int, r *rand.Rand) { check(gen(r)) })
	sort.SliceStable(cands, func(i, j int) bool { return copsSize(cands[i]) < copsSize(cands[j]) })
	for i, c := range cands {
		if i >= 40 {
			break
		}
		var tr J
		for n := 0; n < 20; n++ { // what depends on the order of a map may need several attempts
			var bad bool
			if bad, tr = b.cellHistory(c, true); bad {
				break
			}
		}
		out.add(tr)
	}
	nc := out.n
	r := rand.New(rand.NewSource(seed + 99))
	var samples []string
	for i := 0; i < atoi(args["sample"]); {
		ops := gen(r)
		if i%3 == 0 {
			ops = sys[r.Intn(len(sys))]
		}
		if copsSize(ops) > 700 {
			continue
		}
		_, tr := b.cellHistory(ops, true)
		out.add(tr)
		i++
		if len(samples) < 3 {
			samples = append(samples, trunc(fmt.Sprintf("%+v", ops), 280))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"histories": hist, "calls": calls, "systematic_histories": nsys, "mismatches": mism, "candidates": nc, "traces": out.n, "samples": samples})
}
