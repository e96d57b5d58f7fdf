package main

// RFC 5424 builder: the operations of Builder5424.tla over the exported
// automaton, random histories of calls on the real builder, and the clauses
// of TraceBuilder5424.tla (TLC has the last word).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

type entryRow struct {
	From   []json.RawMessage `json:"from"`
	Phases []string          `json:"phases"`
	End    int               `json:"end"`
}

type entryDef struct {
	from   int
	phases map[string]bool
	end    byte
	states []int // states of the field reachable from its start, breadth first
	access [][]byte
}

type bmodel struct {
	t *table
	e map[string]*entryDef
}

func phaseOf(name string) string {
	if i := strings.IndexByte(name, '/'); i >= 0 {
		return name[:i]
	}
	return name
}

func loadBuilder(path string, t *table) *bmodel {
	f, err := os.Open(path)
	fatal(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	m := &bmodel{t: t, e: map[string]*entryDef{}}
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, `"ENTRY `) {
			continue
		}
		var s string
		fatal(json.Unmarshal([]byte(line), &s))
		var rows map[string]entryRow
		fatal(json.Unmarshal([]byte(s[6:]), &rows))
		for k, r := range rows {
			d := &entryDef{from: t.index[ctlName(r.From)], phases: map[string]bool{}, end: byte(r.End)}
			for _, p := range r.Phases {
				d.phases[p] = true
			}
			seen := map[int]bool{d.from: true}
			d.states = []int{d.from}
			d.access = [][]byte{{}}
			for i := 0; i < len(d.states); i++ {
				s := t.states[d.states[i]]
				for j, bs := range s.classes {
					to := s.targets[j]
					if !seen[to] && d.phases[phaseOf(t.states[to].name)] {
						seen[to] = true
						d.states = append(d.states, to)
						d.access = append(d.access, append(append([]byte{}, d.access[i]...), pickNice(bs)))
					}
				}
			}
			m.e[k] = d
		}
	}
	if len(m.e) == 0 {
		fatal(fmt.Errorf("no entries in %s", path))
	}
	return m
}

// field reads v as field f: conforms, and the value it denotes
func (m *bmodel) field(f, v string) (ok bool, val string, ts tsv) {
	d := m.e[f]
	i := d.from
	var cur []byte
	for p := 0; p < len(v); p++ {
		e := m.t.states[i].edges[v[p]]
		if !d.phases[phaseOf(m.t.states[e.to].name)] {
			return
		}
		for _, a := range e.acts {
			if a == aPush {
				cur = append(cur, v[p])
			}
		}
		i = e.to
	}
	e := m.t.states[i].edges[d.end]
	x := m.t.states[e.to]
	if x.fail != "" || d.phases[phaseOf(x.name)] {
		return
	}
	if f == "timestamp" {
		ts = tsFields(cur)
		if ts.d > daysIn(ts.y, ts.mo) {
			return
		}
	}
	return true, string(cur), ts
}

type bop struct {
	op          string
	n           int
	v, id, name string
}

func (o bop) json() J {
	j := J{"op": o.op}
	switch o.op {
	case "priority", "version":
		j["n"] = o.n
	case "element":
		j["id"] = bytesJ(o.id)
	case "param":
		j["id"], j["name"], j["v"] = bytesJ(o.id), bytesJ(o.name), bytesJ(o.v)
	case "none":
	default:
		j["v"] = bytesJ(o.v)
	}
	return j
}

// bmsg is the message of the specification
func blank() *exp5424 { return &exp5424{pri: -1} }

func cloneExp(x *exp5424) *exp5424 {
	y := *x
	if x.sd != nil {
		y.sd = map[string]map[string]string{}
		for k, v := range x.sd {
			e := map[string]string{}
			for a, b := range v {
				e[a] = b
			}
			y.sd[k] = e
		}
	}
	return &y
}

func (m *bmodel) do(x *exp5424, o bop) {
	text := func(f string, p *string) {
		if ok, _, _ := m.field(f, o.v); ok && o.v != "-" {
			*p = o.v
		}
	}
	addElem := func() bool {
		if _, has := x.sd[o.id]; has {
			return true
		}
		if ok, _, _ := m.field("sdid", o.id); !ok {
			return false
		}
		if x.sd == nil {
			x.sd = map[string]map[string]string{}
		}
		x.sd[o.id] = map[string]string{}
		return true
	}
	switch o.op {
	case "priority":
		if o.n <= 191 {
			x.pri = o.n
		}
	case "version":
		if o.n >= 1 && o.n <= 999 {
			x.ver = o.n
		}
	case "timestamp":
		if ok, _, ts := m.field("timestamp", o.v); ok {
			x.hasTs, x.ts = true, ts
		}
	case "hostname":
		text(o.op, &x.host)
	case "appname":
		text(o.op, &x.app)
	case "procid":
		text(o.op, &x.proc)
	case "msgid":
		text(o.op, &x.msgid)
	case "message":
		if o.v != "" {
			x.msg = o.v
		}
	case "element":
		addElem()
	case "param":
		if !addElem() {
			return
		}
		el := x.sd[o.id]
		if _, has := el[o.name]; has {
			return
		}
		if ok, _, _ := m.field("sdpn", o.name); !ok {
			return
		}
		_, val, _ := m.field("sdpv", o.v)
		if ok, _, _ := m.field("sdpv", o.v); !ok {
			val = ""
		}
		el[o.name] = val
	}
}

func applyReal(b rfc5424.Builder, o bop) (r rfc5424.Builder, pan string) {
	defer func() {
		if p := recover(); p != nil {
			r, pan = b, fmt.Sprint("panic: ", p)
		}
	}()
	switch o.op {
	case "priority":
		return b.SetPriority(uint8(o.n)), ""
	case "version":
		return b.SetVersion(uint16(o.n)), ""
	case "timestamp":
		return b.SetTimestamp(o.v), ""
	case "hostname":
		return b.SetHostname(o.v), ""
	case "appname":
		return b.SetAppname(o.v), ""
	case "procid":
		return b.SetProcID(o.v), ""
	case "msgid":
		return b.SetMsgID(o.v), ""
	case "message":
		return b.SetMessage(o.v), ""
	case "element":
		return b.SetElementID(o.id), ""
	case "param":
		return b.SetParameter(o.id, o.name, o.v), ""
	}
	return b, ""
}

type bstr struct {
	has    bool
	s      string
	re     *rfc5424.SyslogMessage
	stable bool
	alt    *string
	panic  string
}

func escapeVal(v string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `]`, `\]`).Replace(v)
}

// rebuild makes the same message again with the structured data added in
// another order
func rebuild(m *rfc5424.SyslogMessage, r *rand.Rand) *string {
	n := &rfc5424.SyslogMessage{}
	n.SetPriority(*m.Priority).SetVersion(m.Version)
	if m.Message != nil {
		n.SetMessage(*m.Message)
	}
	if m.MsgID != nil {
		n.SetMsgID(*m.MsgID)
	}
	if m.StructuredData != nil {
		type pr struct{ id, name, v string }
		var ps []pr
		for id, els := range *m.StructuredData {
			ps = append(ps, pr{id: id})
			for k, v := range els {
				ps = append(ps, pr{id, k, v})
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].id+" "+ps[i].name < ps[j].id+" "+ps[j].name })
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		for _, p := range ps {
			if p.name == "" {
				n.SetElementID(p.id)
			} else {
				n.SetParameter(p.id, p.name, escapeVal(p.v))
			}
		}
	}
	if m.ProcID != nil {
		n.SetProcID(*m.ProcID)
	}
	if m.Appname != nil {
		n.SetAppname(*m.Appname)
	}
	if m.Hostname != nil {
		n.SetHostname(*m.Hostname)
	}
	if m.Timestamp != nil {
		n.SetTimestamp(m.Timestamp.Format(rfc5424.RFC3339MICRO))
	}
	s, err := n.String()
	if err != nil {
		return nil
	}
	return &s
}

func stringReal(m *rfc5424.SyslogMessage, r *rand.Rand) (b bstr) {
	defer func() {
		if p := recover(); p != nil {
			b.panic = fmt.Sprint("String panic: ", p)
		}
	}()
	s, err := m.String()
	b.stable = true
	if err != nil {
		return
	}
	b.has, b.s = true, s
	for i := 0; i < 2; i++ {
		if s2, err := m.String(); err != nil || s2 != s {
			b.stable = false
		}
	}
	b.re = parse5424(rfc5424.NewParser(), []byte(s)).msg
	if m.Valid() {
		b.alt = rebuild(m, r)
	}
	return
}

func (m *bmodel) judgeString(x *exp5424, b bstr, valid bool) bool {
	ok := x.pri >= 0 && x.ver >= 1 && x.ver <= 999
	if b.has != ok || b.panic != "" || valid != ok {
		return true
	}
	if !ok {
		return false
	}
	y := m.t.run5424([]byte(b.s))
	if !y.acc || !sameExp(x, y) || b.re == nil || fieldDiffB(b.re, x) || !b.stable {
		return true
	}
	return b.alt != nil && *b.alt != b.s
}

func sameExp(a, b *exp5424) bool {
	if a.pri != b.pri || a.ver != b.ver || a.hasTs != b.hasTs || a.hasTs && a.ts != b.ts || nd(a.host) != nd(b.host) || nd(a.app) != nd(b.app) ||
		nd(a.proc) != nd(b.proc) || nd(a.msgid) != nd(b.msgid) || a.msg != b.msg {
		return false
	}
	if (a.sd == nil) != (b.sd == nil) {
		return false
	}
	return a.sd == nil || !sdDiff(&a.sd, b.sd)
}

func nd(s string) string {
	if s == "-" {
		return ""
	}
	return s
}

// fieldDiffB: fieldDiff5424 for a message that may lack a priority
func fieldDiffB(m *rfc5424.SyslogMessage, x *exp5424) bool {
	if x.pri < 0 {
		if m.Priority != nil || m.Facility != nil || m.Severity != nil {
			return true
		}
		c := *m
		p, f, s := uint8(0), uint8(0), uint8(0)
		c.Priority, c.Facility, c.Severity = &p, &f, &s
		y := *x
		y.pri = 0
		return fieldDiff5424(&c, &y)
	}
	return fieldDiff5424(m, x)
}

// ofReal: the recorded message as a message of the specification (to go on
// from what the implementation did)
func ofReal(m *rfc5424.SyslogMessage) *exp5424 {
	x := blank()
	if m.Priority != nil {
		x.pri = int(*m.Priority)
	}
	x.ver = int(m.Version)
	if m.Timestamp != nil {
		x.hasTs = true
		y, mo, d := m.Timestamp.Date()
		h, mi, s := m.Timestamp.Clock()
		_, off := m.Timestamp.Zone()
		x.ts = tsv{y, int(mo), d, h, mi, s, m.Timestamp.Nanosecond() / 1000, off / 60}
	}
	str := func(p *string) string {
		if p == nil {
			return ""
		}
		return *p
	}
	x.host, x.app, x.proc, x.msgid, x.msg = str(m.Hostname), str(m.Appname), str(m.ProcID), str(m.MsgID), str(m.Message)
	if m.StructuredData != nil {
		x.sd = map[string]map[string]string{}
		for k, v := range *m.StructuredData {
			e := map[string]string{}
			for a, b := range v {
				e[a] = b
			}
			x.sd[k] = e
		}
	}
	return x
}

const (
	bC12 = 1 << (iota + 8)
	bC13
	bC15
)

// history runs the operations on the real builder; withString: call String
// after every operation. Returns the clauses violated and, on request, the
// trace.
func (m *bmodel) history(init []byte, ops []bop, r *rand.Rand, every bool, rec bool) (bad int, tr J) {
	var b rfc5424.Builder
	x := blank()
	msg := &rfc5424.SyslogMessage{}
	ij := [][]int{}
	if init != nil {
		p := parse5424(rfc5424.NewParser(), init)
		if p.msg == nil || p.err != nil {
			return 0, nil
		}
		msg = p.msg
		x = m.t.run5424(init)
		if !x.acc || fieldDiff5424(msg, x) {
			return 0, nil // a matter of C01 and C02
		}
		x.host, x.app, x.proc, x.msgid = nd(x.host), nd(x.app), nd(x.proc), nd(x.msgid)
		ij = [][]int{bytesJ(string(init))}
	}
	b = msg
	steps := []J{}
	all := append([]bop{{op: "none"}}, ops...)
	for i, o := range all {
		pr := bC12
		switch o.op {
		case "none":
			pr = bC13
		case "element", "param":
			pr = bC15
		}
		var nb rfc5424.Builder
		var pan string
		watched(func() J { return J{"init": ij, "steps": []J{stepJ(o, &rfc5424.SyslogMessage{}, bstr{}, didNotReturn)}} }, func() { nb, pan = applyReal(b, o) })
		got, ok := nb.(*rfc5424.SyslogMessage)
		if !ok || got == nil {
			pan = "returned no message"
			got = msg
		}
		b, msg = got, got
		m.do(x, o)
		if pan != "" || fieldDiffB(msg, x) {
			bad |= pr
		}
		if every || i == len(all)-1 || pan != "" || bad != 0 {
			x2 := ofReal(msg)
			var s bstr
			watched(func() J { return J{"init": ij, "steps": []J{stepJ(bop{op: "none"}, msg, bstr{}, didNotReturn)}} }, func() { s = stringReal(msg, r) })
			if m.judgeString(x2, s, msg.Valid()) {
				bad |= bC13
			}
			if rec {
				steps = append(steps, stepJ(o, msg, s, pan))
			}
		} else if rec {
			fatal(fmt.Errorf("record needs every"))
		}
		x = ofReal(msg)
	}
	if rec {
		tr = J{"init": ij, "steps": steps}
	}
	return
}

func stepJ(o bop, m *rfc5424.SyslogMessage, s bstr, pan string) J {
	j := J{"op": o.json(), "post": msg5424J(m), "str": [][]int{}, "re": []J{}, "stable": s.stable, "alt": [][]int{}, "panic": pan + s.panic}
	if s.has {
		j["str"] = [][]int{bytesJ(s.s)}
	}
	if s.re != nil {
		j["re"] = []J{msg5424J(s.re)}
	}
	if s.alt != nil {
		j["alt"] = [][]int{bytesJ(*s.alt)}
	}
	return j
}

// ---- generation

// word: a random word of the field, sometimes broken
func (m *bmodel) word(r *rand.Rand, f string) string {
	d := m.e[f]
	switch r.Intn(14) {
	case 0:
		return "-"
	case 1:
		return ""
	case 2:
		return bytesStr(r, r.Intn(6))
	case 3:
		return [...]string{"--", "a b", "a]", `a"`, "a=", `\`, `\]`, `"`, "é", "-1", "~", "!", "\x7f", "\x00"}[r.Intn(14)]
	case 4:
		if r.Intn(2) == 0 {
			return words[r.Intn(len(words))]
		}
		return texts[r.Intn(len(texts))]
	}
	k := r.Intn(len(d.states))
	if r.Intn(3) > 0 && k > 8 && f != "timestamp" {
		k = r.Intn(9)
	}
	if r.Intn(8) == 0 {
		k = len(d.states) - 1
	}
	var w []byte
	i := d.from
	if f == "timestamp" {
		switch r.Intn(4) {
		case 0, 1:
			return ts3339(r, true)
		case 2:
			return edgeStamp(r)
		}
		k = 40
	}
	for n := 0; n < k; n++ {
		s := m.t.states[i]
		var cand []int
		for j := range s.classes {
			if d.phases[phaseOf(m.t.states[s.targets[j]].name)] {
				cand = append(cand, j)
			}
		}
		if len(cand) == 0 {
			break
		}
		j := cand[r.Intn(len(cand))]
		w = append(w, s.classes[j][r.Intn(len(s.classes[j]))])
		i = s.targets[j]
	}
	if f == "sdpv" && r.Intn(2) == 0 {
		return paramVal(r)
	}
	if r.Intn(5) == 0 {
		w = mutate(r, w)
	}
	return string(w)
}

// edgeFractions: the fractions of a second at which digits appear and vanish
var edgeFractions = []string{".9", ".99", ".999", ".9999", ".99999", ".999999", ".1", ".01", ".001", ".0001", ".00001", ".000001", ".0", ".000000", ".5", ".499999", ".500000", ".500001",
	".100000", ".010000", ".001000", ".000100", ".000010", ".999990", ".999900", ".999000", ".990000", ".900000", ".000999", ".999001", ".123456", ".654321", ".000500", ".000499", ".999500", ".999499", ""}

// edgeStamp: a valid timestamp near where a digit carries
func edgeStamp(r *rand.Rand) string {
	return [...]string{"2003-10-11T22:14:15", "1999-12-31T23:59:59", "2000-02-29T23:59:59", "2001-02-28T23:59:59", "0000-01-01T00:00:00", "9999-12-31T23:59:59", "1970-01-01T00:00:00", "2020-06-30T12:59:59", "2020-01-09T09:09:09"}[r.Intn(9)] +
		edgeFractions[r.Intn(len(edgeFractions))] + [...]string{"Z", "+00:00", "-00:00", "+00:01", "-00:01", "+23:59", "-23:59", "+14:00", "-12:00", "+05:30"}[r.Intn(10)]
}

var headerFields = []string{"timestamp", "hostname", "appname", "procid", "msgid"}

// resembling: something like what the field was set to before
func resembling(r *rand.Rand, f, v string) string {
	zone := strings.LastIndexAny(v, "Z+-")
	if f == "timestamp" && zone >= 19 {
		head, z := v[:19], v[zone:]
		switch r.Intn(6) {
		case 0:
			return head + edgeFractions[r.Intn(len(edgeFractions))] + z
		case 1:
			return head + z
		case 2:
			return head + edgeFractions[r.Intn(len(edgeFractions))] + [...]string{"Z", "+00:00", "-00:00", "+01:00", "-00:30", "+14:00"}[r.Intn(6)]
		case 3:
			return v[:zone] + [...]string{"Z", "+00:00", "+00:30", "-23:59"}[r.Intn(4)]
		case 4:
			return v[:17] + dig2(r, 0, 59) + v[19:]
		}
		return v[:11] + dig2(r, 0, 23) + v[13:]
	}
	switch r.Intn(6) {
	case 0:
		return v
	case 1:
		return v + "x"
	case 2:
		return strings.ToUpper(v)
	case 3:
		return strings.ToLower(v)
	case 4:
		if len(v) > 1 {
			return v[:len(v)-1]
		}
	}
	if len(v) > 0 {
		b := []byte(v)
		b[r.Intn(len(b))] ^= byte(1 + r.Intn(3))
		return string(b)
	}
	return v
}

func (m *bmodel) randOp(r *rand.Rand, ids, names *[]string, last map[string]string) bop {
	o := m.freshOp(r, ids, names)
	if v, ok := last[o.op]; ok && r.Intn(4) == 0 {
		o.v = resembling(r, o.op, v)
	}
	switch o.op {
	case "message", "timestamp", "hostname", "appname", "procid", "msgid":
		last[o.op] = o.v
	}
	return o
}

func (m *bmodel) freshOp(r *rand.Rand, ids, names *[]string) bop {
	pick := func(f string, pool *[]string) string {
		if len(*pool) > 0 && r.Intn(3) > 0 {
			return (*pool)[r.Intn(len(*pool))]
		}
		w := m.word(r, f)
		*pool = append(*pool, w)
		return w
	}
	switch r.Intn(12) {
	case 0:
		return bop{op: "priority", n: r.Intn(256)}
	case 1:
		if r.Intn(3) == 0 {
			return bop{op: "version", n: []int{0, 1, 9, 10, 99, 100, 998, 999, 1000, 1001, 9999, 65535}[r.Intn(12)]}
		}
		return bop{op: "version", n: 1 + r.Intn(999)}
	case 2, 3, 4:
		f := headerFields[r.Intn(5)]
		return bop{op: f, v: m.word(r, f)}
	case 5:
		v := msgPart(r)
		if len(v) > 0 && r.Intn(3) > 0 {
			v = v[1:]
		}
		return bop{op: "message", v: v}
	case 6, 7:
		return bop{op: "element", id: pick("sdid", ids)}
	}
	return bop{op: "param", id: pick("sdid", ids), name: pick("sdpn", names), v: m.word(r, "sdpv")}
}

type bcand struct {
	init []byte
	ops  []bop
	seed int64
}

func tbuilder(args map[string]string) {
	t := loadTables(args["table"], acts5424)["plain"]
	errText5424 = loadErrTexts(args["table"])
	m := loadBuilder(args["entries"], t)
	bit := map[string]int{"C12": bC12, "C13": bC13, "C15": bC15}[args["prop"]]
	startWatch(args)
	seed := int64(atoi(args["seed"]))
	dl := time.Now().Add(time.Duration(atoi(args["secs"])) * time.Second)
	var mu sync.Mutex
	var cands []bcand
	hist, calls, mism, edges := 0, 0, 0, 0
	check := func(init []byte, ops []bop, r *rand.Rand, every bool) {
		s := r.Int63()
		bad, _ := m.history(init, ops, rand.New(rand.NewSource(s)), every, false)
		mu.Lock()
		hist++
		calls += len(ops)
		if bad&bit != 0 {
			mism++
			if len(cands) < 4000 {
				cands = append(cands, bcand{init, ops, s})
			}
		}
		mu.Unlock()
	}
	ready := []bop{{op: "priority", n: 34}, {op: "version", n: 1}}
	// every byte after every state of every field
	fields := []string{}
	for f := range m.e {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	opFor := func(f, v string) []bop {
		switch f {
		case "sdid":
			return append(append([]bop{}, ready...), bop{op: "param", id: v, name: "n", v: "x"}, bop{op: "element", id: v})
		case "sdpn":
			return append(append([]bop{}, ready...), bop{op: "param", id: "i", name: v, v: "x"})
		case "sdpv":
			return append(append([]bop{}, ready...), bop{op: "param", id: "i", name: "n", v: v}, bop{op: "param", id: "i", name: "o", v: "y"})
		}
		return append(append([]bop{}, ready...), bop{op: f, v: v})
	}
	full := []byte(`<165>3 2019-12-31T23:59:60.123456+05:30 host app proc id [i n="1" o="2"][j] text`)
	if !t.run5424(full).acc {
		full = []byte(`<165>3 2019-12-31T23:59:59.123456+05:30 host app proc id [i n="1" o="2"][j] text`)
	}
	for _, f := range fields {
		d := m.e[f]
		pool(len(d.states)*257, seed, dl, func(i int, r *rand.Rand) {
			w := d.access[i/257]
			if i%257 == 256 {
				check(nil, opFor(f, string(w)), r, false)
				return
			}
			b := byte(i % 257)
			v := append(append([]byte{}, w...), b)
			check(nil, opFor(f, string(v)), r, false)
			check(full, opFor(f, string(v)), r, false) // every field is set already
			mu.Lock()
			edges++
			mu.Unlock()
			// continue to an accepting state of the field, also when the
			// byte is not allowed (it must then still be noticed)
			to := t.states[d.states[i/257]].edges[b].to
			if !d.phases[phaseOf(t.states[to].name)] {
				to = d.states[i/257]
			}
			check(nil, opFor(f, string(append(v, m.complete(d, to)...))), r, false)
		})
	}
	// every priority and every version
	for p := 0; p < 256; p++ {
		check(nil, []bop{{op: "version", n: 1}, {op: "priority", n: p}}, rand.New(rand.NewSource(1)), true)
		check(nil, []bop{{op: "version", n: 1}, {op: "priority", n: 13}, {op: "priority", n: p}}, rand.New(rand.NewSource(1)), true)
	}
	pool(65536, seed, dl, func(v int, r *rand.Rand) {
		check(nil, []bop{{op: "priority", n: 1}, {op: "version", n: 7}, {op: "version", n: v}}, r, false)
	})
	// every pair of bytes as a parameter value, every byte in a message
	pool(65536, seed, dl, func(v int, r *rand.Rand) {
		check(nil, opFor("sdpv", string([]byte{byte(v >> 8), byte(v)})), r, false)
		check(nil, append(append([]bop{}, ready...), bop{op: "message", v: string([]byte{byte(v >> 8), byte(v)})}), r, false)
	})
	// every length of every value, and long histories
	type bh struct {
		init []byte
		ops  []bop
	}
	var scale []bh
	ts := "2003-10-11T22:14:15.003-07:00"
	for _, n := range scaleSizes() {
		x := strings.Repeat("x", n)
		add := func(o ...bop) { scale = append(scale, bh{nil, append(append([]bop{}, ready...), o...)}) }
		if n <= 600 {
			for _, f := range fields {
				if f != "timestamp" {
					add(opFor(f, x)[2:]...)
				}
			}
			add(bop{op: "timestamp", v: ts + x})
		}
		if n > 5000 && n%1024 != 1 {
			continue
		}
		for _, v := range []string{x, x + `\\]`, `\"` + x + `\\`, x + `]`, x + `\`, x + "\xff", x + "\u00e9" + x, x + `\]` + x} {
			if n > 5000 && len(v) > n && v[n:] != `]` {
				continue
			}
			add(opFor("sdpv", v)...)
		}
		add(bop{op: "message", v: x}, bop{op: "message", v: x + "\n"})
		for _, e := range []string{"\xef\xbb\xbf", " ", "\n", "\x00", "-", `"`, "[", "\xff", "\u00e9"} {
			// what stands at both ends of a message, or at one
			add(bop{op: "message", v: e + x}, bop{op: "message", v: x + e}, bop{op: "message", v: e + x + e})
			if n <= 200 {
				add(bop{op: "message", v: e + x})
				add(bop{op: "message", v: x + e})
			}
		}
		if n > 1500 {
			continue
		}
		add(opFor("sdpv", strings.Repeat(`\"`, n))...)
		add(opFor("sdpv", strings.Repeat(`q\\`, n)+"e")...)
		if n > 70 && n != 127 && n != 128 && n != 129 && n != 255 && n != 256 && n != 257 && n != 300 {
			continue
		}
		var a, b, d []bop
		for i := 0; i < n; i++ {
			a = append(a, bop{op: "element", id: fmt.Sprintf("e%d", (i*7)%(n+1))})
			b = append(b, bop{op: "param", id: "i", name: fmt.Sprintf("p%d", (i*7)%(n+1)), v: fmt.Sprintf(`v\\%d`, i)})
			d = append(d, bop{op: "param", id: fmt.Sprintf("e%d", i%(n/2+1)), name: fmt.Sprintf("p%d", i%3), v: fmt.Sprint(i)})
			d = append(d, bop{op: "hostname", v: fmt.Sprintf("h%d", i)}, bop{op: "priority", n: i % 200}, bop{op: "version", n: i})
		}
		again := []bop{{op: "element", id: "e1"}, {op: "param", id: "i", name: "p1", v: "again"}, {op: "param", id: "e1", name: "z", v: "]"}, {op: "element", id: "n w"}}
		add(append(a, again...)...)
		add(append(b, again...)...)
		add(append(d, again...)...)
		scale = append(scale, bh{[]byte("<1>1 - - - - - [e1 p1=\"\\\"\"][i p1=\"1\"] m"), append(b, a...)})
	}
	// values that resemble what the message holds already
	for n := 1; n <= 34; n++ {
		u := ("abcdefghijklmnopqrstuvwxyz0123456789")[:n]
		if n%2 == 0 {
			u = strings.Repeat("k", n)
		}
		for _, v := range like(u) {
			on := func(o ...bop) { scale = append(scale, bh{nil, append(append([]bop{}, ready...), o...)}) }
			on(bop{op: "param", id: u, name: "n", v: "1"}, bop{op: "param", id: v, name: "n", v: "2"}, bop{op: "param", id: v, name: "o", v: "3"})
			on(bop{op: "element", id: v}, bop{op: "param", id: u, name: "n", v: "1"}, bop{op: "element", id: u}, bop{op: "param", id: v, name: "o", v: "2"})
			on(bop{op: "element", id: "z"}, bop{op: "element", id: u}, bop{op: "param", id: v, name: "n", v: "1"}, bop{op: "element", id: v})
			on(bop{op: "param", id: "i", name: u, v: "1"}, bop{op: "param", id: "i", name: v, v: "2"}, bop{op: "param", id: "j", name: v, v: "3"}, bop{op: "param", id: "i", name: v, v: "4"})
			on(bop{op: "param", id: u, name: v, v: u}, bop{op: "param", id: v, name: u, v: v}, bop{op: "param", id: u, name: u, v: v})
			for _, f := range []string{"hostname", "appname", "procid", "msgid", "message"} {
				on(bop{op: f, v: u}, bop{op: f, v: v})
			}
		}
	}
	for i, f := range []string{"hostname", "appname", "procid", "msgid", "message"} {
		for j, g := range []string{"hostname", "appname", "procid", "msgid", "message"} {
			for _, v := range []string{"", "-", "same", "a b", "\x80"} {
				scale = append(scale, bh{nil, []bop{{op: f, v: "same"}, {op: g, v: v}, {op: f, v: v}, {op: "priority", n: i}, {op: "version", n: 1 + j}}},
					bh{full, []bop{{op: f, v: "same"}, {op: g, v: v}, {op: f, v: v}}})
			}
		}
	}
	// timestamps near where a digit carries
	for _, fr := range edgeFractions {
		for _, d := range []string{"2003-10-11T22:14:15", "1999-12-31T23:59:59", "2000-02-29T23:59:59", "0000-01-01T00:00:00"} {
			for _, z := range []string{"Z", "+00:00", "-00:01", "+23:59", "-23:59"} {
				scale = append(scale, bh{nil, append(append([]bop{}, ready...), bop{op: "timestamp", v: d + fr + z})})
			}
		}
	}
	// one timestamp after another that resembles it
	near := []string{}
	for _, fr := range edgeFractions {
		near = append(near, "2003-10-11T22:14:15"+fr+"Z")
	}
	near = append(near, "2003-10-11T22:14:15+00:00", "2003-10-11T22:14:15-00:00", "2003-10-11T22:14:15+01:00", "2003-10-11T23:14:15+01:00", "2003-10-11T22:14:16Z", "2003-10-11T22:15:15Z", "2003-10-11T23:14:15Z",
		"2003-10-12T22:14:15Z", "2003-11-11T22:14:15Z", "2004-10-11T22:14:15Z", "2003-10-11T22:14:15.0000001Z", "2003-10-11T22:14:15", "-", "")
	for _, a := range near {
		for _, b := range near {
			scale = append(scale, bh{nil, append(append([]bop{}, ready...), bop{op: "timestamp", v: a}, bop{op: "timestamp", v: b})})
		}
	}
	pool(len(scale), seed, dl, func(i int, r *rand.Rand) { check(scale[i].init, scale[i].ops, r, false) })
	nEdge := hist
	// round trip of parsed messages, then further operations
	gen := func(r *rand.Rand) ([]byte, []bop) {
		var init []byte
		var ops, ids, names = []bop{}, []string{}, []string{}
		if r.Intn(3) == 0 {
			init = gen5424(r)
			if !t.run5424(init).acc {
				init = nil
			}
		}
		if init == nil && r.Intn(4) > 0 {
			ops = append(ops, bop{op: "priority", n: r.Intn(192)}, bop{op: "version", n: 1 + r.Intn(999)})
		}
		if init != nil {
			x := t.run5424(init)
			for id, ps := range x.sd {
				ids = append(ids, id)
				for n := range ps {
					names = append(names, n)
				}
			}
			sort.Strings(ids)
			sort.Strings(names)
		}
		last := map[string]string{}
		if init != nil && string(init) == string(full) {
			last["timestamp"], last["hostname"], last["appname"], last["procid"], last["msgid"], last["message"] = "2019-12-31T23:59:59.123456+05:30", "host", "app", "proc", "id", "text"
		}
		n := 1 + r.Intn(10)
		if r.Intn(20) == 0 {
			n = 10 + r.Intn(30)
		}
		sdOnly := r.Intn(3) == 0
		for len(ops) < n {
			o := m.randOp(r, &ids, &names, last)
			if sdOnly && o.op != "element" && o.op != "param" {
				continue
			}
			ops = append(ops, o)
		}
		return init, ops
	}
	pool(atoi(args["random"]), seed, dl, func(i int, r *rand.Rand) {
		init, ops := gen(r)
		check(init, ops, r, r.Intn(4) == 0)
	})
	// traces
	out := newNdj(args["out"])
	sort.SliceStable(cands, func(a, b int) bool { return opsSize(cands[a]) < opsSize(cands[b]) })
	total := 0
	for i, c := range cands {
		if i >= 60 || i > 0 && total+opsSize(c) > 200000 {
			break
		}
		total += opsSize(c)
		// again, for the record; what depends on the order of a map may need
		// several attempts to show
		var tr J
		for n := 0; n < 30; n++ {
			bad, tr2 := m.history(c.init, c.ops, rand.New(rand.NewSource(c.seed+int64(n))), true, true)
			if tr2 != nil {
				tr = tr2
			}
			if bad&bit != 0 {
				break
			}
		}
		if tr != nil {
			out.add(tr)
		}
	}
	nc := out.n
	r := rand.New(rand.NewSource(seed + 99))
	var samples []string
	for i := 0; i < atoi(args["sample"]); {
		init, ops := gen(r)
		c := bcand{init, ops, 1}
		if opsSize(c) > 900 {
			continue
		}
		_, tr := m.history(init, ops, r, true, true)
		if tr == nil {
			continue
		}
		out.add(tr)
		i++
		if len(samples) < 3 {
			samples = append(samples, fmt.Sprintf("init %q ops %+v", init, ops))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"histories": hist, "calls": calls, "field_edges": edges, "edge_histories": nEdge, "mismatches": mism, "candidates": nc,
		"traces": out.n, "samples": samples})
}

// like: values that resemble u
func like(u string) []string {
	n := len(u)
	o := []string{u, u[1:], u[:n-1], u + "x", u + u, "x" + u, u + "-", u + " ", " " + u, u + "=", strings.ToUpper(u), "-", "", u + "\x00", u + "\u00e9", u[:n/2] + "X" + u[n/2:], u[:n/2] + u[(n+1)/2:]}
	for k := 1; k <= 3 && k < n; k++ {
		o = append(o, u[:k], u[n-k:], u+u[:k])
	}
	return append(o, u+strings.Repeat("y", 32), u+strings.Repeat("y", 33-n%33))
}

// scaleSizes: every length up to a thousand, and sizes around powers of two
func scaleSizes() (o []int) {
	for n := 0; n <= 1100; n++ {
		o = append(o, n)
	}
	for _, p := range []int{2048, 4096, 8192, 16384, 32768, 65536} {
		o = append(o, p-1, p, p+1)
	}
	return append(o, 10000, 70000, 100000, 131073)
}

func opsSize(c bcand) int {
	n := len(c.init)
	for _, o := range c.ops {
		n += 4 + len(o.v) + len(o.id) + len(o.name)
	}
	return n
}

// complete: a shortest word from state i of the field to one where the
// field may end
func (m *bmodel) complete(d *entryDef, i int) []byte {
	type node struct {
		s int
		w []byte
	}
	q := []node{{i, nil}}
	seen := map[int]bool{i: true}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		s := m.t.states[n.s]
		e := m.t.states[s.edges[d.end].to]
		if e.fail == "" && !d.phases[phaseOf(e.name)] {
			return n.w
		}
		for k, bs := range s.classes {
			to := s.targets[k]
			if !seen[to] && d.phases[phaseOf(m.t.states[to].name)] {
				seen[to] = true
				q = append(q, node{to, append(append([]byte{}, n.w...), pickNice(bs))})
			}
		}
	}
	return nil
}
