package main

// Objects under test (parsers, machines, stream parsers, builders) seen as
// functions from an input to a fingerprint of the outcome, see
// ParserObject.tla and TraceObject.tla.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// answer is what one call gave: a fingerprint of everything visible in it,
// taken at once, the way to take it again, and the way to overwrite what the
// caller owns of it.
type answer struct {
	out   string
	again func() string
	spoil func()
}

type ocfg struct {
	name string
	fam  string // 5424, 3164, octet, nt, builder
	safe bool   // may be shared between goroutines
	mk   func() func(in []byte) answer
}

// fpAny: fingerprint of a message of either format
func fpAny(m syslog.Message) string {
	x, ok := m.(*rfc3164.SyslogMessage)
	if !ok {
		return fpMessage(m)
	}
	if x == nil {
		return "typed nil"
	}
	var b strings.Builder
	p8 := func(p *uint8) {
		if p != nil {
			b.WriteString(strconv.Itoa(int(*p)))
		}
		b.WriteByte(';')
	}
	ps := func(p *string) {
		if p != nil {
			b.WriteString(strconv.Quote(*p))
		}
		b.WriteByte(';')
	}
	p8(x.Priority)
	p8(x.Facility)
	p8(x.Severity)
	if x.Timestamp != nil {
		_, off := x.Timestamp.Zone()
		b.WriteString(strconv.Itoa(x.Timestamp.Nanosecond()) + "/" + strconv.FormatInt(x.Timestamp.Unix(), 10) + "@" + strconv.Itoa(off))
	}
	b.WriteByte(';')
	ps(x.Hostname)
	ps(x.Appname)
	ps(x.ProcID)
	ps(x.MsgID)
	ps(x.Message)
	if !x.Valid() {
		b.WriteString("invalid")
	}
	return b.String()
}

func clip(s string) string {
	if len(s) <= 600 {
		return s
	}
	return s[:200] + "..." + shortFp(s)
}

// spoilMsg overwrites all a caller can reach of a message it was given
func spoilMsg(m syslog.Message) {
	s8 := func(p *uint8) {
		if p != nil {
			*p ^= 0x55
		}
	}
	ss := func(p *string) {
		if p != nil {
			*p = "spoilt"
		}
	}
	base := func(b *syslog.Base) {
		s8(b.Priority)
		s8(b.Facility)
		s8(b.Severity)
		if b.Timestamp != nil {
			*b.Timestamp = time.Unix(1, 1)
		}
		ss(b.Hostname)
		ss(b.Appname)
		ss(b.ProcID)
		ss(b.MsgID)
		ss(b.Message)
	}
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		if x == nil {
			return
		}
		if x.StructuredData != nil {
			for _, el := range *x.StructuredData {
				for n := range el {
					el[n] = "spoilt"
				}
				el["spoilt"] = "spoilt"
			}
			(*x.StructuredData)["spoilt"] = map[string]string{}
		}
		base(&x.Base)
		x.Version = 77
	case *rfc3164.SyslogMessage:
		if x == nil {
			return
		}
		base(&x.Base)
	}
}

func machineCall(m syslog.Machine) func(in []byte) answer {
	return func(in []byte) (a answer) {
		defer func() {
			if p := recover(); p != nil {
				s := clip("panic: " + fmt.Sprint(p))
				a = answer{out: s, again: func() string { return s }, spoil: func() {}}
			}
		}()
		msg, err := m.Parse(in)
		f := func() string {
			return clip(fpAny(msg) + " / " + escErr(err) + " / " + strconv.FormatBool(m.HasBestEffort()))
		}
		return answer{out: f(), again: f, spoil: func() { spoilMsg(msg) }}
	}
}

func streamCall(mk func(l syslog.ParserListener) syslog.Parser, one bool) func() func(in []byte) answer {
	return func() func(in []byte) answer {
		var res []*syslog.Result
		p := mk(func(r *syslog.Result) { res = append(res, r) })
		return func(in []byte) answer {
			res = nil
			pan := ""
			func() {
				defer func() {
					if p := recover(); p != nil {
						pan = "panic: " + fmt.Sprint(p)
					}
				}()
				var rd io.Reader = bytes.NewReader(in)
				if one {
					rd = iotest.OneByteReader(rd)
				}
				p.Parse(rd)
			}()
			mine := res
			f := func() string {
				var b strings.Builder
				for _, r := range mine {
					b.WriteString(fpAny(r.Message) + " / " + escErr(r.Error) + "\n")
				}
				return clip(b.String() + pan)
			}
			return answer{out: f(), again: f, spoil: func() {
				for _, r := range mine {
					spoilMsg(r.Message)
				}
			}}
		}
	}
}

// sop is a serialisable builder operation
type sop struct {
	Op          string
	N           int
	V, ID, Name []byte
}

func packOps(init []byte, ops []bop) []byte {
	var l []sop
	if init != nil {
		l = append(l, sop{Op: "parse", V: init})
	}
	for _, o := range ops {
		l = append(l, sop{o.op, o.n, []byte(o.v), []byte(o.id), []byte(o.name)})
	}
	b, err := json.Marshal(l)
	fatal(err)
	return b
}

// builtBy: the message a history makes
func builtBy(in []byte) *rfc5424.SyslogMessage {
	var ops []sop
	fatal(json.Unmarshal(in, &ops))
	m := &rfc5424.SyslogMessage{}
	var b rfc5424.Builder = m
	for _, o := range ops {
		if o.Op == "parse" {
			if x, _ := rfc5424.NewMachine().Parse(o.V); x != nil {
				m = x.(*rfc5424.SyslogMessage)
				b = m
			}
			continue
		}
		b, _ = applyReal(b, bop{o.Op, o.N, string(o.V), string(o.ID), string(o.Name)})
	}
	return m
}

// builderCall: the input is a history of operations on a message of its own
func builderCall() func(in []byte) answer {
	return func(in []byte) (a answer) {
		var ops []sop
		fatal(json.Unmarshal(in, &ops))
		var bad []string
		m := &rfc5424.SyslogMessage{}
		var b rfc5424.Builder = m
		for _, o := range ops {
			if o.Op == "parse" {
				if x, _ := rfc5424.NewMachine().Parse(o.V); x != nil {
					m = x.(*rfc5424.SyslogMessage)
					b = m
				}
				continue
			}
			var pan string
			b, pan = applyReal(b, bop{o.Op, o.N, string(o.V), string(o.ID), string(o.Name)})
			if pan != "" {
				bad = append(bad, pan)
			}
		}
		f := func() (s string) {
			defer func() {
				if p := recover(); p != nil {
					s = "panic: " + fmt.Sprint(p)
				}
			}()
			t, err := m.String()
			s = fpMessage(m) + " / " + escErr(err) + " / " + strings.Join(bad, ",")
			if err == nil {
				// the order of elements and parameters in the text is free
				x, err := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse([]byte(t))
				s += " / " + fpMessage(x) + " / " + escErr(err) + " / " + letters(t)
			}
			return clip(s)
		}
		return answer{out: f(), again: f, spoil: func() { spoilMsg(m) }}
	}
}

// readingCall: the object is a set of messages, one for each input, that are
// made once and then only read: every accessor, Valid, String and the fields
func readingCall(mk func(in []byte) syslog.Message) func() func(in []byte) answer {
	return func() func(in []byte) answer {
		var msgs sync.Map
		return func(in []byte) answer {
			v, ok := msgs.Load(string(in))
			if !ok {
				v, _ = msgs.LoadOrStore(string(in), &holder{mk(in)})
			}
			m := v.(*holder).m
			f := func() (s string) {
				defer func() {
					if p := recover(); p != nil {
						s = "panic: " + fmt.Sprint(p)
					}
				}()
				return clip(askAll(m))
			}
			return answer{out: f(), again: f, spoil: func() {}}
		}
	}
}

type holder struct{ m syslog.Message }

func askAll(m syslog.Message) string {
	if m == nil {
		return "nil"
	}
	var b strings.Builder
	for _, f := range []func() *string{m.FacilityMessage, m.FacilityLevel, m.SeverityMessage, m.SeverityLevel, m.SeverityShortLevel} {
		if p := f(); p != nil {
			b.WriteString(strconv.Quote(*p))
		}
		b.WriteByte(';')
	}
	b.WriteString(strconv.FormatBool(m.Valid()) + ";" + fpAny(m))
	if x, ok := m.(*rfc5424.SyslogMessage); ok {
		t, err := x.String()
		b.WriteString(" / " + letters(t) + " / " + escErr(err))
	}
	return b.String()
}

// letters: how often each byte occurs
func letters(s string) string {
	var n [256]int
	for i := 0; i < len(s); i++ {
		n[s[i]]++
	}
	var b strings.Builder
	for c, k := range n {
		if k > 0 {
			fmt.Fprintf(&b, "%d:%d ", c, k)
		}
	}
	return b.String()
}

var objOpts3164 = []opt3164{
	{},
	{rfc: true},
	{hasYear: true, year: 2020},
	{hasYear: true, year: 2021, zone: time.FixedZone("X", 19800)},
	{rfc: true, locale: time.FixedZone("Y", -3600), order: 2},
	{rfc: true, hasYear: true, year: 1999, locale: time.FixedZone("Z", 7200), zone: time.FixedZone("W", -12600), order: 1},
}

// objects lists every kind of object
func objects() (cs []ocfg) {
	kind := []string{"machine", "machine-be", "parser", "parser-be"}
	for k := range kind {
		k := k
		for _, cmp := range []bool{false, true} {
			cmp := cmp
			n := "5424/" + kind[k]
			if cmp {
				n += "/compliant"
			}
			cs = append(cs, ocfg{n, "5424", k >= cfgPS, func() func([]byte) answer { return machineCall(mach5424(k, cmp)) }})
		}
		for i, o := range objOpts3164 {
			o := o
			cs = append(cs, ocfg{fmt.Sprintf("3164/%s/%d:%s", kind[k], i, strings.Join(o.names(), ",")), "3164", k >= cfgPS,
				func() func([]byte) answer { return machineCall(mach3164(k, o)) }})
		}
	}
	// best effort switched on after use
	for _, pars := range []bool{false, true} {
		pars := pars
		n := "machine"
		if pars {
			n = "parser"
		}
		cs = append(cs, ocfg{"5424/" + n + "-switched", "5424", pars, func() func([]byte) answer {
			m := mach5424(map[bool]int{false: cfgMS, true: cfgPS}[pars], false)
			parse5424(m, []byte(`<34>1 2003-10-11T22:14:15.003Z h a p m [i n="v\]"`))
			m.WithBestEffort()
			return machineCall(m)
		}}, ocfg{"3164/" + n + "-switched", "3164", pars, func() func([]byte) answer {
			m := mach3164(map[bool]int{false: cfgMS, true: cfgPS}[pars], opt3164{})
			parse3164(m, []byte(`<34>Oct 11 22:14:15 h t[x`))
			m.WithBestEffort()
			return machineCall(m)
		}})
	}
	for _, be := range []bool{false, true} {
		for _, one := range []bool{false, true} {
			n := map[bool]string{true: "-be"}[be] + map[bool]string{true: "/onebyte"}[one]
			var os []syslog.ParserOption
			if be {
				os = append(os, syslog.WithBestEffort())
			}
			oct := func(more ...syslog.ParserOption) func(l syslog.ParserListener) syslog.Parser {
				return func(l syslog.ParserListener) syslog.Parser {
					return octetcounting.NewParser(append(append([]syslog.ParserOption{syslog.WithListener(l)}, os...), more...)...)
				}
			}
			nt := func(t nontransparent.TrailerType) func(l syslog.ParserListener) syslog.Parser {
				return func(l syslog.ParserListener) syslog.Parser {
					return nontransparent.NewParser(append([]syslog.ParserOption{syslog.WithListener(l), nontransparent.WithTrailer(t)}, os...)...)
				}
			}
			cs = append(cs, ocfg{"octet" + n, "octet", false, streamCall(oct(), one)},
				ocfg{"octet-max60" + n, "octet", false, streamCall(oct(syslog.WithMaxMessageLength(60)), one)},
				ocfg{"lf" + n, "nt", false, streamCall(nt(nontransparent.LF), one)},
				ocfg{"nul" + n, "nt", false, streamCall(nt(nontransparent.NUL), one)})
		}
	}
	cs = append(cs, ocfg{"builder", "builder", false, builderCall})
	// messages that are only read
	parsed := func(m syslog.Machine, in []byte) syslog.Message { x, _ := m.Parse(in); return x }
	cs = append(cs, ocfg{"reading/5424", "r5424", true, readingCall(func(in []byte) syslog.Message { return parsed(mach5424(cfgMB, false), in) })},
		ocfg{"reading/3164", "r3164", true, readingCall(func(in []byte) syslog.Message { return parsed(mach3164(cfgMB, opt3164{rfc: true}), in) })},
		ocfg{"reading/builder", "rbuilder", true, readingCall(func(in []byte) syslog.Message { return builtBy(in) })})
	sort.Slice(cs, func(i, j int) bool { return cs[i].name < cs[j].name })
	return
}
