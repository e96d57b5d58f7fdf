package main

// Stream parsers: the framing automata of OctetCounting.tla and
// NonTransparent.tla (exported control tables, register semantics of Do and
// Delivered), the recorder for the real stream parsers and their readers,
// and the comparison clauses of TraceStream.tla (TLC has the last word).

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

type sedge struct {
	to   string
	acts []string
}
type srow [2][257]sedge // by guard

type smodel map[string]map[string]*srow // fmt -> ctl -> row

func loadStream(path string) smodel {
	f, err := os.Open(path)
	fatal(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	m := smodel{}
	for sc.Scan() {
		if !strings.HasPrefix(sc.Text(), `"ROW `) {
			continue
		}
		var s string
		fatal(json.Unmarshal(sc.Bytes(), &s))
		var r struct {
			Fmt, Ctl string
			G        bool
			Cls      []struct {
				To    string
				Acts  []string
				Bytes []int
			}
		}
		fatal(json.Unmarshal([]byte(s[4:]), &r))
		if m[r.Fmt] == nil {
			m[r.Fmt] = map[string]*srow{}
		}
		row := m[r.Fmt][r.Ctl]
		if row == nil {
			row = &srow{}
			m[r.Fmt][r.Ctl] = row
		}
		n := 0
		for _, c := range r.Cls {
			for _, b := range c.Bytes {
				e := sedge{c.To, c.Acts}
				if r.Fmt == "octet" {
					g := 0
					if r.G {
						g = 1
					}
					row[g][b] = e
				} else {
					row[0][b], row[1][b] = e, e
				}
				n++
			}
		}
		if n != 257 {
			fatal(fmt.Errorf("row %s/%s has %d entries", r.Fmt, r.Ctl, n))
		}
	}
	if len(m) != 3 {
		fatal(fmt.Errorf("no rows in %s", path))
	}
	return m
}

// sconf is a configuration of a stream parser.
type sconf struct {
	fmt    string
	be     bool
	max    int  // octet counting
	setMax bool // WithMaxMessageLength given
}

func (c sconf) limit() int {
	if !c.setMax {
		return 8192
	}
	return c.max
}

type emission struct {
	k   string
	in  []byte
	txt string
	at  int
	due int // bytes read that settle it whatever follows, -1: only the end does
}

func escByte(b byte) string {
	if b >= 32 && b <= 126 && b != '\\' {
		return string(rune(b))
	}
	return fmt.Sprintf("\\x%02x", b)
}
func esc(s []byte) string {
	var b strings.Builder
	for _, c := range s {
		b.WriteString(escByte(c))
	}
	return b.String()
}

func tooLong(lit []byte, max int) bool {
	if max < 0 {
		return true
	}
	m := strconv.Itoa(max)
	return len(lit) > len(m) || len(lit) == len(m) && string(lit) > m
}

// emissions runs the framing automaton over a whole stream.
func (m smodel) emissions(c sconf, s []byte) (out []emission) {
	rows := m[c.fmt]
	ctl := "first"
	if c.fmt != "octet" {
		ctl = "head"
	}
	var lit, buf, cand []byte
	n := 0
	for i := 0; i <= len(s); i++ {
		if ctl == "end" {
			break
		}
		b := 256
		at := i
		if i < len(s) {
			b = int(s[i])
			at = i + 1
		}
		g := 0
		if c.fmt == "octet" {
			switch ctl {
			case "digits":
				if tooLong(lit, c.limit()) {
					g = 1
				}
			case "start", "message":
				if len(buf)+1 == n {
					g = 1
				}
			}
		}
		e := rows[ctl][g][b]
		tok := "EOF"
		if b == 32 {
			tok = "WS"
		} else if b < 256 {
			tok = "ILLEGAL(" + escByte(byte(b)) + ")"
		}
		was := len(out)
		for _, a := range e.acts {
			switch a {
			case "lit+":
				lit = append(lit, byte(b))
			case "len!":
				n = 2000000000
				if len(lit) <= 9 {
					n, _ = strconv.Atoi(string(lit))
				}
			case "buf+", "cur+":
				buf = append(buf, byte(b))
			case "msg!":
				out = append(out, emission{"parse", append([]byte{}, buf...), "", at, 0})
				buf, lit, n = nil, nil, 0
			case "nolen":
				out = append(out, emission{"frame", nil, "found " + tok + ", expecting a MSGLEN", at, 0})
			case "nows":
				out = append(out, emission{"frame", nil, "found " + tok + ", expecting a WS", at, 0})
			case "toolong":
				out = append(out, emission{"toolong", nil, "message too long to parse. was size " + string(lit) + ", max length " + strconv.Itoa(c.limit()), at, 0})
			case "nomsg":
				in := buf
				if ctl == "start" {
					in = nil
					if b < 256 {
						in = []byte{byte(b)}
					}
				}
				if ctl == "junk" {
					tok = "MSGLEN(" + esc(buf) + ")"
				}
				txt := "found " + tok + " after \"" + esc(in) + "\", expecting a SYSLOGMSG containing " + string(lit) + " octets"
				if len(in) < n {
					out = append(out, emission{"tail", in, txt, at, 0})
				} else {
					out = append(out, emission{"frame", nil, txt, at, 0})
				}
			case "keep":
				cand = append(cand, buf...)
				buf = nil
			case "drop":
				buf = nil
			case "frame!":
				if len(cand) > 0 {
					out = append(out, emission{"parse", append([]byte{}, cand[:len(cand)-1]...), "", at, 0})
					cand = nil
				}
			case "tail!":
				out = append(out, emission{"tail", append([]byte{}, buf...), "", at, 0})
				buf = nil
			default:
				fatal(fmt.Errorf("unknown action %q", a))
			}
		}
		for k := was; k < len(out); k++ {
			out[k].due = c.due(s, at, b == 256)
		}
		ctl = e.to
	}
	return out
}

// due: octet counting settles a result at its last byte, non-transparent
// framing at the end of the line that follows the frame
func (c sconf) due(s []byte, at int, end bool) int {
	if end {
		return -1
	}
	if c.fmt == "octet" {
		return at
	}
	tr := byte(10)
	if c.fmt == "nul" {
		tr = 0
	}
	if k := bytes.IndexByte(s[at:], tr); k >= 0 {
		return at + k + 1
	}
	return -1
}

// outcome of a parse or a delivered result: fingerprint of the message and
// escaped error text
type outc struct{ msg, err string }

func fpMessage(m syslog.Message) string {
	if m == nil {
		return ""
	}
	x, ok := m.(*rfc5424.SyslogMessage)
	if !ok {
		return fmt.Sprintf("%T", m)
	}
	if x == nil {
		return "typed nil"
	}
	var b strings.Builder
	p8 := func(p *uint8) {
		if p != nil {
			b.WriteString(strconv.Itoa(int(*p)))
		}
		b.WriteByte(';')
	}
	ps := func(p *string) {
		if p != nil {
			b.WriteString(strconv.Quote(*p))
		}
		b.WriteByte(';')
	}
	p8(x.Priority)
	p8(x.Facility)
	p8(x.Severity)
	b.WriteString(strconv.Itoa(int(x.Version)))
	b.WriteByte(';')
	if x.Timestamp != nil {
		_, off := x.Timestamp.Zone()
		b.WriteString(strconv.FormatInt(x.Timestamp.UnixNano(), 10) + "/" + strconv.FormatInt(x.Timestamp.Unix(), 10) + "@" + strconv.Itoa(off))
	}
	b.WriteByte(';')
	ps(x.Hostname)
	ps(x.Appname)
	ps(x.ProcID)
	ps(x.MsgID)
	if x.StructuredData != nil {
		b.WriteByte('{')
		for _, id := range sortedKeys2(*x.StructuredData) {
			b.WriteString(strconv.Quote(id) + "[")
			el := (*x.StructuredData)[id]
			ns := []string{}
			for n := range el {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				b.WriteString(strconv.Quote(n) + "=" + strconv.Quote(el[n]) + ",")
			}
			b.WriteByte(']')
		}
		b.WriteByte('}')
	}
	b.WriteByte(';')
	ps(x.Message)
	if !x.Valid() {
		b.WriteString("invalid")
	}
	return b.String()
}

func sortedKeys2(m map[string]map[string]string) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func shortFp(s string) string {
	if s == "" {
		return ""
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%016x", h.Sum64())
}

func escErr(e error) string {
	if e == nil {
		return ""
	}
	t := esc([]byte(e.Error()))
	if t == "" {
		t = "(empty)"
	}
	return t
}

func alone(in []byte, be bool) (o outc) {
	defer func() {
		if p := recover(); p != nil {
			o = outc{"panic", fmt.Sprint(p)}
		}
	}()
	var m syslog.Machine
	if be {
		m = rfc5424.NewMachine(rfc5424.WithBestEffort())
	} else {
		m = rfc5424.NewMachine()
	}
	x, err := m.Parse(append([]byte{}, in...))
	return outc{fpMessage(x), escErr(err)}
}

// alone by the parser; a parser that does not return is no better in a stream
func (m smodel) alone(c sconf, s []byte, fail string, in []byte) (o outc) {
	if atomic.LoadInt32(&watch.fired) != 0 {
		ch := make(chan outc, 1)
		go func() { ch <- alone(in, c.be) }()
		select {
		case o = <-ch:
		case <-time.After(3 * time.Second):
			o = outc{"", "(" + didNotReturn + ")"}
		}
		return
	}
	watched(func() J {
		u := &srun{in: s, fail: fail, panic: didNotReturn, hasbe: c.be}
		return m.traceJ(c, []*srun{u})
	}, func() { o = alone(in, c.be) })
	return
}

// want: what the listener has to see of a stream
type want struct {
	k string
	outc
	at  int
	bad bool // a message that does not parse
	due int
}

func (m smodel) wants(c sconf, s []byte, fail string) (ws []want, al map[string]outc) {
	al = map[string]outc{}
	get := func(in []byte) outc {
		if o, ok := al[string(in)]; ok {
			return o
		}
		o := m.alone(c, s, fail, in)
		al[string(in)] = o
		return o
	}
	for _, e := range m.emissions(c, s) {
		switch {
		case e.k == "parse":
			o := get(e.in)
			if c.fmt == "octet" && !c.be && o.err != "" {
				ws = append(ws, want{"error", outc{"", o.err}, e.at, true, e.due})
				return
			}
			ws = append(ws, want{"verbatim", o, e.at, o.err != "", e.due})
		case e.k == "tail" && c.fmt != "octet":
			o := get(e.in)
			if o.err == "" {
				o.err = "unexpected EOF"
				if fail != "" {
					o.err = fail
				}
			}
			ws = append(ws, want{"with", o, e.at, false, e.due})
		case e.k == "tail" && c.be:
			o := get(e.in)
			if o.err == "" {
				o.err = e.txt
			}
			ws = append(ws, want{"with", o, e.at, false, e.due})
		case e.k == "toolong":
			ws = append(ws, want{"toolong", outc{"", e.txt}, e.at, false, e.due})
		default:
			ws = append(ws, want{"frame", outc{"", e.txt}, e.at, false, e.due})
		}
	}
	return
}

// ---------------------------------------------------------------- readers

type chunk struct {
	n   int
	end bool // the end (or failure) is reported together with the bytes
}

// schedReader delivers the stream in the given pieces; n = 0 is an empty read.
type schedReader struct {
	s    []byte
	plan []chunk
	fail error // nil: io.EOF
	log  func(n int)
}

func (r *schedReader) last() error {
	if r.fail != nil {
		return r.fail
	}
	return io.EOF
}

func (r *schedReader) Read(p []byte) (int, error) {
	if len(r.plan) == 0 {
		r.plan = []chunk{{len(r.s), false}}
		if len(r.s) == 0 {
			if r.log != nil {
				r.log(0)
			}
			return 0, r.last()
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	c := r.plan[0]
	n := c.n
	if n > len(r.s) {
		n = len(r.s)
	}
	if n > len(p) {
		n = len(p)
		r.plan[0].n -= n
	} else {
		r.plan = r.plan[1:]
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.log != nil {
		r.log(n)
	}
	if len(r.s) == 0 {
		if n == 0 {
			return 0, r.last()
		}
		if c.end {
			return n, r.last()
		}
		r.plan = nil
	}
	return n, nil
}

// plans for a stream of n bytes
func plan(r *rand.Rand, kind string, n int) []chunk {
	var o []chunk
	switch kind {
	case "whole":
		o = []chunk{{n, false}}
	case "whole+eof":
		o = []chunk{{n, true}}
	case "bytes":
		for i := 0; i < n; i++ {
			o = append(o, chunk{1, false})
		}
	case "bytes+eof":
		for i := 0; i < n; i++ {
			o = append(o, chunk{1, true})
		}
	case "split":
		k := 0
		if n > 0 {
			k = r.Intn(n + 1)
		}
		o = []chunk{{k, false}, {n - k, r.Intn(2) == 0}}
	case "pieces":
		for i := 0; i < n; {
			k := 1 + r.Intn(1+r.Intn(20))
			o = append(o, chunk{k, r.Intn(2) == 0})
			i += k
		}
	case "empties":
		for i := 0; i < n; {
			for j := r.Intn(4); j > 0; j-- {
				o = append(o, chunk{0, false})
			}
			k := 1 + r.Intn(1+r.Intn(30))
			o = append(o, chunk{k, r.Intn(2) == 0})
			i += k
		}
	}
	return o
}

var planKinds = []string{"whole+eof", "bytes", "bytes+eof", "split", "pieces", "empties"}

// readers of the standard library, which have more methods than Read
var stdKinds = []string{"strings", "buffer", "bufio16", "bufio64k", "pipe", "multi"}

func mkReader(r *rand.Rand, kind string, s []byte, fail error, log func(int)) io.Reader {
	if fail == nil {
		switch kind {
		case "strings":
			log(len(s))
			return strings.NewReader(string(s))
		case "buffer":
			log(len(s))
			return bytes.NewBuffer(append([]byte{}, s...))
		case "bufio16":
			log(len(s))
			return bufio.NewReaderSize(bytes.NewReader(s), 16)
		case "bufio64k":
			log(len(s))
			return bufio.NewReaderSize(strings.NewReader(string(s)), 1<<16)
		case "multi":
			log(len(s))
			k := 0
			if len(s) > 0 {
				k = r.Intn(len(s))
			}
			return io.MultiReader(bytes.NewReader(s[:k]), strings.NewReader(string(s[k:])))
		case "pipe":
			log(len(s))
			pr, pw := io.Pipe()
			d := append([]byte{}, s...)
			go func() {
				for len(d) > 0 {
					k := 1 + len(d)/3
					if _, err := pw.Write(d[:k]); err != nil {
						return
					}
					d = d[k:]
				}
				pw.Close()
			}()
			return pr
		}
	}
	p := plan(r, kind, len(s))
	if p == nil {
		p = []chunk{{len(s), false}}
	}
	return &schedReader{s: s, plan: p, fail: fail, log: log}
}

// --------------------------------------------------------------- recorder

type event struct {
	e string // r, m, ret
	n int
	r *syslog.Result
	o outc
}

type obj struct {
	p   syslog.Parser
	mu  sync.Mutex
	cur *srun
	m   smodel
	c   sconf
	// what ends the next run early: its result or read of this number panics
	atResult, atRead int
}

// abortion is the panic of a listener or reader made to end a run
const abortion = "ended on purpose"

type srun struct {
	obj    int
	in     []byte
	fail   string
	evs    []event
	panic  string
	late   []outc
	hasbe  bool
	mute   bool
	warm   bool // by a parser with a longer history than recorded
	cut    bool // ended early by a panic of its listener or reader
	frozen bool
	ms     int
}

func options(r *rand.Rand, c sconf, l syslog.ParserListener) []syslog.ParserOption {
	var o []syslog.ParserOption
	if l != nil {
		o = append(o, syslog.WithListener(l))
	}
	if c.be {
		o = append(o, syslog.WithBestEffort())
	}
	if c.setMax {
		o = append(o, syslog.WithMaxMessageLength(c.max))
	}
	if c.fmt == "nul" {
		o = append(o, nontransparent.WithTrailer(nontransparent.NUL))
	}
	if c.fmt == "lf" && r != nil && r.Intn(2) == 0 {
		o = append(o, nontransparent.WithTrailer(nontransparent.LF))
	}
	if r != nil {
		r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
		// options given before are overridden by later ones
		if l != nil && r.Intn(8) == 0 {
			o = append([]syslog.ParserOption{syslog.WithListener(func(*syslog.Result) { panic("result for a replaced listener") })}, o...)
		}
		if c.setMax && r.Intn(8) == 0 {
			o = append([]syslog.ParserOption{syslog.WithMaxMessageLength(r.Intn(100))}, o...)
		}
		if c.fmt != "octet" && r.Intn(8) == 0 {
			bad := nontransparent.WithTrailer(nontransparent.TrailerType([]int{-1, 2, 10, 7}[r.Intn(4)]))
			i := r.Intn(len(o) + 1)
			o = append(o[:i:i], append([]syslog.ParserOption{bad}, o[i:]...)...)
		}
		if c.fmt == "nul" && r.Intn(8) == 0 {
			o = append([]syslog.ParserOption{nontransparent.WithTrailer(nontransparent.LF)}, o...)
		}
		if c.be && r.Intn(8) == 0 {
			o = append(o, syslog.WithBestEffort())
		}
	}
	return o
}

func (m smodel) newObj(r *rand.Rand, c sconf, mute bool) *obj {
	x := &obj{m: m, c: c}
	var l syslog.ParserListener
	if !mute {
		l = func(res *syslog.Result) {
			x.mu.Lock()
			defer x.mu.Unlock()
			o := outc{fpMessage(res.Message), escErr(res.Error)}
			x.cur.evs = append(x.cur.evs, event{e: "m", r: res, o: o})
			if x.cur.ms++; x.cur.ms > 2*len(x.cur.in)+100 {
				panic("results without end")
			}
			if x.cur.ms == x.atResult {
				x.cur.cut = true
				panic(abortion)
			}
		}
	}
	if c.fmt == "octet" {
		x.p = octetcounting.NewParser(options(r, c, l)...)
	} else {
		x.p = nontransparent.NewParser(options(r, c, l)...)
	}
	return x
}

// run parses one stream; the reader is made over a copy of it which is
// overwritten afterwards.
func (x *obj) run(r *rand.Rand, id int, kind string, s []byte, fail error, mute bool) *srun {
	run := &srun{obj: id, in: s, mute: mute}
	if fail != nil {
		run.fail = fail.Error()
	}
	x.mu.Lock()
	x.cur = run
	x.mu.Unlock()
	d := append([]byte{}, s...)
	nr := 0
	log := func(n int) {
		x.mu.Lock()
		run.evs = append(run.evs, event{e: "r", n: n})
		k := len(run.evs)
		nr++
		if nr == x.atRead {
			run.cut = true
		}
		x.mu.Unlock()
		if k > 20*len(s)+5000 {
			panic("reads without end")
		}
		if nr == x.atRead {
			panic(abortion)
		}
	}
	func() {
		defer func() {
			if p := recover(); p != nil && p != abortion {
				run.panic = fmt.Sprint(p)
			}
		}()
		rd := mkReader(r, kind, d, fail, log)
		if cl, ok := rd.(io.Closer); ok {
			defer cl.Close()
		}
		watched(func() J {
			run.panic, run.hasbe = didNotReturn, x.c.be
			return x.m.traceJ(x.c, []*srun{run})
		}, func() { x.p.Parse(rd) })
	}()
	x.mu.Lock()
	run.evs = append(run.evs, event{e: "ret"})
	x.mu.Unlock()
	run.hasbe = x.p.HasBestEffort()
	for i := range d {
		d[i] = 0xa5
	}
	return run
}

// abort parses a stream up to a panic of the listener or the reader
func (x *obj) abort(r *rand.Rand, id int, kind string, s []byte, results int) *srun {
	if x.atRead = 1 + r.Intn(4); results > 0 && r.Intn(2) == 0 {
		x.atResult, x.atRead = 1+r.Intn(results), 0
	}
	defer func() { x.atResult, x.atRead = 0, 0 }()
	return x.run(r, id, kind, s, nil, false)
}

// freeze looks at all results again
func (u *srun) freeze() {
	if u.frozen {
		return
	}
	u.frozen = true
	for _, e := range u.evs {
		if e.e == "m" {
			u.late = append(u.late, outc{fpMessage(e.r.Message), escErr(e.r.Error)})
		}
	}
}

func (u *srun) results() (o []outc) {
	for _, e := range u.evs {
		if e.e == "m" {
			o = append(o, e.o)
		}
	}
	return
}

func sameOutc(a, b []outc) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------- judgement

var sbit = map[string]int{"C16": 1, "C17": 2, "C18": 4, "C19": 8, "C20": 16, "C21": 32, "C22": 64, "C23": 128, "C28": 256}

func (c sconf) absolute(ws []want, u *srun) (bad int) {
	if c.fmt != "octet" && len(u.in) > 0 && u.in[0] != '<' {
		return 0
	}
	rs := u.results()
	k := 0
	for k < len(ws) && k < len(rs) && ws[k].outc == rs[k] {
		k++
	}
	if k == len(ws) && k == len(rs) {
		return 0
	}
	return c.about(ws, rs, k)
}

// about: the properties that say what result k of a run has to be
func (c sconf) about(ws []want, rs []outc, k int) (bad int) {
	if c.fmt != "octet" {
		if k < len(ws) {
			if ws[k].k == "with" {
				bad |= sbit["C22"]
			} else {
				bad |= sbit["C21"]
			}
		} else {
			bad |= sbit["C21"] | sbit["C22"]
		}
		if len(ws) != len(rs) && len(ws) > 0 && ws[len(ws)-1].k == "with" {
			bad |= sbit["C22"]
		}
		return
	}
	if k >= len(ws) {
		switch {
		case len(ws) == 0:
			bad |= sbit["C16"]
		case ws[len(ws)-1].k == "toolong":
			bad |= sbit["C18"]
		case ws[len(ws)-1].k == "frame" || ws[len(ws)-1].k == "with":
			bad |= sbit["C17"]
		default:
			bad |= sbit["C16"] | sbit["C17"]
		}
	} else {
		switch ws[k].k {
		case "verbatim", "error":
			bad |= sbit["C16"]
		case "toolong":
			bad |= sbit["C18"]
		case "frame":
			bad |= sbit["C17"]
		default:
			bad |= sbit["C17"] | sbit["C19"]
		}
	}
	if k < len(rs) && strings.HasPrefix(rs[k].err, "message too long") {
		bad |= sbit["C18"]
	}
	if c.be {
		for j := 0; j < len(ws) && j <= k; j++ {
			if ws[j].k == "verbatim" && ws[j].bad {
				bad |= sbit["C19"]
			}
		}
	}
	return
}

// judge one run; ref: results of run 1 (nil: this is run 1), twin: results
// of a new parser on the same stream with the same end (reuse)
func (c sconf) judge(ws []want, u *srun, ref, twin []outc, first bool) (bad int) {
	if u.mute {
		if u.panic != "" {
			return sbit["C23"]
		}
		return 0
	}
	if u.panic != "" {
		bad |= sbit["C20"] | sbit["C23"]
		if c.fmt == "octet" {
			bad |= sbit["C16"]
		} else {
			bad |= sbit["C21"]
		}
		bad |= c.about(ws, u.results(), len(u.results()))
	}
	rs := u.results()
	if u.cut {
		for k := range rs {
			if twin != nil && (k >= len(twin) || twin[k] != rs[k]) {
				bad |= sbit["C23"]
			}
		}
		if u.hasbe != c.be {
			bad |= sbit["C23"]
		}
		return
	}
	if first {
		bad |= c.absolute(ws, u)
		if ref != nil {
			same := len(rs) == len(ref)
			for k := 0; same && k < len(rs); k++ {
				if rs[k] != ref[k] && !(u.fail != "" && c.fmt != "octet" && k == len(ref)-1 && rs[k].msg == ref[k].msg && ref[k].err == "unexpected EOF" && rs[k].err == u.fail) {
					same = false
				}
			}
			if !same {
				bad |= sbit["C20"]
			}
		}
		n, k := 0, 0
		for _, e := range u.evs {
			if e.e == "r" {
				n += e.n
			}
			if e.e == "m" {
				if k < len(ws) && n < ws[k].at {
					bad |= sbit["C20"]
				}
				k++
			}
		}
	}
	if u.panic == "" && c.late(ws, u) {
		bad |= sbit["C28"]
	}
	if !first && twin != nil && !sameOutc(rs, twin) {
		bad |= sbit["C23"]
	}
	if u.panic == "" && (len(u.evs) == 0 || u.evs[len(u.evs)-1].e != "ret") {
		bad |= sbit["C23"]
	}
	if u.hasbe != c.be {
		bad |= sbit["C23"]
	}
	return
}

// late: a read was asked for while a result was settled and not delivered,
// or after the result that ends the stream
func (c sconf) late(ws []want, u *srun) bool {
	if c.fmt != "octet" && len(u.in) > 0 && u.in[0] != '<' {
		return false
	}
	n, k := 0, 0
	over := -1
	if c.fmt == "octet" && len(ws) > 0 && ws[len(ws)-1].k != "verbatim" {
		over = ws[len(ws)-1].due
	}
	for _, e := range u.evs {
		switch e.e {
		case "r":
			if k < len(ws) && ws[k].due >= 0 && ws[k].due <= n || over >= 0 && n >= over {
				return true
			}
			n += e.n
		case "m":
			k++
		}
	}
	return false
}

// modified: the results of a run do not look any more as when delivered
func (u *srun) modified() bool {
	u.freeze()
	return !sameOutc(u.results(), u.late)
}

func (u *srun) json() J {
	u.freeze()
	evs := []J{}
	for _, e := range u.evs {
		switch e.e {
		case "r":
			evs = append(evs, J{"e": "r", "n": e.n})
		case "m":
			evs = append(evs, J{"e": "m", "msg": shortFp(e.o.msg), "err": e.o.err})
		default:
			evs = append(evs, J{"e": "ret"})
		}
	}
	late := []J{}
	for _, o := range u.late {
		late = append(late, J{"msg": shortFp(o.msg), "err": o.err})
	}
	return J{"obj": u.obj, "in": bytesJ(string(u.in)), "fail": u.fail, "evs": evs, "late": late, "panic": u.panic, "hasbe": u.hasbe, "mute": u.mute, "warm": u.warm, "cut": u.cut}
}

func (m smodel) traceJ(c sconf, runs []*srun) J {
	al := map[string]outc{}
	rj := []J{}
	for _, u := range runs {
		_, a := m.wants(c, u.in, u.fail)
		for k, v := range a {
			al[k] = v
		}
		rj = append(rj, u.json())
	}
	ks := []string{}
	for k := range al {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	pars := []J{}
	for _, k := range ks {
		pars = append(pars, J{"in": bytesJ(k), "msg": shortFp(al[k].msg), "err": al[k].err})
	}
	max := []int{}
	if c.limit() >= 0 {
		max = bytesJ(strconv.Itoa(c.limit()))
	}
	return J{"fmt": c.fmt, "be": c.be, "max": max, "maxtxt": strconv.Itoa(c.limit()), "pars": pars, "runs": rj}
}

// lostConn is an error of a reader, with its own type: it times out like those of
// a network connection, or is one of the end of the input without being io.EOF.
type lostConn struct {
	text string
	is   error
}

func (e lostConn) Error() string   { return e.text }
func (e lostConn) Timeout() bool   { return true }
func (e lostConn) Temporary() bool { return true }
func (e lostConn) Unwrap() error   { return e.is }

// readerErrs are the ways in which the reader of a stream fails. None of them is
// io.EOF itself, which is how a reader ends.
var readerErrs = []error{
	errors.New("reader failed: connection reset"),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	errors.New("EOF"),
	lostConn{"i/o timeout", nil},
	lostConn{"read tcp 127.0.0.1:6514: EOF", io.EOF},
	lostConn{"100%d of it lost [col 3]: found ILLEGAL", io.ErrNoProgress},
}

func readerErr(r *rand.Rand) error { return readerErrs[r.Intn(len(readerErrs))] }
