package main

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// probes: inputs whose outcome alone is recorded in a process of its own
type probeSet map[string][][]byte // fam -> inputs

func phasesOf(t *table) (w [][]byte) {
	seen := map[string]bool{}
	idx := make([]int, len(t.states))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return t.states[idx[a]].depth < t.states[idx[b]].depth })
	for _, i := range idx {
		s := t.states[i]
		p := strings.SplitN(s.name, "/", 2)[0]
		if seen[p] || s.depth < 0 || len(s.classes) == 0 {
			continue
		}
		seen[p] = true
		w = append(w, append([]byte{}, s.access...))
		if c, ok := t.completion(i); ok && len(c) > 0 {
			w = append(w, append(append([]byte{}, s.access...), c...))
		}
	}
	return
}

func strs(l ...string) (o [][]byte) {
	for _, s := range l {
		o = append(o, []byte(s))
	}
	return
}

func dedup(l [][]byte) (o [][]byte) {
	seen := map[string]bool{}
	for _, b := range l {
		if !seen[string(b)] {
			seen[string(b)] = true
			o = append(o, b)
		}
	}
	return
}

func probes(t5, t3 *table, bm *bmodel, r *rand.Rand) probeSet {
	ps := probeSet{}
	rich := `<165>999 2003-10-11T22:14:15.003-07:30 mymachine.example.com su 12-3 ID47 [a@1 x="\"\\\]" y="plain"][b z=""] ` + "\xef\xbb\xbfmessage"
	five := strs("", "<", "<1>", "<1>1", "<191>999 ", "<1>1 -", rich, "<9>3 2020-02-30T00:00:00Z - - - - -", "<9>3 2020-02-29T00:00:00Z - - - - -",
		"<0>1 2020-01-01T00:00:00Z - - - - - m", "<0>1 - h - - - -", "<0>1 - - a - - -", "<0>1 - - - p - -", "<0>1 - - - - m -", "<0>1 - - - - - - ",
		`<0>1 - - - - - [i]`, `<0>1 - - - - - [i n="v"]`, `<0>1 - - - - - [i n="a\]b"]`, `<0>1 - - - - - [i n="\\"][j n="c"] m`,
		`<0>1 - - - - - [i n="v"][i n="w"]`, `<0>1 - - - - - [i n="v" n="w"] m`, `<0>1 - - - - - [i n="v\x"]`, `<0>1 - - - - - [i n="v`, `<0>1 - - - - - [i n=`,
		`<0>1 - - - - - [i`, `<0>1 - - - - - [`, `<0>1 - - - - - [i][`, `<0>1 - - - - - [i][j`, `<0>1 - - - - - [i n="\`, `<0>1 - - - - - [i n="\"\"" o="\\\\`,
		"<0>1 - - - - - - \xff\xfe", "<0>1 - - - - - - \xef\xbb\xbf\xff", "<0>1 - - - - - - m\n<1>1 - - - - - -", "<7>2 - hh", "<7>2 - hh aa", "<7>2 - hh aa pp", "<7>2 - hh aa pp mm",
		"<8>1 - - - - - x", "<192>1 - - - - - -", "<8>0 - - - - - -", "<8>1 - \x01", "<8>1000 - - - - - -", "<8>12 2020-13-01T00:00:00Z - - - - -", "<8>1 2020-01-01T00:00:00.1234567Z - - - - -")
	ps["5424"] = dedup(append(five, phasesOf(t5)...))
	stamp := "<13>Dec  2 16:31:03 "
	three := strs("", "<", "<13>", "<191>Dec", stamp, stamp+"host", stamp+"host ", stamp+"host app", stamp+"host app: ", stamp+"host app: msg", stamp+"host app[", stamp+"host app[12", stamp+"host app[12]",
		stamp+"host app[12]:", stamp+"host app[12]: msg", stamp+"host app[12]x", stamp+"host ]x", stamp+"host [12]: msg", stamp+"host just a message without tag", stamp+"host m", stamp+"h a:b", stamp+"h a: b[c]: d",
		"<0>Feb 29 00:00:00 h t: m", "<0>Feb 30 00:00:00 h t: m", "<0>Jan  1 24:00:00 h t: m", "<192>Jan  1 00:00:00 h t: m", "<0>2020-02-29T23:59:59+01:00 h t[1]: m", "<0>2021-02-29T23:59:59Z h t: m",
		"<0>2020-02-29T23:59:59-0", "<0>Jan  1 00:00:00 h t: m\n", "<0>Jan  1 00:00:00 h t\x01: m", "<0>Jan  1 00:00:00 \x01", "<0>Jan 32", stamp+"host "+strings.Repeat("t", 33)+": m")
	ps["3164"] = dedup(append(three, phasesOf(t3)...))
	for i := 0; i < 30; i++ {
		ps["octet"] = append(ps["octet"], genOctet(r, sconf{fmt: "octet"}))
		ps["nt"] = append(ps["nt"], genNT(r, []string{"\n", "\x00"}[i%2]))
		var ids, names []string
		var ops []bop
		last := map[string]string{}
		for n := 1 + r.Intn(25); n > 0; n-- {
			ops = append(ops, bm.randOp(r, &ids, &names, last))
		}
		ps["builder"] = append(ps["builder"], packOps(nil, ops), packOps([]byte(rich), ops))
	}
	ps["octet"] = append(ps["octet"], strs("", "17 <1>1 - - - - - - x18 <1>1 - - - - - - yy5 <1>1 ", "9999 <1>", "16 <1>1 - - - - - -x", "0 <1>", "3 <1>16 <1>1 - - - - - -")...)
	ps["nt"] = append(ps["nt"], strs("", "<1>1 - - - - - - a\n<2>1 - - - - - - b\n", "<1>1 - - - - - - a\x00<2>1 - h - - - - b\x00<3>", "<1>1 - - - - - -")...)
	full := []bop{{op: "priority", n: 191}, {op: "version", n: 1}, {op: "timestamp", v: "2003-10-11T22:14:15.003Z"}, {op: "hostname", v: "hhhhhhhhhhhh"}, {op: "appname", v: "aaaaaaaaa"},
		{op: "procid", v: "ppppppppp"}, {op: "msgid", v: "mmmmmmmm"}, {op: "element", id: "iiiiiii"}, {op: "param", id: "jjjjjjjj", name: "nnnnnnnn", v: `v\]v\"v\\v`}, {op: "message", v: "text text"}}
	ps["builder"] = append(ps["builder"], packOps(nil, full), packOps(nil, nil))
	for i, o := range full {
		ps["builder"] = append(ps["builder"], packOps(nil, []bop{full[0], full[1], o, {op: "hostname", v: strings.Repeat("x", 200+i)}, {op: "param", id: "e", name: "n" + strconv.Itoa(i), v: strings.Repeat(`\]x`, i)}}))
	}
	for k := range ps {
		ps[k] = dedup(ps[k])
	}
	for _, k := range []string{"5424", "3164", "builder"} {
		ps["r"+k] = ps[k]
	}
	return ps
}

const nBases = 14

// nearBase is a message whose fields are long enough to be taken for another
func nearBase(r *rand.Rand, fam string, i int) []byte {
	w := func(n int) string {
		b := make([]byte, n)
		for k := range b {
			b[k] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)]
		}
		return string(b)
	}
	l := []int{1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32}[i%nBases]
	stamp := [...]string{"2003-10-11T22:14:15.003452+01:30", "2019-02-28T01:01:01Z", "1999-12-31T23:59:59.1-11:59"}[i%3]
	if fam == "3164" {
		if i%4 > 0 {
			stamp = [...]string{"Oct 11 22:14:15", "Jan  2 03:04:05", "Feb 28 11:11:11"}[i%3]
		}
		return []byte("<34>" + stamp + " " + w(l) + " " + w(l) + "[" + w(l) + "]: " + w(l) + " " + w(l))
	}
	return []byte("<165>12 " + stamp + " " + w(l) + " " + w(l) + " " + w(l) + " " + w(l) + " [" + w(l) + "@1 " + w(l) + `="` + w(l) + `" ` + w(l) + `="` + w(l) + `\\` + w(l) + `"][` + w(l) + "] " + w(l) + " " + w(l))
}

// nearOf: the same length, one byte another, two bytes exchanged, or two
// changed by as much in opposite directions
func nearOf(r *rand.Rand, base []byte) [][]byte {
	var l [][]byte
	word := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' }
	put := func(f func(v []byte)) {
		v := append([]byte{}, base...)
		f(v)
		l = append(l, v)
	}
	for i, c := range base {
		switch {
		case c >= '0' && c <= '9':
			put(func(v []byte) { v[i] = '0' + (c-'0'+1+byte(r.Intn(9)))%10 })
		case c >= 'a' && c <= 'z':
			put(func(v []byte) { v[i] = 'a' + (c-'a'+1+byte(r.Intn(25)))%26 })
			put(func(v []byte) { v[i] = c - 32 })
		default:
			put(func(v []byte) { v[i] = " -:.<>[]\"=\\"[r.Intn(11)] })
		}
		for _, d := range []int{1, 2, 3 + r.Intn(5)} {
			if i+d < len(base) && word(c) && word(base[i+d]) {
				put(func(v []byte) { v[i], v[i+d] = v[i+d], v[i] })
				if word(c+1) && word(base[i+d]-1) {
					put(func(v []byte) { v[i]++; v[i+d]-- })
				}
			}
		}
	}
	return l
}

// heavy inputs make calls overlap
func heavy() probeSet {
	big := strings.Repeat("x", 3000)
	return probeSet{
		"5424":  strs("<1>1 - - - - - - "+big, `<2>2 2020-01-02T03:04:05Z h a p m [i n="`+strings.Repeat(`\]a`, 800)+`"] `+big),
		"3164":  strs("<1>Oct 11 22:14:15 h t: "+big, "<2>Oct 11 22:14:15 h t["+strings.Repeat("9", 3000)+"]: m"),
		"octet": strs(strings.Repeat(frameOf("<1>1 - - - - - - m"), 60)),
		"nt":    strs(strings.Repeat("<1>1 - - - - - - m\n", 60), strings.Repeat("<1>1 - - - - - - m\x00", 60)),
		"builder": [][]byte{packOps(nil, []bop{{op: "priority", n: 1}, {op: "version", n: 2}, {op: "param", id: "i", name: "n", v: strings.Repeat(`\]a`, 800)},
			{op: "hostname", v: strings.Repeat("h", 255)}, {op: "message", v: big}})},
	}
}

func keyOf(c ocfg, in []byte) string { return c.name + " " + clip(strconv.QuoteToASCII(string(in))) }

// ------------------------------------------------ outcomes alone

// talone: one input on one new object, nothing else happened before
func talone(args map[string]string) {
	in, err := io.ReadAll(os.Stdin)
	fatal(err)
	for _, c := range objects() {
		if c.name == args["cfg"] {
			fmt.Print(c.mk()(in).out)
			return
		}
	}
	fatal(fmt.Errorf("no object %q", args["cfg"]))
}

// tprobes records the outcome alone of every probe
func tprobes(args map[string]string) {
	ps := args["fams"]
	t5 := loadTables(args["table5"], acts5424)["compliant"]
	t3 := loadTables(args["table3"], acts3164)["rfc3339"]
	bm := loadBuilder(args["entries"], loadTables(args["table5"], acts5424)["plain"])
	r := rand.New(rand.NewSource(int64(atoi(args["seed"]))))
	set := probes(t5, t3, bm, r)
	for f, l := range heavy() {
		set[f] = append(set[f], l...)
	}
	f := probeFile{Set: probeSet{}, Alone: map[string]string{}}
	type job struct {
		c  ocfg
		in []byte
	}
	var jobs []job
	for _, c := range objects() {
		if !strings.Contains(","+ps+",", ","+c.fam+",") {
			continue
		}
		f.Set[c.fam] = set[c.fam]
		for _, in := range set[c.fam] {
			jobs = append(jobs, job{c, in})
		}
	}
	var mu sync.Mutex
	self, err := os.Executable()
	fatal(err)
	pool(len(jobs), 1, time.Now().Add(time.Hour), func(i int, _ *rand.Rand) {
		j := jobs[i]
		ctxDone := time.AfterFunc(60*time.Second, func() { fatal(fmt.Errorf("a single call did not return: %s", keyOf(j.c, j.in))) })
		defer ctxDone.Stop()
		cmd := exec.Command(self, "talone", "cfg="+j.c.name)
		cmd.Stdin = bytes.NewReader(j.in)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		fatal(err)
		mu.Lock()
		f.Alone[keyOf(j.c, j.in)] = string(out)
		mu.Unlock()
	})
	w, err := os.Create(args["out"])
	fatal(err)
	fatal(gob.NewEncoder(w).Encode(f))
	fatal(w.Close())
}

type probeFile struct {
	Set   probeSet
	Alone map[string]string
}

// ------------------------------------------------ histories

type oevent struct {
	seq int64
	e   string
	g   int
	c   ocfg
	in  []byte
	n   int
	out string
}

// tracer turns recorded histories into traces for TLC
type tracer struct {
	mu    sync.Mutex
	prop  string
	alone map[string]string
	extra []J // candidates
	mism  int
	calls int64
	hists int
}

// outcome alone of inputs that are not probes: of a new object, here
func (tr *tracer) aloneOf(c ocfg, in []byte) string {
	k := keyOf(c, in)
	if o, ok := tr.alone[k]; ok {
		return o
	}
	return c.mk()(append([]byte{}, in...)).out
}

func (tr *tracer) trace(evs []oevent, gs int) J {
	al := map[string]string{}
	var es []J
	for _, e := range evs {
		switch e.e {
		case "inv":
			k := keyOf(e.c, e.in)
			if _, ok := al[k]; !ok {
				al[k] = tr.aloneOf(e.c, e.in)
			}
			es = append(es, J{"e": "inv", "g": e.g, "k": k})
		case "ret":
			es = append(es, J{"e": "ret", "g": e.g, "out": e.out})
		case "again":
			es = append(es, J{"e": "again", "g": e.g, "n": e.n, "out": e.out})
		case "over":
			es = append(es, J{"e": "over", "g": e.g, "n": e.n})
		default:
			es = append(es, J{"e": e.e, "g": e.g})
		}
	}
	var ks []string
	for k := range al {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	as := []J{}
	for _, k := range ks {
		as = append(as, J{"k": k, "out": al[k]})
	}
	if es == nil {
		es = []J{}
	}
	return J{"prop": tr.prop, "gs": gs, "alone": as, "evs": es}
}

func (tr *tracer) mismatch(evs []oevent, gs int) {
	tr.mu.Lock()
	defer tr.mu.Unlock()
	tr.mism++
	if len(tr.extra) < 60 {
		tr.extra = append(tr.extra, tr.trace(evs, gs))
	}
}

// wcall is a call in progress: the watchdog reports those that never return
type wcall struct {
	c     ocfg
	in    []byte
	since time.Time
}

// caller drives one object with one reused buffer
type caller struct {
	tr   *tracer
	c    ocfg
	g    int
	call func([]byte) answer
	buf  []byte
	keep []byte
	ring []kept
	n    int
	last []oevent
	now  atomic.Value // *wcall
	seq  *int64
	all  bool // record everything
}

type kept struct {
	a answer
	n int // which result of this caller
}

func newCaller(tr *tracer, c ocfg, g int, call func([]byte) answer, seq *int64) *caller {
	return &caller{tr: tr, c: c, g: g, call: call, buf: make([]byte, 2048), keep: make([]byte, 2048), seq: seq}
}

func (x *caller) log(e oevent) {
	e.seq = atomic.AddInt64(x.seq, 1)
	e.g, e.c = x.g, x.c
	x.last = append(x.last, e)
	if !x.all && len(x.last) > 64 {
		x.last = append(x.last[:0], x.last[40:]...)
	}
}

// history of this caller as a trace of its own: goroutine 1, starting at an inv
func (x *caller) own() []oevent {
	i := 0
	for i < len(x.last) && x.last[i].e != "inv" {
		i++
	}
	var o []oevent
	first := -1
	rets := 0
	for _, e := range x.last[i:] {
		e.g = 1
		if e.e == "ret" {
			if first < 0 {
				first = e.n
			}
			rets++
		}
		if e.e == "again" || e.e == "over" {
			e.n -= first - 1
			if first < 0 || e.n < 1 || e.n > rets {
				continue
			}
		}
		o = append(o, e)
	}
	return o
}

// do makes one call; it reports false when something is wrong
func (x *caller) do(r *rand.Rand, in []byte, expect string) bool {
	need := len(in) + 64
	if len(x.buf) < need {
		x.buf, x.keep = make([]byte, need), make([]byte, need)
	}
	b, keep := x.buf, x.keep
	if len(in) < 900 {
		b, keep = b[:1024], keep[:1024]
	}
	off := r.Intn(32)
	for i := range b {
		b[i] = 0xee
	}
	copy(b[off:], in)
	copy(keep, b)
	arg := b[off : off+len(in)]
	if r.Intn(2) == 0 {
		arg = b[off : off+len(in) : off+len(in)]
	}
	x.log(oevent{e: "inv", in: in})
	x.now.Store(&wcall{c: x.c, in: in, since: time.Now()})
	a := x.call(arg)
	x.now.Store((*wcall)(nil))
	x.n++
	x.log(oevent{e: "ret", out: a.out, n: x.n})
	ok := a.out == expect
	if !bytes.Equal(b, keep) {
		x.log(oevent{e: "wrote"})
		ok = false
	}
	for i := range b {
		b[i] = 0xa5
	}
	x.ring = append(x.ring, kept{a, x.n})
	if len(x.ring) > 8 {
		x.ring = append(x.ring[:0], x.ring[1:]...)
	}
	if x.tr.prop != "C14" || r.Intn(4) == 0 {
		k := x.ring[r.Intn(len(x.ring))]
		if o := k.a.again(); o != k.a.out {
			ok = false
			x.log(oevent{e: "again", n: k.n, out: o})
		} else if x.all && r.Intn(3) == 0 {
			x.log(oevent{e: "again", n: k.n, out: o})
		}
	}
	if r.Intn(50) == 0 {
		x.over(0)
	}
	return ok
}

// over: the caller may change the messages it was given
func (x *caller) over(i int) {
	if i < 0 || i >= len(x.ring) {
		return
	}
	k := x.ring[i]
	x.ring = append(x.ring[:i:i], x.ring[i+1:]...)
	k.a.spoil()
	x.log(oevent{e: "over", n: k.n})
}

// watchdog reports the first call that does not return for long and ends
func watchdog(tr *tracer, xs func() []*caller, finish func()) {
	for {
		time.Sleep(500 * time.Millisecond)
		for _, x := range xs() {
			if w, _ := x.now.Load().(*wcall); w != nil && time.Since(w.since) > 40*time.Second {
				j := J{"prop": tr.prop, "gs": 1, "alone": []J{{"k": keyOf(w.c, w.in), "out": tr.alone[keyOf(w.c, w.in)]}},
					"evs": []J{{"e": "inv", "g": 1, "k": keyOf(w.c, w.in)}, {"e": "hung", "g": 1}}}
				tr.mu.Lock()
				tr.mism++
				tr.extra = append([]J{j}, tr.extra...)
				tr.mu.Unlock()
				finish()
				os.Exit(0)
			}
		}
	}
}

// tobject: histories (C10), shared and separate parsers (C11), builders (C14)
func tobject(args map[string]string) {
	prop := args["prop"]
	race := args["race"] == "1"
	seed := int64(atoi(args["seed"]))
	secs := atoi(args["secs"])
	nSample := atoi(args["sample"])
	var pf probeFile
	f, err := os.Open(args["probes"])
	fatal(err)
	fatal(gob.NewDecoder(bufio.NewReader(f)).Decode(&pf))
	f.Close()
	tr := &tracer{prop: prop, alone: pf.Alone}
	var samples []J
	var mu sync.Mutex
	var live []*caller
	st := J{}
	var once sync.Once
	finish := func() {
		once.Do(func() {
			tr.mu.Lock()
			defer tr.mu.Unlock()
			out := newNdj(args["out"])
			sort.SliceStable(tr.extra, func(a, b int) bool { return len(tr.extra[a]["evs"].([]J)) < len(tr.extra[b]["evs"].([]J)) })
			for _, j := range tr.extra {
				out.add(j)
			}
			for _, j := range samples {
				out.add(j)
			}
			out.close()
			st["calls"], st["histories"], st["mismatches"], st["candidates"], st["traces"] = atomic.LoadInt64(&tr.calls), tr.hists, tr.mism, len(tr.extra), out.n
			st["samples"] = []string{}
			writeJSON(args["stats"], st)
		})
	}
	go watchdog(tr, func() []*caller { mu.Lock(); defer mu.Unlock(); return append([]*caller{}, live...) }, finish)
	enter := func(x *caller) { mu.Lock(); live = append(live, x); mu.Unlock() }
	leave := func(x *caller) {
		mu.Lock()
		for i := range live {
			if live[i] == x {
				live = append(live[:i:i], live[i+1:]...)
				break
			}
		}
		mu.Unlock()
	}
	var cfgs []ocfg
	for _, c := range objects() {
		if _, ok := pf.Set[c.fam]; ok {
			cfgs = append(cfgs, c)
		}
	}
	st["objects"] = len(cfgs)
	dl := time.Now().Add(time.Duration(secs) * time.Second)
	if prop == "C10" {
		histories(tr, cfgs, pf, args, seed, dl, nSample, enter, leave, &samples, st)
	} else {
		concurrent(tr, cfgs, pf, race, seed, dl, nSample, enter, leave, &samples, st)
	}
	finish()
}

// histories drives single objects through sequences of inputs
func histories(tr *tracer, cfgs []ocfg, pf probeFile, args map[string]string, seed int64, dl time.Time, nSample int, enter, leave func(*caller), samples *[]J, st J) {
	var smu sync.Mutex
	tabs := map[string]*table{"5424": loadTables(args["table5"], acts5424)["compliant"], "3164": loadTables(args["table3"], acts3164)["rfc3339"]}
	ends := map[string][][]byte{}
	r0 := rand.New(rand.NewSource(seed))
	for fam, t := range tabs {
		for i, s := range t.states {
			if s.depth < 0 || len(s.classes) == 0 {
				continue
			}
			// left in this state: at the end of the input, by a byte that fails,
			// and by completing the message
			ends[fam] = append(ends[fam], append([]byte{}, s.access...))
			for k, bs := range s.classes {
				if t.states[s.targets[k]].fail != "" {
					ends[fam] = append(ends[fam], append(append([]byte{}, s.access...), bs[r0.Intn(len(bs))]))
					break
				}
			}
			if c, ok := t.completion(i); ok {
				ends[fam] = append(ends[fam], append(append([]byte{}, s.access...), c...))
			}
		}
		ends[fam] = dedup(ends[fam])
		r0.Shuffle(len(ends[fam]), func(i, j int) { ends[fam][i], ends[fam][j] = ends[fam][j], ends[fam][i] })
		st["ends_"+fam] = len(ends[fam])
	}
	type task struct {
		c    ocfg
		from int
	}
	const slice = 64
	var tasks []task
	for _, c := range cfgs {
		for i := 0; i < len(ends[c.fam]); i += slice {
			tasks = append(tasks, task{c, i})
		}
	}
	rand.New(rand.NewSource(seed+5)).Shuffle(len(tasks), func(i, j int) { tasks[i], tasks[j] = tasks[j], tasks[i] })
	pairs := int64(0)
	report := func(x *caller, pre, in []byte, expect string, r *rand.Rand) {
		// a short history if it shows the same, else the last part of this one
		var seq int64
		y := newCaller(tr, x.c, 1, x.c.mk(), &seq)
		y.all = true
		ok := true
		if pre != nil {
			ok = y.do(r, pre, tr.aloneOf(x.c, pre))
		}
		ok = y.do(r, in, expect) && ok
		if !ok {
			tr.mismatch(y.own(), 1)
		}
		tr.mismatch(x.own(), 1)
	}
	done := pool(len(tasks), seed, dl, func(i int, r *rand.Rand) {
		t := tasks[i]
		var seq int64
		x := newCaller(tr, t.c, 1, t.c.mk(), &seq)
		enter(x)
		defer leave(x)
		n := int64(0)
		for k := t.from; k < t.from+slice && k < len(ends[t.c.fam]); k++ {
			a := ends[t.c.fam][k]
			ea := tr.aloneOf(t.c, a)
			// the same input again, after the message was changed
			for _, w := range [][]byte{a, pf.Set[t.c.fam][k%len(pf.Set[t.c.fam])]} {
				ew := tr.aloneOf(t.c, w)
				ok := x.do(r, w, ew)
				x.over(len(x.ring) - 1)
				if !(x.do(r, w, ew) && ok) {
					tr.mismatch(x.own(), 1)
					x = newCaller(tr, t.c, 1, t.c.mk(), &seq)
				}
				n++
			}
			for _, b := range pf.Set[t.c.fam] {
				if len(b) > 5000 {
					continue
				}
				eb := pf.Alone[keyOf(t.c, b)]
				ok1 := x.do(r, a, ea)
				ok2 := x.do(r, b, eb)
				n++
				if !ok1 || !ok2 {
					if ok2 {
						report(x, nil, a, ea, r)
					} else {
						report(x, a, b, eb, r)
					}
					x = newCaller(tr, t.c, 1, t.c.mk(), &seq)
				}
			}
		}
		atomic.AddInt64(&pairs, n)
		atomic.AddInt64(&tr.calls, 2*n)
	})
	st["tasks"], st["tasks_done"], st["pairs"] = len(tasks), done, pairs
	// inputs that differ from the last one in very little
	var rel []task
	for _, c := range cfgs {
		for i := 0; i < nBases; i++ {
			rel = append(rel, task{c, i})
		}
	}
	relatives := int64(0)
	near := pool(len(rel), seed+9, dl.Add(15*time.Second), func(i int, r *rand.Rand) {
		c := rel[i].c
		base := nearBase(r, c.fam, rel[i].from)
		eb := tr.aloneOf(c, base)
		var seq int64
		x := newCaller(tr, c, 1, c.mk(), &seq)
		enter(x)
		defer leave(x)
		n := int64(0)
		x.do(r, base, eb)
		for _, v := range nearOf(r, base) {
			ev := tr.aloneOf(c, v)
			ok := x.do(r, v, ev)
			n++
			if ok && r.Intn(2) == 0 {
				ok = x.do(r, base, eb)
				n++
			}
			if !ok {
				report(x, base, v, ev, r)
				x = newCaller(tr, c, 1, c.mk(), &seq)
				x.do(r, base, eb)
			}
		}
		atomic.AddInt64(&relatives, n)
		atomic.AddInt64(&tr.calls, n)
	})
	st["near_tasks"], st["near_tasks_done"], st["near_calls"] = len(rel), near, relatives
	// random histories of random inputs
	nr := atoi(args["random"])
	done = pool(nr, seed+1, dl.Add(20*time.Second), func(i int, r *rand.Rand) {
		c := cfgs[i%len(cfgs)]
		gen := func() []byte {
			if r.Intn(3) == 0 {
				p := pf.Set[c.fam]
				return p[r.Intn(len(p))]
			}
			if c.fam == "5424" {
				return gen5424(r)
			}
			return gen3164(r)
		}
		var seq int64
		x := newCaller(tr, c, 1, c.mk(), &seq)
		x.all = true
		enter(x)
		defer leave(x)
		bad := false
		n := 4 + r.Intn(10)
		var in []byte
		for k := 0; k < n; k++ {
			if k == 0 || r.Intn(4) > 0 {
				in = gen()
			} else if r.Intn(2) == 0 && len(x.ring) > 0 {
				x.over(len(x.ring) - 1)
			}
			if !x.do(r, in, tr.aloneOf(c, in)) {
				bad = true
			}
		}
		if bad {
			tr.mismatch(x.own(), 1)
		}
		atomic.AddInt64(&tr.calls, int64(n))
		smu.Lock()
		tr.hists++
		if len(*samples) < nSample {
			*samples = append(*samples, tr.trace(x.own(), 1))
		}
		smu.Unlock()
	})
	st["random_histories"] = done
}

// concurrent drives shared and separate objects from many goroutines
func concurrent(tr *tracer, cfgs []ocfg, pf probeFile, race bool, seed int64, dl time.Time, nSample int, enter, leave func(*caller), samples *[]J, st J) {
	rounds := 0
	r0 := rand.New(rand.NewSource(seed))
	long := map[string][][]byte{}
	for f, l := range pf.Set {
		for _, in := range l {
			if len(in) > 1000 {
				long[f] = append(long[f], in)
			}
		}
	}
	round := func(pick func(g int) (ocfg, func([]byte) answer), gs, calls int, rec bool) {
		var seq int64
		xs := make([]*caller, gs)
		var wg sync.WaitGroup
		start := make(chan struct{})
		bad := make([]bool, gs)
		for g := range xs {
			c, call := pick(g)
			xs[g] = newCaller(tr, c, g+1, call, &seq)
			xs[g].all = rec
			enter(xs[g])
			wg.Add(1)
			go func(g int, x *caller, s int64) {
				defer wg.Done()
				r := rand.New(rand.NewSource(s))
				p, l := pf.Set[x.c.fam], long[x.c.fam]
				<-start
				for k := 0; k < calls; k++ {
					in := p[r.Intn(len(p))]
					if r.Intn(16) == 0 && len(l) > 0 {
						in = l[r.Intn(len(l))]
					}
					if !x.do(r, in, pf.Alone[keyOf(x.c, in)]) {
						bad[g] = true
						return
					}
					if r.Intn(4) == 0 {
						runtime.Gosched()
					}
				}
			}(g, xs[g], r0.Int63())
		}
		close(start)
		wg.Wait()
		for _, x := range xs {
			leave(x)
		}
		atomic.AddInt64(&tr.calls, int64(gs*calls))
		rounds++
		isBad := false
		for g, b := range bad {
			if b {
				isBad = true
				if !rec {
					tr.mismatch(xs[g].own(), 1)
				}
			}
		}
		if rec {
			var evs []oevent
			for _, x := range xs {
				evs = append(evs, x.last...)
			}
			sort.Slice(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
			tr.hists++
			if isBad {
				tr.mismatch(evs, gs)
			} else if len(*samples) < nSample {
				*samples = append(*samples, tr.trace(evs, gs))
			}
		}
	}
	var shared []ocfg
	for _, c := range cfgs {
		if c.safe && (tr.prop == "C11" || tr.prop == "C31") {
			shared = append(shared, c)
		}
	}
	calls := 150
	if race {
		calls = 40
	}
	separate := func(g int) (ocfg, func([]byte) answer) { c := cfgs[r0.Intn(len(cfgs))]; return c, c.mk() }
	for n := 0; time.Now().Before(dl) && tr.mism < 20; n++ {
		if len(shared) > 0 {
			c := shared[n%len(shared)]
			call := c.mk()
			round(func(int) (ocfg, func([]byte) answer) { return c, call }, 4+r0.Intn(8), calls, false)
			round(func(int) (ocfg, func([]byte) answer) { return c, call }, 3+r0.Intn(6), 4, true)
		}
		// everybody an object of the same kind, and all kinds together
		c := cfgs[r0.Intn(len(cfgs))]
		round(func(int) (ocfg, func([]byte) answer) { return c, c.mk() }, 4+r0.Intn(8), calls, false)
		round(func(int) (ocfg, func([]byte) answer) { return c, c.mk() }, 3+r0.Intn(6), 4, true)
		if len(cfgs) > 1 {
			round(separate, 8+r0.Intn(8), calls, false)
			round(separate, 4+r0.Intn(6), 4, true)
		}
	}
	st["rounds"] = rounds
}
