package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------- accessors (C24)

// accMsg is a message whose accessors are recorded
type accMsg struct {
	m    syslog.Message
	kind string
	base *syslog.Base
	five *rfc5424.SyslogMessage
}

type baseMsg struct{ syslog.Base }

func newAcc(kind string) *accMsg {
	switch kind {
	case "5424":
		x := &rfc5424.SyslogMessage{}
		return &accMsg{x, kind, &x.Base, x}
	case "3164":
		x := &rfc3164.SyslogMessage{}
		return &accMsg{x, kind, &x.Base, nil}
	}
	x := &baseMsg{}
	return &accMsg{x, kind, &x.Base, nil}
}

func oneU8(p *uint8) interface{} {
	if p == nil {
		return []int{}
	}
	return []int{int(*p)}
}

func oneS(p *string) interface{} {
	if p == nil {
		return []string{}
	}
	return []string{esc([]byte(*p))}
}

// query records what the message says; the pointers are kept for scribbling
func (a *accMsg) query(kept *[]*string) (j J) {
	j = J{"pri": oneU8(a.base.Priority), "fac": oneU8(a.base.Facility), "sev": oneU8(a.base.Severity), "fm": []string{}, "fl": []string{}, "sm": []string{}, "sl": []string{},
		"ss": []string{}, "valid": false, "panic": ""}
	defer func() {
		if p := recover(); p != nil {
			j["panic"] = fmt.Sprint(p)
		}
	}()
	get := func(n string, f func() *string) {
		p := f()
		j[n] = oneS(p)
		if p != nil {
			*kept = append(*kept, p)
		}
	}
	j["valid"] = a.m.Valid()
	get("fm", a.m.FacilityMessage)
	get("fl", a.m.FacilityLevel)
	get("sm", a.m.SeverityMessage)
	get("sl", a.m.SeverityLevel)
	get("ss", a.m.SeverityShortLevel)
	return
}

type accHist struct {
	a    *accMsg
	kept []*string
	evs  []J
}

func (h *accHist) do(op string, kind string, p, v int, src int) {
	j := J{"op": op}
	switch op {
	case "new":
		j["kind"] = kind
		h.a = newAcc(kind)
	case "parsed":
		a := parsedAcc(kind, p, v, src)
		if a == nil {
			return
		}
		j["kind"], j["p"] = kind, p
		j["v"] = v
		h.a = a
	case "compute":
		j["p"] = p
		h.a.m.ComputeFromPriority(uint8(p))
	case "priority":
		if h.a.five == nil {
			return
		}
		j["p"] = p
		h.a.five.SetPriority(uint8(p))
	case "version":
		if h.a.five == nil {
			return
		}
		j["v"] = v
		h.a.five.SetVersion(uint16(v))
	case "rawversion":
		if h.a.five == nil {
			return
		}
		j["v"] = v
		h.a.five.Version = uint16(v)
	case "rawfac", "rawsev", "rawpri": // the program assigns the field; p < 0 for nil
		var x *uint8
		j["o"] = []int{}
		if p >= 0 {
			y := uint8(p)
			x = &y
			j["o"] = []int{p}
		}
		switch op {
		case "rawfac":
			h.a.base.Facility = x
		case "rawsev":
			h.a.base.Severity = x
		default:
			h.a.base.Priority = x
		}
	case "scribble":
		for _, p := range h.kept {
			*p = "scribbled"
		}
		h.kept = nil
	}
	j["q"] = h.a.query(&h.kept)
	h.evs = append(h.evs, j)
}

// parsedAcc parses a message with that priority (and version); nil if the
// parser does not return one (other properties' business)
func parsedAcc(kind string, p, v, src int) *accMsg {
	defer func() { recover() }()
	if kind == "5424" {
		in := []string{"<%d>%d - - - - - -", "<%d>%d 2003-10-11T22:14:15.003Z h a p m [i n=\"v\"] text", "<%d>%d \x01", "<%d>%d"}[src%4]
		m, _ := mach5424([]int{cfgMS, cfgPS, cfgMB, cfgPB}[src%4], src%8 >= 4).Parse([]byte(fmt.Sprintf(in, p, v)))
		if x, ok := m.(*rfc5424.SyslogMessage); ok && x != nil {
			return &accMsg{x, kind, &x.Base, x}
		}
		return nil
	}
	in := []string{"<%d>Oct 11 22:14:15 h t: m", "<%d>Oct 11 22:14:15 h text", "<%d>\x01", "<%d>Oct 11 22:14:15 h t[1"}[src%4]
	m, _ := mach3164([]int{cfgMS, cfgPS, cfgMB, cfgPB}[src%4], objOpts3164[src/4%len(objOpts3164)]).Parse([]byte(fmt.Sprintf(in, p)))
	if x, ok := m.(*rfc3164.SyslogMessage); ok && x != nil {
		return &accMsg{x, kind, &x.Base, nil}
	}
	return nil
}

func tacc(args map[string]string) {
	out := newNdj(args["out"])
	r := rand.New(rand.NewSource(int64(atoi(args["seed"]))))
	queries, parsed := 0, 0
	emit := func(h *accHist) {
		if len(h.evs) > 0 {
			out.add(J{"evs": h.evs})
		}
		queries += len(h.evs)
	}
	kinds := []string{"5424", "3164", "base"}
	for _, k := range kinds {
		// every priority on a new message and on one that had another
		h := &accHist{}
		h.do("new", k, 0, 0, 0)
		for p := 0; p < 256; p++ {
			h.do("compute", k, p, 0, 0)
		}
		for p := 255; p >= 0; p -= 3 {
			h.do("compute", k, p, 0, 0)
			h.do("scribble", k, 0, 0, 0)
		}
		emit(h)
		h = &accHist{}
		for p := 0; p < 256; p++ {
			h.do("new", k, 0, 0, 0)
			h.do("compute", k, p, 0, 0)
		}
		emit(h)
	}
	for _, k := range kinds[:2] {
		n := 8
		if k == "3164" {
			n = 24
		}
		for src := 0; src < n; src++ {
			h := &accHist{}
			for p := 0; p < 192; p++ {
				v := 0
				if k == "5424" {
					v = []int{1, 2, 12, 999, 1 + r.Intn(999)}[r.Intn(5)]
				}
				h.do("parsed", k, p, v, src)
				if r.Intn(4) == 0 && len(h.evs) > 0 {
					h.do("scribble", k, 0, 0, 0)
				}
			}
			parsed += len(h.evs)
			emit(h)
		}
	}
	// fields assigned by the program, with and without a priority
	for _, k := range kinds {
		for _, pri := range []int{-1, 0, 13, 110, 191} {
			h := &accHist{}
			h.do("new", k, 0, 0, 0)
			if pri >= 0 {
				h.do("compute", "", pri, 0, 0)
			}
			for f := -1; f < 26; f++ {
				h.do("rawfac", "", f, 0, 0)
			}
			h.do("compute", "", 191-r.Intn(192), 0, 0)
			for s := 9; s >= -1; s-- {
				h.do("rawsev", "", s, 0, 0)
			}
			h.do("rawfac", "", r.Intn(24), 0, 0)
			for _, p := range []int{191, 192, 255, -1, 0, 7} {
				h.do("rawpri", "", p, 0, 0)
			}
			h.do("compute", "", r.Intn(192), 0, 0)
			emit(h)
		}
	}
	// the builder's setters
	h := &accHist{}
	for p := 0; p < 256; p++ {
		h.do("new", "5424", 0, 0, 0)
		h.do("priority", "", p, 0, 0)
		h.do("version", "", 0, 1+r.Intn(999), 0)
	}
	emit(h)
	h = &accHist{}
	h.do("new", "5424", 0, 0, 0)
	for p := 0; p < 256; p++ {
		h.do("priority", "", r.Intn(256), 0, 0)
		h.do("priority", "", p, 0, 0)
	}
	emit(h)
	// every version of interest with and without a priority
	for _, pri := range []int{-1, 0, 7, 191, 192, 255} {
		h := &accHist{}
		h.do("new", "5424", 0, 0, 0)
		if pri >= 0 {
			h.do("compute", "", pri, 0, 0)
		}
		for v := 0; v < 1100; v++ {
			h.do("rawversion", "", 0, v, 0)
		}
		for _, v := range []int{1999, 9999, 10000, 32768, 65535, 256, 257, 1024, 512} {
			h.do("rawversion", "", 0, v, 0)
			h.do("version", "", 0, v, 0)
		}
		for v := 0; v < 1100; v += 7 {
			h.do("rawversion", "", 0, 0, 0)
			h.do("version", "", 0, v, 0)
		}
		emit(h)
	}
	// random histories
	for n := atoi(args["random"]); n > 0; n-- {
		h := &accHist{}
		h.do("new", kinds[r.Intn(3)], 0, 0, 0)
		for k := 2 + r.Intn(20); k > 0; k-- {
			v := []int{0, 1, 9, 999, 1000, r.Intn(1100), r.Intn(65536)}[r.Intn(7)]
			switch r.Intn(10) {
			case 8, 9:
				h.do([]string{"rawfac", "rawsev", "rawpri"}[r.Intn(3)], "", []int{-1, r.Intn(8), r.Intn(24), r.Intn(256)}[r.Intn(4)], 0, 0)
			case 0:
				h.do("new", kinds[r.Intn(3)], 0, 0, 0)
			case 1:
				h.do("parsed", "5424", r.Intn(192), 1+r.Intn(999), r.Intn(8))
			case 2:
				h.do("parsed", "3164", r.Intn(192), 0, r.Intn(24))
			case 3:
				h.do("compute", "", r.Intn(256), 0, 0)
			case 4:
				h.do("priority", "", r.Intn(256), 0, 0)
			case 5:
				h.do("version", "", 0, v, 0)
			case 6:
				h.do("rawversion", "", 0, v, 0)
			case 7:
				h.do("scribble", "", 0, 0, 0)
			}
		}
		emit(h)
	}
	out.close()
	writeJSON(args["stats"], J{"traces": out.n, "queries": queries, "parsed_messages": parsed})
}

// ------------------------------------------------------ trailer types (C25)

func loadTexts(path string) map[string]string {
	f, err := os.Open(path)
	fatal(err)
	defer f.Close()
	m := map[string]string{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		if !strings.HasPrefix(sc.Text(), `"TEXT `) {
			continue
		}
		var s string
		fatal(json.Unmarshal(sc.Bytes(), &s))
		var x struct {
			T string
			S []int
		}
		fatal(json.Unmarshal([]byte(s[5:]), &x))
		b := make([]byte, len(x.S))
		for i, c := range x.S {
			b[i] = byte(c)
		}
		m[string(b)] = x.T
	}
	if len(m) == 0 {
		fatal(fmt.Errorf("no texts in %s", path))
	}
	return m
}

// conv calls one of the conversions from text
func conv(op, s string, before nontransparent.TrailerType) (v nontransparent.TrailerType, failed bool, pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprint("panic: ", p)
		}
	}()
	var err error
	switch op {
	case "string":
		v, err = nontransparent.TrailerTypeFromString(s)
	case "text":
		v = before
		err = v.UnmarshalText([]byte(s))
	case "toml":
		v = before
		err = v.UnmarshalTOML([]byte(s))
	case "json":
		v = before
		b, e := json.Marshal(s)
		fatal(e)
		err = json.Unmarshal(b, &v)
	}
	return v, err != nil, ""
}

func convJ(op, s string, before nontransparent.TrailerType) J {
	v, e, p := conv(op, s, before)
	return J{"op": op, "in": bytesJ(s), "v": strconv.FormatInt(int64(v), 10), "err": e, "panic": p}
}

// typeJs records everything about one integer
func typeJs(n int64) (js []J) {
	t := nontransparent.TrailerType(n)
	name := strconv.FormatInt(n, 10)
	guard := func(j J, f func()) {
		j["panic"] = ""
		defer func() {
			if p := recover(); p != nil {
				j["panic"] = fmt.Sprint("panic: ", p)
			}
			js = append(js, j)
		}()
		f()
	}
	j := J{"op": "value", "t": name, "n": -2, "err": false}
	guard(j, func() { v, err := t.Value(); j["n"], j["err"] = v, err != nil })
	j2 := J{"op": "marshal", "t": name, "out": []int{}, "err": false}
	guard(j2, func() { b, err := t.MarshalText(); j2["out"], j2["err"] = bytesJ(string(b)), err != nil })
	j3 := J{"op": "name", "t": name, "out": []int{}}
	guard(j3, func() { j3["out"] = bytesJ(t.String()) })
	return
}

// withJ gives the options to a new parser and observes its trailer
func withJ(ts []int64, mixed *rand.Rand) J {
	names := []string{}
	for _, t := range ts {
		names = append(names, strconv.FormatInt(t, 10))
	}
	j := J{"op": "with", "ts": names, "n": -1, "panic": ""}
	defer func() {
		if p := recover(); p != nil {
			j["panic"] = fmt.Sprint("panic: ", p)
		}
	}()
	var got []string
	os := []syslog.ParserOption{}
	for _, t := range ts {
		os = append(os, nontransparent.WithTrailer(nontransparent.TrailerType(t)))
	}
	l := syslog.WithListener(func(r *syslog.Result) {
		if m, ok := r.Message.(*rfc5424.SyslogMessage); ok && m != nil && m.Message != nil {
			got = append(got, *m.Message)
		} else {
			got = append(got, "?")
		}
	})
	if mixed != nil {
		i := mixed.Intn(len(os) + 1)
		os = append(os[:i:i], append([]syslog.ParserOption{l}, os[i:]...)...)
		if mixed.Intn(2) == 0 {
			os = append(os, syslog.WithBestEffort())
		}
	} else {
		os = append(os, l)
	}
	p := nontransparent.NewParser(os...)
	p.Parse(bytes.NewReader([]byte("<1>1 - - - - - - a\n<2>1 - - - - - - b\x00<3>1 - - - - - - c\x00")))
	lf, nul := "a|b\x00<3>1 - - - - - - c\x00", "a\n<2>1 - - - - - - b|c"
	switch strings.Join(got, "|") {
	case lf:
		j["n"] = 10
	case nul:
		j["n"] = 0
	}
	return j
}

func ttrailer(args map[string]string) {
	texts := loadTexts(args["texts"])
	seed := int64(atoi(args["seed"]))
	deep := args["deep"] == "1"
	dl := time.Now().Add(time.Duration(atoi(args["secs"])) * time.Second)
	var mu sync.Mutex
	var cands []J
	var n int64
	ops := []string{"string", "text", "toml", "json"}
	befores := []nontransparent.TrailerType{-1, 7}
	// one text with every conversion
	check := func(s string, all bool) {
		want, ok := texts[s]
		m := 1
		if all {
			m = 4
		}
		for k := 0; k < m; k++ {
			b := befores[len(s)%2]
			v, e, p := conv(ops[k], s, b)
			if p != "" || ok && (e || strconv.FormatInt(int64(v), 10) != want) || !ok && (!e || v == 0 || v == 1) {
				mu.Lock()
				if len(cands) < 300 {
					cands = append(cands, convJ(ops[k], s, b))
				}
				mu.Unlock()
			}
		}
		atomic.AddInt64(&n, int64(m))
	}
	// all byte strings up to three bytes
	check("", true)
	pool(256, seed, dl, func(i int, _ *rand.Rand) {
		check(string([]byte{byte(i)}), true)
		for a := 0; a < 256; a++ {
			check(string([]byte{byte(i), byte(a)}), true)
			for b := 0; b < 256; b++ {
				check(string([]byte{byte(i), byte(a), byte(b)}), deep)
			}
		}
	})
	// all short texts over the bytes that matter
	al := "LlFfNnUu\"' \n"
	max := 5
	if deep {
		max = 6
	}
	pool(len(al)*len(al), seed, dl.Add(30*time.Second), func(i int, _ *rand.Rand) {
		var rec func(s string)
		rec = func(s string) {
			check(s, true)
			if len(s) < max {
				for k := 0; k < len(al); k++ {
					rec(s + al[k:k+1])
				}
			}
		}
		rec(string([]byte{al[i/len(al)], al[i%len(al)]}))
	})
	// every accepted text with one byte changed, inserted or removed, and with
	// one character replaced by every other one
	var ts []string
	for s := range texts {
		ts = append(ts, s)
	}
	// ... and with more around it on both sides
	around := []string{"", "\"\"\"", "'''", "\ufeff", "trailer=", "trailer = ", "# ", " #", "\\n", "LF", "NUL", "\x00\x00\x00", "\u00a0", "null", "0", "10"}
	for _, a := range "\"' \t\n\r\x00,;=[]{}\\#+-./:" {
		around = append(around, string(a))
		for _, b := range "\"' \t\n\x00[]\\" {
			around = append(around, string(a)+string(b))
		}
	}
	pool(len(ts), seed, dl.Add(60*time.Second), func(i int, _ *rand.Rand) {
		s := ts[i]
		check(s, true)
		for k := 0; k <= len(s); k++ {
			for b := 0; b < 256; b++ {
				check(s[:k]+string([]byte{byte(b)})+s[k:], true)
				if k < len(s) {
					check(s[:k]+string([]byte{byte(b)})+s[k+1:], true)
				}
			}
			if k < len(s) {
				check(s[:k]+s[k+1:], true)
			}
		}
		check(s+s, true)
		for _, a := range around {
			for _, b := range around {
				check(a+s+b, true)
			}
		}
		if deep || len(s) <= 3 {
			for k := 0; k < len(s); k++ {
				for c := 0x80; c < 0x110000; c++ {
					check(s[:k]+string(rune(c))+s[k+1:], false)
				}
			}
		}
	})
	out := newNdj(args["out"])
	for i := 0; i < len(cands) && i < 40; i++ {
		out.add(J{"evs": []J{cands[i]}})
	}
	nc := out.n
	// recorded for TLC: all accepted texts, a sample of the others, all types, options
	r := rand.New(rand.NewSource(seed))
	var evs []J
	for s := range texts {
		for _, op := range ops {
			evs = append(evs, convJ(op, s, befores[r.Intn(2)]))
		}
	}
	flush := func() {
		if len(evs) > 0 {
			out.add(J{"evs": evs})
		}
		evs = nil
	}
	flush()
	for i := 0; i < atoi(args["sample"]); i++ {
		s := ts[r.Intn(len(ts))]
		for k := 1 + r.Intn(3); k > 0; k-- {
			s = string(mutate(r, []byte(s)))
		}
		evs = append(evs, convJ(ops[r.Intn(4)], s, befores[r.Intn(2)]))
		if len(evs) == 200 {
			flush()
		}
	}
	flush()
	ints := []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt32, math.MaxInt32, 1 << 32, 1<<32 + 1, -1 << 32, 1 << 16, 1<<16 + 1, 1 << 62, -1 << 62}
	for t := int64(-1100); t <= 1100; t++ {
		ints = append(ints, t)
	}
	for k := 0; k < 200; k++ {
		ints = append(ints, int64(r.Uint64()))
	}
	for _, t := range ints {
		evs = append(evs, typeJs(t)...)
		if len(evs) >= 200 {
			flush()
		}
	}
	flush()
	for _, t := range ints {
		evs = append(evs, withJ([]int64{t}, nil), withJ([]int64{1, t}, r))
		if len(evs) >= 200 {
			flush()
		}
	}
	for k := 0; k < atoi(args["sample"]); k++ {
		var l []int64
		for m := r.Intn(5); m > 0; m-- {
			l = append(l, []int64{0, 1, 0, 1, 2, -1, 10, ints[r.Intn(len(ints))]}[r.Intn(8)])
		}
		evs = append(evs, withJ(l, r))
		if len(evs) >= 200 {
			flush()
		}
	}
	flush()
	out.close()
	writeJSON(args["stats"], J{"conversions": n, "mismatches": len(cands), "candidates": nc, "traces": out.n, "types": len(ints)})
}
