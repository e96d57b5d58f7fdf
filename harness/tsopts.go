package main

// Histories of stream parsers made with sequences of options and given more
// later, see StreamOptions.tla.

import (
	"bytes"
	"fmt"
	"math/rand"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

type sopt struct {
	o    string
	v    []int
	f    syslog.ParserOption
	late func(p syslog.Parser) // the same by a method of the parser
}

func (o sopt) json() J { return J{"o": o.o, "v": o.v} }

// shist: all listeners report to the history they belong to
type shist struct {
	objs []syslog.Parser
	nt   []bool
	evs  []J
	res  []J
	r    *rand.Rand
	all  map[bool][]sopt
}

func newShist(r *rand.Rand) *shist {
	h := &shist{r: r, all: map[bool][]sopt{}}
	common := []sopt{{"be", []int{}, syslog.WithBestEffort(), func(p syslog.Parser) { p.WithBestEffort() }}}
	for k := 1; k <= 2; k++ {
		k := k
		l := func(x *syslog.Result) {
			j := J{"l": k, "msg": []J{}, "err": []string{}, "raw": []string{}}
			if x.Error != nil { // err: with escapes; raw: as it is, if that is plain text
				e := normErr(x.Error)
				j["err"] = []string{esc([]byte(e))}
				if bytes.IndexFunc([]byte(e), func(c rune) bool { return c < 32 || c > 126 }) < 0 {
					j["raw"] = []string{e}
				}
			}
			if m, ok := x.Message.(*rfc5424.SyslogMessage); ok && m != nil {
				j["msg"] = []J{msg5424J(m)}
			} else if x.Message != nil {
				j["err"] = []string{fmt.Sprintf("message is a %T", x.Message)}
			}
			h.res = append(h.res, j)
			if len(h.res) > 1000 {
				panic("results without end")
			}
		}
		common = append(common, sopt{"lst", []int{k}, syslog.WithListener(l), func(p syslog.Parser) { p.WithListener(l) }})
	}
	for _, n := range []int{17, 8192, 40, -1, 0, 9000} {
		n := n
		common = append(common, sopt{"max", []int{n}, syslog.WithMaxMessageLength(n), func(p syslog.Parser) { p.WithMaxMessageLength(n) }})
	}
	h.all[false] = common
	h.all[true] = append([]sopt{}, common[:5]...)
	for i, t := range []nontransparent.TrailerType{nontransparent.LF, nontransparent.NUL, -1} {
		f := nontransparent.WithTrailer(t)
		h.all[true] = append(h.all[true], sopt{"tr", [][]int{{10}, {0}, {}}[i], f, func(p syslog.Parser) { f(p) }})
	}
	return h
}

func (h *shist) event(j J, f func()) {
	p := ""
	h.res = nil
	watched(func() J {
		return J{"evs": append(append([]J{}, h.evs...), J{"op": "none", "panic": didNotReturn, "has": []bool{}})}
	}, func() {
		defer func() {
			if x := recover(); x != nil {
				p = fmt.Sprint(x)
			}
		}()
		f()
	})
	has := []bool{}
	for _, m := range h.objs {
		has = append(has, m.HasBestEffort())
	}
	j["panic"], j["has"] = p, has
	if j["op"] == "parse" {
		j["res"] = h.res
		if h.res == nil {
			j["res"] = []J{}
		}
	}
	h.evs = append(h.evs, j)
}

func (h *shist) make(nt bool, os []sopt) {
	var fs []syslog.ParserOption
	js := []J{}
	for _, o := range os {
		fs = append(fs, o.f)
		js = append(js, o.json())
	}
	h.nt = append(h.nt, nt)
	kind := "octet"
	if nt {
		kind = "nt"
	}
	h.event(J{"op": "new", "kind": kind, "opts": js}, func() {
		if nt {
			h.objs = append(h.objs, nontransparent.NewParser(fs...))
		} else {
			h.objs = append(h.objs, octetcounting.NewParser(fs...))
		}
	})
}

func (h *shist) set(k int, o sopt) {
	h.event(J{"op": "set", "obj": k + 1, "opt": o.json()}, func() {
		if h.r.Intn(2) == 0 {
			o.late(h.objs[k])
		} else {
			o.f(h.objs[k])
		}
	})
}

func (h *shist) parse(k int, in string) {
	h.event(J{"op": "parse", "obj": k + 1, "in": bytesJ(in)}, func() { h.objs[k].Parse(bytes.NewReader([]byte(in))) })
}

var soptProbes = map[bool][]string{
	false: {frameOf("<1>1 - - - - - -") + frameOf("<2>1 - h - - - - m") + "0", frameOf("<13>1 - \x01 - - - -") + frameOf("<1>2 - - - - - - text") + "40 <9>1 - h",
		"41 <1>1", "8193 <1>1", "9001 <1>1", "8192 <1>1 - h", "1 <16 <1>1 - - - - - -"},
	true: {"<1>1 - - - - - -\n<2>1 - - - - - - a\x00<3>1 - h - - - - b\n<4>1 - -\n", "<1>1 - \x01 - - - -\x00<2>1 - - - - - - m\n\x00<3>1 - h a", "<7>2 x", "<1>1 - - - - - - \n\n<1>1 - - - - - -"},
}

func tsopts(args map[string]string) {
	startWatch(args)
	seed := int64(atoi(args["seed"]))
	r := rand.New(rand.NewSource(seed + 37))
	out := newNdj(args["out"])
	parses, samples := 0, []string{}
	add := func(h *shist) {
		for _, e := range h.evs {
			if e["op"] == "parse" {
				parses++
			}
		}
		out.add(J{"evs": h.evs})
	}
	// every sequence of options, given at once or from some point on later
	n := atoi(args["depth"])
	for _, nt := range []bool{false, true} {
		nOpts := len(newShist(r).all[nt])
		var rec func(w []int)
		rec = func(w []int) {
			for from := 0; from <= len(w); from++ {
				h := newShist(r)
				pick := func(l []int) (o []sopt) {
					for _, i := range l {
						o = append(o, h.all[nt][i])
					}
					return
				}
				h.make(nt, append([]sopt{h.all[nt][1]}, pick(w[:from])...))
				use := func() {
					for i, p := range soptProbes[nt] {
						if len(w) < 3 || (len(h.evs)+i)%3 == 0 {
							h.parse(0, p)
						}
					}
				}
				if from < len(w) && r.Intn(2) == 0 {
					h.parse(0, soptProbes[nt][r.Intn(len(soptProbes[nt]))])
				}
				for _, o := range pick(w[from:]) {
					h.set(0, o)
				}
				use()
				add(h)
			}
			if len(w) < n {
				for i := 0; i < nOpts; i++ {
					rec(append(append([]int{}, w...), i))
				}
			}
		}
		rec(nil)
	}
	nsys := out.n
	for i := 0; i < atoi(args["random"]); i++ {
		h := newShist(r)
		for k := 1 + r.Intn(3); k > 0; k-- {
			nt := r.Intn(2) == 0
			var os []sopt
			for n := r.Intn(8); n > 0; n-- {
				os = append(os, h.all[nt][r.Intn(len(h.all[nt]))])
			}
			h.make(nt, os)
			for n := r.Intn(7); n > 0; n-- {
				c := r.Intn(len(h.objs))
				if all := h.all[h.nt[c]]; r.Intn(2) == 0 {
					h.set(c, all[r.Intn(len(all))])
					continue
				}
				in := []byte(soptProbes[h.nt[c]][r.Intn(len(soptProbes[h.nt[c]]))])
				if r.Intn(3) == 0 {
					if h.nt[c] {
						in = genNT(r, []string{"\n", "\x00"}[r.Intn(2)])
					} else {
						in = genOctet(r, sconf{fmt: "octet", setMax: true, max: 40})
					}
				}
				if len(in) < 300 {
					h.parse(c, string(in))
				}
			}
		}
		for c := range h.objs {
			h.parse(c, soptProbes[h.nt[c]][r.Intn(len(soptProbes[h.nt[c]]))])
		}
		add(h)
		if i < 3 {
			samples = append(samples, trunc(fmt.Sprint(h.evs), 400))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"systematic_histories": nsys, "histories": out.n, "parses": parses, "samples": samples})
}
