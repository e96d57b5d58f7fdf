package main

// Histories of parser objects made with sequences of options, see Options.tla.

import (
	"fmt"
	"math/rand"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

type popt struct {
	o string
	v []int
	f syslog.MachineOption
}

// one value of each option, used for every object that is given it
var popts5424 = []popt{{"be", []int{}, rfc5424.WithBestEffort()}, {"cmp", []int{}, rfc5424.WithCompliantMsg()}}
var popts3164 []popt

func init() {
	popts3164 = []popt{{"be", []int{}, rfc3164.WithBestEffort()}, {"rfc", []int{}, rfc3164.WithRFC3339()},
		{"loc", []int{}, rfc3164.WithLocaleTimezone(nil)}, {"zone", []int{}, rfc3164.WithTimezone(nil)}}
	for _, y := range []int{2020, 1999, 0} {
		popts3164 = append(popts3164, popt{"year", []int{y}, rfc3164.WithYear(rfc3164.Year{YYYY: y})})
	}
	for _, s := range []int{0, 7200, -16200} {
		z := time.FixedZone(fmt.Sprint("F", s), s)
		popts3164 = append(popts3164, popt{"loc", []int{s}, rfc3164.WithLocaleTimezone(z)}, popt{"zone", []int{s}, rfc3164.WithTimezone(z)})
	}
}

type ohist struct {
	objs  []syslog.Machine
	kinds []string
	evs   []J
}

func (h *ohist) event(j J, f func()) {
	p := ""
	watched(func() J {
		j["panic"], j["has"] = didNotReturn, []bool{}
		return J{"evs": append(append([]J{}, h.evs...), j)}
	}, func() {
		defer func() {
			if x := recover(); x != nil {
				p = fmt.Sprint(x)
			}
		}()
		f()
	})
	has := []bool{}
	for _, m := range h.objs {
		has = append(has, m.HasBestEffort())
	}
	j["panic"], j["has"] = p, has
	h.evs = append(h.evs, j)
}

func (h *ohist) make(kind string, parser bool, os []popt) {
	var fs []syslog.MachineOption
	js := []J{}
	for _, o := range os {
		fs = append(fs, o.f)
		js = append(js, J{"o": o.o, "v": o.v})
	}
	h.kinds = append(h.kinds, kind)
	h.event(J{"op": "new", "kind": kind, "parser": parser, "opts": js}, func() {
		mk := map[string]func(...syslog.MachineOption) syslog.Machine{"5424": rfc5424.NewMachine, "3164": rfc3164.NewMachine}[kind]
		if parser {
			mk = map[string]func(...syslog.MachineOption) syslog.Machine{"5424": rfc5424.NewParser, "3164": rfc3164.NewParser}[kind]
		}
		h.objs = append(h.objs, mk(fs...))
	})
}

func (h *ohist) on(k int) {
	h.event(J{"op": "on", "obj": k + 1}, func() { h.objs[k].WithBestEffort() })
}

func (h *ohist) parse(k int, in string) {
	j := J{"op": "parse", "obj": k + 1, "in": bytesJ(in), "res": J{"panic": didNotReturn, "msg": []J{}, "err": []string{}}, "last": []J{}}
	h.event(j, func() {
		if h.kinds[k] == "5424" {
			j["res"] = res5424J(parse5424(h.objs[k], []byte(in)))
		} else {
			j["res"] = res3164J(parse3164(h.objs[k], []byte(in)))
		}
		// what the object itself says about its last call
		if e, ok := h.objs[k].(interface{ Err() error }); ok {
			j["last"] = []J{{"err": errJ(e.Err())}}
		}
	})
}

var optProbes = map[string][]string{
	"5424": {"<165>1 2003-10-11T22:14:15.003Z h a p m [i n=\"v\"] text", "<13>1 - h - - - - \xef\xbb\xbfa\xffb", "<13>1 - h - - - - a\xffb", "<13>2 - \x01", "<192", "<7>999 - - - - - [i n=\"\\x"},
	"3164": {"<13>Feb 28 23:59:59 h t[1]: m", "<13>Mar  1 00:30:00 h text", "<13>2003-10-11T22:14:15+02:00 h t: m", "<13>Feb 30 00:00:00 h t: m", "<13>Oct 11 22:14:15 h\x01", "<x"},
}

func topts(args map[string]string) {
	startWatch(args)
	seed := int64(atoi(args["seed"]))
	r := rand.New(rand.NewSource(seed + 31))
	out := newNdj(args["out"])
	parses, samples := 0, []string{}
	add := func(h *ohist) {
		for _, e := range h.evs {
			if e["op"] == "parse" {
				parses++
			}
		}
		out.add(J{"evs": h.evs})
	}
	all := map[string][]popt{"5424": popts5424, "3164": popts3164}
	full := func(kind string, os []popt) {
		h := &ohist{}
		h.make(kind, false, os)
		h.make(kind, true, os)
		for round := 0; round < 2; round++ {
			for k := range h.objs {
				if round == 1 {
					h.on(k)
				}
				for _, p := range optProbes[kind] {
					h.parse(k, p)
				}
			}
		}
		add(h)
	}
	var rec func(kind string, os []popt, n int)
	rec = func(kind string, os []popt, n int) {
		full(kind, os)
		if len(os) < n {
			for _, o := range all[kind] {
				rec(kind, append(append([]popt{}, os...), o), n)
			}
		}
	}
	depth := atoi(args["depth"])
	rec("5424", nil, depth+2)
	rec("3164", nil, depth)
	nsys := out.n
	for i := 0; i < atoi(args["random"]); i++ {
		h := &ohist{}
		nobj := 1 + r.Intn(4)
		for k := 0; k < nobj; k++ {
			kind := []string{"5424", "3164"}[r.Intn(2)]
			var os []popt
			for n := r.Intn(10); n > 0; n-- {
				os = append(os, all[kind][r.Intn(len(all[kind]))])
			}
			h.make(kind, r.Intn(2) == 0, os)
			for n := r.Intn(4); n > 0; n-- {
				c := r.Intn(len(h.objs))
				switch r.Intn(6) {
				case 0:
					h.on(c)
				case 1:
					in := gen5424(r)
					if h.kinds[c] == "3164" {
						in = gen3164(r)
					}
					if len(in) < 150 {
						h.parse(c, string(in))
					}
				default:
					ps := optProbes[h.kinds[c]]
					h.parse(c, ps[r.Intn(len(ps))])
				}
			}
		}
		for c := range h.objs {
			for _, p := range optProbes[h.kinds[c]] {
				h.parse(c, p)
			}
		}
		add(h)
		if i < 4 {
			samples = append(samples, trunc(fmt.Sprint(h.evs[0]["opts"], " ", h.evs[len(h.evs)-1]["res"]), 300))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"systematic_histories": nsys, "histories": out.n, "parses": parses, "samples": samples})
}
