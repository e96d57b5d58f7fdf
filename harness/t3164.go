package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/influxdata/go-syslog/v3/rfc3164"
)

type cand3164 struct {
	in []byte
	o  opt3164
	rs [4]res3164
	x  *exp3164
}

// pool runs f(0..n-1) on 8 workers, each with its own random source, until
// the deadline.
func pool(n int, seed int64, dl time.Time, f func(i int, r *rand.Rand)) int {
	var wg sync.WaitGroup
	const w = 8
	var done [w]int
	for j := 0; j < w; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*1000003 + int64(j) + 17))
			for i := j; i < n; i += w {
				if i%64 == j && time.Now().After(dl) {
					return
				}
				f(i, r)
				done[j]++
			}
		}(j)
	}
	wg.Wait()
	s := 0
	for _, d := range done {
		s += d
	}
	return s
}

func rand3164(r *rand.Rand, tables map[string]*table) []byte {
	if r.Intn(5) == 0 {
		t := tables["rfc3339"]
		w := t.walk(r, t.init, r.Intn(300), r.Intn(3) > 0)
		if r.Intn(4) == 0 {
			w = mutate(r, w)
		}
		return w
	}
	return gen3164(r)
}

func t3164(args map[string]string) {
	tables := loadTables(args["table"], acts3164)
	errText3164 = loadErrTexts(args["table"])
	tables3164[false], tables3164[true] = tables["plain"], tables["rfc3339"]
	startWatch(args)
	bit := clauseBit[args["prop"]]
	seed := int64(atoi(args["seed"]))
	dl := time.Now().Add(time.Duration(atoi(args["secs"])) * time.Second)
	var mu sync.Mutex
	var cands []cand3164
	inputs, accepted, mism := 0, 0, 0
	tab := func(o opt3164) *table {
		if o.rfc {
			return tables["rfc3339"]
		}
		return tables["plain"]
	}
	check := func(in []byte, o opt3164) {
		x := tab(o).run3164(in)
		if x.nearTransition(o) {
			o.locale = nil
		}
		rs := run4x3164(in, o)
		bad := judge3164(x, rs, o)&bit != 0
		mu.Lock()
		inputs++
		if x.acc {
			accepted++
		}
		if bad {
			mism++
			if len(cands) < 4000 {
				cands = append(cands, cand3164{append([]byte{}, in...), o, rs, x})
			}
		}
		mu.Unlock()
	}
	plain := opt3164{}
	states, edges, covered, edgeInputs := 0, 0, 0, 0
	for _, v := range []string{"plain", "rfc3339"} {
		t := tables[v]
		states, edges = states+len(t.states), edges+t.nEdges
		vo := opt3164{rfc: v == "rfc3339"}
		before := inputs
		covered += pool(len(t.states)*256, seed, dl, func(i int, r *rand.Rand) {
			s := t.states[i/256]
			b := byte(i % 256)
			if len(s.classes) == 0 || s.depth < 0 {
				return
			}
			in := append(append([]byte{}, s.access...), b)
			check(in, vo)
			to := s.edges[b].to
			if t.states[to].fail == "" {
				if c, ok := t.completion(to); ok && len(c) > 0 {
					check(append(append([]byte{}, in...), c...), vo)
				}
				check(append(append([]byte{}, in...), t.walk(r, to, r.Intn(40), true)...), vo)
			} else {
				check(append(append([]byte{}, in...), t.completion2(r, s)...), vo)
				check(append(append([]byte{}, in...), "\n<1>Oct 11 22:14:15 h t: m"...), vo)
			}
		})
		edgeInputs += inputs - before
	}
	var fam [][]byte
	families3164(func(b []byte) { fam = append(fam, b) })
	nfam := len(fam)
	scale3164(func(b []byte) { fam = append(fam, b) })
	pool(len(fam), seed, dl, func(i int, r *rand.Rand) {
		check(fam[i], plain)
		check(fam[i], opt3164{rfc: true})
		check(fam[i], randOpt3164(r))
	})
	if args["prop"] == "C07" {
		// every stamp day of a year in every kind of year and zone
		pool(366*20*len(zones), seed, dl, func(i int, r *rand.Rand) {
			d := time.Date(2020, 1, 1+i%366, r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
			o := randOpt3164(r)
			o.hasYear, o.year = true, []int{0, 1, 4, 99, 100, 400, 1900, 1970, 2000, 2019, 2020, 2021, 2023, 2024, 2100, 9999, -1, -4, -100, 12000}[i/366%20]
			z := zones[i/366/20]
			if i%2 == 0 {
				o.locale = z
			} else {
				o.zone = z
			}
			check([]byte("<13>"+d.Format(time.Stamp)+" h t: m"), o)
		})
		// the current year strategy
		y0 := time.Now().Year()
		m, err := rfc3164.NewMachine(rfc3164.WithYear(rfc3164.CurrentYear{})).Parse([]byte("<13>Jun 15 12:00:00 h t: m"))
		y1 := time.Now().Year()
		if y0 == y1 {
			in := []byte("<13>Jun 15 12:00:00 h t: m")
			o := opt3164{hasYear: true, year: y0}
			x := tables["plain"].run3164(in)
			rs := run4x3164(in, o)
			rs[cfgMS] = res3164{err: err}
			if sm, ok := m.(*rfc3164.SyslogMessage); ok {
				rs[cfgMS].msg = sm
			}
			rs[cfgPS] = rs[cfgMS]
			if judge3164(x, rs, o)&bit != 0 {
				mism++
				cands = append(cands, cand3164{in, o, rs, x})
			}
		}
	}
	nr := pool(atoi(args["random"]), seed+5, dl, func(i int, r *rand.Rand) { check(rand3164(r, tables), randOpt3164(r)) })
	out := newNdj(args["out"])
	sort.SliceStable(cands, func(a, b int) bool { return len(cands[a].in) < len(cands[b].in) })
	size := 0
	for i, c := range cands {
		if i >= 100 || i > 0 && size+len(c.in) > 300000 {
			break
		}
		size += len(c.in)
		out.add(trace3164J(c.in, c.o, c.rs, c.x))
	}
	nc := out.n
	r := rand.New(rand.NewSource(seed + 99))
	var samples []string
	for i := 0; i < atoi(args["sample"]); i++ {
		var in []byte
		for {
			if i%5 == 4 {
				in = fam[r.Intn(nfam)]
			} else {
				in = rand3164(r, tables)
			}
			if len(in) < 700 {
				break
			}
		}
		o := randOpt3164(r)
		x := tab(o).run3164(in)
		if x.nearTransition(o) {
			o.locale = nil
		}
		out.add(trace3164J(in, o, run4x3164(in, o), x))
		if i < 6 {
			samples = append(samples, fmt.Sprintf("%q options %v", in, o.names()))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"states": states, "edges": edges, "edges_covered": covered, "inputs": inputs, "calls": 4 * inputs, "accepted": accepted,
		"mismatches": mism, "candidates": nc, "traces": out.n, "edge_inputs": edgeInputs, "random_inputs": nr, "samples": samples})
}
