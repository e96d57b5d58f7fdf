package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// payload: a message for a frame, mostly well-formed
func payload(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return "<" + string(bytesOf(r, r.Intn(6), "<>1 \nx\x000"))
	case 1:
		return "<1>1 - - - - - -"
	case 2:
		// contains what looks like another frame
		return "<1>1 - - - - - - a\n16 <2>1 - - - - - -"
	case 3:
		return string(mutate(r, []byte("<"+strconv.Itoa(r.Intn(200))+">1 - h a p m - x")))
	case 4:
		return "<" + strconv.Itoa(r.Intn(192)) + ">1 - h a p m [i n=\"v\"] " + string(bytesOf(r, r.Intn(30), "<\n\x00 1ax"))
	case 5:
		return "<" + strconv.Itoa(r.Intn(192)) + ">1 - - - - - - " + string(bytesOf(r, 1+r.Intn(4), "\n\x00 <z"))
	default:
		s := string(gen5424(r))
		if len(s) > 400 && r.Intn(10) > 0 {
			return "<" + strconv.Itoa(r.Intn(192)) + ">1 - h a p m - " + strconv.Itoa(r.Intn(1e9))
		}
		return s
	}
}

func bytesOf(r *rand.Rand, n int, alpha string) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return b
}

func frameOf(p string) string { return strconv.Itoa(len(p)) + " " + p }

// padded: a valid message of exactly n bytes
func padded(n int) string {
	h := "<1>1 - - - - - - "
	if n <= len(h) {
		return "<1>1 - - - - - - "[:n]
	}
	return h + strings.Repeat("m", n-len(h))
}

func genOctet(r *rand.Rand, c sconf) []byte {
	var b strings.Builder
	for n := r.Intn(5); n > 0; n-- {
		p := payload(r)
		if c.setMax && c.max > 0 && c.max < 4000 && r.Intn(3) == 0 {
			p = padded(c.max - 1 + r.Intn(3))
		}
		if p == "" || p[0] != '<' && r.Intn(4) > 0 {
			p = "<" + p
		}
		b.WriteString(frameOf(p))
	}
	switch r.Intn(16) {
	case 0, 1, 2, 3, 4, 5:
	case 6: // short
		p := payload(r)
		b.WriteString(strconv.Itoa(len(p)+1+r.Intn(9)) + " " + p)
	case 7:
		b.WriteString(strconv.Itoa(r.Intn(20)))
	case 8:
		b.WriteString("0" + frameOf(payload(r)))
	case 9:
		b.WriteString([]string{"\n", "\x00", " ", "x", "+", "-", "<", "\r\n"}[r.Intn(8)] + frameOf(payload(r)))
	case 10:
		p := payload(r)
		b.WriteString(strconv.Itoa(len(p)) + []string{"", "  ", "\t", "\x00", "\n", "x ", " \n"}[r.Intn(7)] + p)
	case 11: // long numbers
		d := string(bytesOf(r, 1+r.Intn(25), "0123456789"))
		b.WriteString([]string{"18446744073709551616", "18446744073709551632", "9223372036854775808", "4294967312", "8193", "8192", "99999999999999999999999", "1" + d, d}[r.Intn(9)] + " " + payload(r))
	case 12: // wrong length
		p := payload(r)
		b.WriteString(strconv.Itoa(1+r.Intn(len(p)+1)) + " " + p)
	case 13:
		b.WriteString(strconv.Itoa(1+r.Intn(30)) + " " + strconv.Itoa(r.Intn(10000)) + []string{"", " ", "<", " <1>1"}[r.Intn(4)])
	case 14:
		return mutate(r, []byte(b.String()))
	case 15: // cut
		s := b.String()
		if s != "" {
			return []byte(s[:r.Intn(len(s))])
		}
	}
	return []byte(b.String())
}

func genNT(r *rand.Rand, tr string) []byte {
	var b strings.Builder
	for n := r.Intn(6); n > 0; n-- {
		p := payload(r)
		if p == "" || p[0] != '<' && r.Intn(5) > 0 {
			p = "<" + p
		}
		if r.Intn(3) == 0 {
			p = strings.Replace(p, tr, "_", -1)
		}
		b.WriteString(p + tr)
		if r.Intn(6) == 0 {
			b.WriteString(tr)
		}
	}
	s := b.String()
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		return []byte(s)
	case 5, 6:
		p := payload(r)
		return []byte(s + p)
	case 7:
		if s != "" {
			return []byte(s[:r.Intn(len(s))])
		}
	case 8:
		return []byte(s + string(bytesOf(r, r.Intn(5), "<\n\x00x")))
	case 9:
		return mutate(r, []byte(s))
	}
	return []byte(s)
}

// exhaustive: all words over the alphabet up to a length
func exhaustive(alpha string, n int, f func(string)) {
	var rec func(w string)
	rec = func(w string) {
		f(w)
		if len(w) < n {
			for i := 0; i < len(alpha); i++ {
				rec(w + alpha[i:i+1])
			}
		}
	}
	rec("")
}

type stream struct {
	c sconf
	s string
}

// scaleStreams: many frames, large frames, large streams
func scaleStreams(octet bool, emit func(sconf, string)) {
	m := "<1>1 - - - - - -"
	good := func(i int) string { return fmt.Sprintf("<%d>1 - h a p m - n%d", i%192, i) }
	bad := func(i int) string { return fmt.Sprintf("<%d>1 x%d", i%192, i) }
	frames := func(n int, end func(string) string, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(end(f(i)))
		}
		return b.String()
	}
	mixed := func(i int) string {
		if i%3 == 1 {
			return bad(i)
		}
		return good(i)
	}
	lastBad := func(n int) func(int) string {
		return func(i int) string {
			if i == n-1 {
				return bad(i)
			}
			return good(i)
		}
	}
	sizes := []int{16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 120000, 131072}
	for _, be := range []bool{false, true} {
		if octet {
			for _, x := range []int{65535, 65536, 65537, 99999, 100000, 131072, 200000, 1 << 20} {
				c := sconf{fmt: "octet", be: be, max: x, setMax: true}
				for _, n := range append(sizes, x-1, x, x+1) {
					if n < 140000 {
						emit(c, frameOf(padded(n)))
						emit(c, frameOf(m)+frameOf(padded(n))+frameOf(m))
						emit(c, frameOf(padded(n))[:n])
					}
				}
			}
			for n := 1; n < 1200; n += 1 + n/10 {
				c := sconf{fmt: "octet", be: be}
				emit(c, frames(n, frameOf, good)+frameOf(bad(0))+frameOf(m))
				emit(c, frames(n, frameOf, mixed)+"x")
				emit(c, frames(n, frameOf, lastBad(n))+"77 "+good(1))
				emit(c, frames(n, frameOf, bad)+frameOf(m))
			}
			for _, n := range []int{1, 2, 3, 5, 8, 13, 21, 40, 100, 200, 500} {
				c := sconf{fmt: "octet", be: be}
				for _, x := range []string{"", "0", " ", "<", "\n", "\x00", "16", "16x", "16 ", "16 <1>1 - - - -", "0016 " + m, "8193 " + m, "99999999999999999999 " + m, "16  " + m, "-16 " + m, m} {
					emit(c, frames(n, frameOf, good)+x)
					emit(c, frames(n, frameOf, mixed)+x+frameOf(m))
				}
			}
			for _, l := range []int{1000, 4000, 8000, 8191, 8192} {
				c := sconf{fmt: "octet", be: be}
				emit(c, frames(40, frameOf, func(i int) string { return padded(l - i%20) }))
				emit(c, frames(13, frameOf, func(i int) string { return padded(l - i%2) })+"8193 "+m)
			}
			continue
		}
		for _, f := range []string{"lf", "nul"} {
			c := sconf{fmt: f, be: be}
			tr := map[string]string{"lf": "\n", "nul": "\x00"}[f]
			end := func(s string) string { return s + tr }
			for n := 1; n < 1200; n += 1 + n/10 {
				emit(c, frames(n, end, good)+bad(0)+tr+m+tr)
				emit(c, frames(n, end, mixed)+m)
				emit(c, frames(n, end, lastBad(n))+bad(3))
				emit(c, m+" "+strings.Repeat(tr, n)+m+tr)
				emit(c, m+" "+strings.Repeat("x"+tr, n)+m+tr+m)
				emit(c, m+" "+strings.Repeat("x", n)+tr+strings.Repeat("y", n)+tr+m)
				emit(c, m+tr+m+" "+strings.Repeat("x", n))
				emit(c, m+tr+strings.Repeat("<", n))
			}
			for _, n := range sizes {
				emit(c, padded(n)+tr+m+tr)
				emit(c, m+tr+padded(n))
				emit(c, m+" "+strings.Repeat(strings.Repeat("a", 4999)+tr, n/5000)+tr+m+tr)
				emit(c, m+" "+strings.Repeat("a", n)+tr+strings.Repeat("b", 300)+tr+m+tr)
				emit(c, frames(20, end, func(i int) string { return padded(n/20 - i%3) })+padded(n/20))
			}
		}
	}
}

// systematic streams: every control state x every byte x continuations, all
// short streams, the boundaries of lengths
func systematic(octet bool, depth int, emit func(sconf, string)) {
	m := "<1>1 - - - - - -"
	if octet {
		confs := []sconf{{fmt: "octet"}, {fmt: "octet", be: true}}
		for _, be := range []bool{false, true} {
			for _, x := range []int{-1, 0, 1, 2, 9, 10, 12, 15, 16, 17, 99, 100, 8191, 8193} {
				confs = append(confs, sconf{fmt: "octet", be: be, max: x, setMax: true})
			}
		}
		for _, c := range confs {
			if c.max <= 0 || c.max == 16 || c.max == 2 {
				for _, p := range []string{"", "1", "15", "16", "16 ", "16 <", "16 1", "16 12", "1 ", "2 ", "2 <", "16 " + m, "16 " + m + "16 ", "16 " + m + "1", "2 <x1 <", "16 " + m + "2 <z16 " + m, "16 <1>1 - - - - - "} {
					for b := 0; b < 256; b++ {
						for _, q := range []string{"", " ", m, " " + m, "16 " + m, "1"} {
							emit(c, p+string([]byte{byte(b)})+q)
						}
					}
				}
			}
			if c.max <= 16 && !(c.setMax && c.max > 2 && c.max < 16) {
				exhaustive("012 <x", depth, func(w string) { emit(c, w) })
			}
			for n := 1; n < 40; n++ {
				emit(c, frameOf(padded(n)))
				emit(c, frameOf(m)+frameOf(padded(n))+frameOf(m))
				emit(c, frameOf(m)+"0"+frameOf(padded(n)))
			}
			for _, n := range []int{99, 100, 101, 999, 1000, 4095, 4096, 4097, 8171, 8191, 8192, 8193, 8194, 8211, 8212, 8213, 9999, 10000, 16384} {
				emit(c, frameOf(padded(n)))
				emit(c, frameOf(m)+frameOf(padded(n))+frameOf(m))
				emit(c, frameOf(padded(n))[:n]+"")
			}
			for _, d := range []string{"4294967312", "18446744073709551632", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "2147483648", "2147483664", "65552", "100000000000000000000000000000000000016"} {
				emit(c, d+" "+m)
				emit(c, frameOf(m)+d+" "+m+frameOf(m))
				emit(c, d)
				emit(c, d+"x")
			}
		}
		return
	}
	for _, f := range []string{"lf", "nul"} {
		for _, be := range []bool{false, true} {
			c := sconf{fmt: f, be: be}
			exhaustive("<\n\x00x", depth+2, func(w string) { emit(c, w) })
			tr := map[string]string{"lf": "\n", "nul": "\x00"}[f]
			for _, p := range []string{"", "<", m, m + tr, m + tr + tr, m + tr + "x", m + tr + "x" + tr, m + " a" + tr + "<2>1", "<" + tr, "x", "x" + tr} {
				for b := 0; b < 256; b++ {
					for _, q := range []string{"", tr, m, tr + m, tr + m + tr, m + tr} {
						emit(c, p+string([]byte{byte(b)})+q)
					}
				}
			}
			for _, n := range []int{1, 2, 15, 16, 17, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 70000} {
				emit(c, padded(n)+tr)
				emit(c, m+tr+padded(n)+tr+m+tr)
				emit(c, m+tr+padded(n))
				emit(c, padded(n-1)+" "+tr+m)
			}
		}
	}
}

type pobj struct {
	o    *obj
	hist []*srun
	id   int
}

type scand struct {
	c    sconf
	runs []*srun
}

func tstream(args map[string]string) {
	m := loadStream(args["table"])
	prop := args["prop"]
	bit := sbit[prop]
	startWatch(args)
	octet := args["fmt"] == "octet"
	seed := atoi(args["seed"])
	nRandom := atoi(args["random"])
	nTrace := atoi(args["sample"])
	dl := time.Now().Add(time.Duration(atoi(args["secs"])) * time.Second)
	var mu sync.Mutex
	var cands []scand
	var mism, streams, nruns, nres int
	kinds := map[string]int{}
	add := func(c sconf, runs ...*srun) {
		mu.Lock()
		mism++
		if len(cands) < 2000 {
			var cp []*srun
			for _, u := range runs {
				u.freeze()
				x := *u
				cp = append(cp, &x)
			}
			cands = append(cands, scand{c, cp})
		}
		mu.Unlock()
	}
	type wstate struct{ objs map[sconf]*pobj }
	// one stream in one configuration: reference, readers, failures, reuse
	check := func(w *wstate, r *rand.Rand, c sconf, s []byte, sys bool, rec *[]*srun) {
		ref := m.newObj(nil, c, false).run(r, 0, "whole", s, nil, false)
		ws, _ := m.wants(c, s, "")
		all := []*srun{ref}
		if c.judge(ws, ref, nil, nil, true)&bit != 0 {
			add(c, ref)
		}
		rr := ref.results()
		var ks []string
		switch {
		case (prop == "C20" || prop == "C28") && !sys:
			ks = append(append(ks, planKinds...), stdKinds[r.Intn(len(stdKinds))])
		case (prop == "C20" || prop == "C28") && len(s) < 300:
			ks = []string{"bytes", planKinds[r.Intn(len(planKinds))]}
			if r.Intn(20) == 0 {
				ks = append(ks, stdKinds[r.Intn(len(stdKinds))])
			}
		case prop != "C23" && r.Intn(4) == 0:
			ks = []string{planKinds[r.Intn(len(planKinds))]}
		}
		for _, k := range ks {
			u := m.newObj(r, c, false).run(r, len(all), k, s, nil, false)
			all = append(all, u)
			if c.judge(ws, u, rr, nil, true)&bit != 0 {
				add(c, ref, renum(u, 1))
			}
		}
		if prop == "C20" || prop == "C22" && r.Intn(2) == 0 || r.Intn(10) == 0 {
			k := append([]string{"whole"}, planKinds...)[r.Intn(7)]
			e := readerErr(r)
			wf, _ := m.wants(c, s, e.Error())
			u := m.newObj(r, c, false).run(r, len(all), k, s, e, false)
			all = append(all, u)
			if c.judge(wf, u, rr, nil, true)&bit != 0 {
				add(c, ref, renum(u, 1))
			}
		}
		if prop == "C23" || r.Intn(8) == 0 {
			po := w.objs[c]
			if po == nil {
				po = &pobj{o: m.newObj(r, c, false)}
				w.objs[c] = po
			}
			n := 1
			if prop == "C23" {
				n = 1 + r.Intn(2)
			}
			for ; n > 0; n-- {
				k := append([]string{"whole"}, planKinds...)[r.Intn(7)]
				if r.Intn(4) == 0 {
					// one ended early by a panic of the listener or the reader
					u := po.o.abort(r, 90, k, s, len(rr))
					u.warm = true
					if c.judge(ws, u, nil, rr, false)&bit != 0 {
						add(c, append(append([]*srun{ref}, po.hist...), u)...)
					}
					po.hist = append(po.hist, u)
				}
				u := po.o.run(r, 90, k, s, nil, false)
				u.warm = true
				if c.judge(ws, u, nil, rr, false)&bit != 0 {
					add(c, append(append([]*srun{ref}, po.hist...), u)...)
				}
				po.hist = append(po.hist, u)
				for len(po.hist) > 3 {
					if po.hist[0].modified() && bit == sbit["C23"] {
						add(c, po.hist...)
					}
					po.hist = po.hist[1:]
				}
			}
			// a failing stream in between
			if r.Intn(3) == 0 {
				cut := s[:r.Intn(len(s)+1)]
				u := po.o.run(r, 90, "pieces", cut, readerErr(r), false)
				u.warm = true
				po.hist = append(po.hist, u)
				if len(po.hist) > 3 {
					po.hist = po.hist[1:]
				}
			}
		}
		if prop == "C23" && r.Intn(10) == 0 {
			u := m.newObj(r, c, true).run(r, 91, "whole", s, nil, true)
			if c.judge(ws, u, nil, nil, false)&bit != 0 {
				add(c, ref, u)
			}
			all = append(all, u)
		}
		for _, u := range all {
			if u.modified() && bit == sbit["C23"] {
				add(c, u)
			}
		}
		if rec != nil {
			*rec = all
		}
		mu.Lock()
		streams++
		nruns += len(all)
		nres += len(rr)
		for _, x := range ws {
			kinds[x.k]++
		}
		mu.Unlock()
	}
	var sys []stream
	systematic(octet, atoi(args["depth"]), func(c sconf, s string) { sys = append(sys, stream{c, s}) })
	var wm sync.Map
	get := func(r *rand.Rand) *wstate {
		if v, ok := wm.Load(r); ok {
			return v.(*wstate)
		}
		w := &wstate{map[sconf]*pobj{}}
		wm.Store(r, w)
		return w
	}
	nsysAll := len(sys)
	scaleStreams(octet, func(c sconf, s string) { sys = append(sys, stream{c, s}) })
	pool(len(sys), int64(seed), dl, func(i int, r *rand.Rand) {
		check(get(r), r, sys[i].c, []byte(sys[i].s), true, nil)
	})
	nsys := streams
	randConf := func(r *rand.Rand) sconf {
		c := sconf{be: r.Intn(2) == 0}
		if octet {
			c.fmt = "octet"
			switch r.Intn(5) {
			case 0:
				c.setMax, c.max = true, []int{16, 17, 20, 50, 100, 300}[r.Intn(6)]
			case 1:
				c.setMax, c.max = true, []int{-1, 0, 1, 5, 8192, 8193, 65536}[r.Intn(7)]
			}
		} else {
			c.fmt = []string{"lf", "nul"}[r.Intn(2)]
		}
		return c
	}
	gen := func(r *rand.Rand, c sconf) []byte {
		if octet {
			return genOctet(r, c)
		}
		return genNT(r, map[string]string{"lf": "\n", "nul": "\x00"}[c.fmt])
	}
	pool(nRandom, int64(seed)+1, dl, func(i int, r *rand.Rand) {
		c := randConf(r)
		check(get(r), r, c, gen(r, c), false, nil)
	})
	out := newNdj(args["out"])
	size := func(x scand) int {
		n := 0
		for _, u := range x.runs {
			n += len(u.in)
		}
		return n
	}
	sort.SliceStable(cands, func(a, b int) bool { return size(cands[a]) < size(cands[b]) })
	total := 0
	for i, x := range cands {
		if i >= 60 || i > 0 && total+size(x) > 400000 {
			break
		}
		total += size(x)
		out.add(m.traceJ(x.c, x.runs))
	}
	nc := out.n
	r := rand.New(rand.NewSource(int64(seed) + 99))
	w := &wstate{map[sconf]*pobj{}}
	samples := []string{}
	for i := 0; i < nTrace; i++ {
		c := randConf(r)
		if c.setMax && c.max > 9000 {
			c.max = 60
		}
		s := gen(r, c)
		if i%4 == 3 {
			x := sys[r.Intn(nsysAll)]
			c, s = x.c, []byte(x.s)
		}
		if len(s) > 1200 && i%50 != 0 || len(s) > 20000 {
			i--
			continue
		}
		// reference, readers, a failing one, and reuse of one object
		var runs []*srun
		check(w, r, c, s, false, &runs)
		po := m.newObj(r, c, false)
		s2 := gen(r, c)
		if len(s2) < 1200 {
			runs = append(runs, po.run(r, 50, "pieces", s2, nil, false))
			if r.Intn(2) == 0 {
				runs = append(runs, po.run(r, 50, "pieces", s2[:r.Intn(len(s2)+1)], readerErr(r), false))
			}
			runs = append(runs, po.run(r, 50, "bytes", s, nil, false))
		}
		for _, u := range runs {
			u.frozen, u.late = false, nil
		}
		out.add(m.traceJ(c, runs))
		if i < 6 {
			samples = append(samples, trunc(fmt.Sprintf("%+v %q -> %v", c, s, runs[0].results()), 300))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"streams": streams, "systematic_streams": nsys, "runs": nruns, "results": nres, "expected_kinds": kinds,
		"mismatches": mism, "candidates": nc, "traces": out.n, "samples": samples})
}

func renum(u *srun, id int) *srun {
	u.freeze()
	x := *u
	x.obj = id
	return &x
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
