package main

// The token scanner of octet counting, see Scanner.tla.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/influxdata/go-syslog/v3/octetcounting"
)

// scanKind[pending][ready][byte] -> kind of token
type scanKind [2][2][257]string

func loadScanner(path string) *scanKind {
	f, err := os.Open(path)
	fatal(err)
	defer f.Close()
	m := &scanKind{}
	rows := 0
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if !strings.HasPrefix(sc.Text(), `"ROW `) {
			continue
		}
		var s string
		fatal(json.Unmarshal(sc.Bytes(), &s))
		var r struct {
			Pending, Ready bool
			Kinds          map[string][]int
		}
		fatal(json.Unmarshal([]byte(s[4:]), &r))
		for k, bs := range r.Kinds {
			for _, b := range bs {
				m[b2i(r.Pending)][b2i(r.Ready)][b] = k
			}
		}
		rows++
	}
	fatal(sc.Err())
	if rows != 4 {
		fatal(fmt.Errorf("model of Scanner: %d rows", rows))
	}
	return m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type scanRun struct {
	in    []byte
	max   int
	kind  string
	toks  []string
	panic string
}

func (u *scanRun) json() J {
	ts := make([]string, len(u.toks))
	for i, t := range u.toks {
		ts[i] = esc([]byte(t))
	}
	return J{"e": "scan", "in": bytesJ(string(u.in)), "max": u.max, "reader": u.kind, "toks": ts, "panic": u.panic}
}

// good: what the specification says about the tokens
func (m *scanKind) good(u *scanRun) bool {
	if u.panic != "" {
		return false
	}
	at := 0
	var length []byte
	ready := false
	for _, got := range u.toks {
		b := 256
		if at < len(u.in) {
			b = int(u.in[at])
		}
		k := m[b2i(length != nil)][b2i(ready)][b]
		n := 1
		want := k
		switch k {
		case "EOF":
			n, ready = 0, false
		case "WS":
			ready = true
		case "MSGLEN":
			for at+n < len(u.in) && u.in[at+n] >= '0' && u.in[at+n] <= '9' {
				n++
			}
			length, ready = u.in[at:at+n], false
			want += "(" + string(length) + ")"
		case "ILLEGAL":
			want += "(" + string(u.in[at:at+1]) + ")"
		case "SYSLOGMSG":
			n = 2000000000
			if len(length) < 10 {
				n = atoi(string(length))
			}
			if n > len(u.in)-at || n > u.max && got == "EOF" {
				want, n = "EOF", 0
				break
			}
			want += "(" + string(u.in[at:at+n]) + ")"
			length, ready = nil, false
		}
		if got != want {
			return false
		}
		at += n
	}
	return true
}

// scanAll calls Scan until the end has been reported three times
func scanAll(r *rand.Rand, in []byte, max int, kind string, fail error) *scanRun {
	u := &scanRun{in: in, max: max, kind: kind}
	watched(func() J {
		return (&scanRun{in: in, max: max, kind: kind, panic: didNotReturn}).json()
	}, func() {
		defer func() {
			if p := recover(); p != nil {
				u.panic = fmt.Sprint(p)
			}
		}()
		s := octetcounting.NewScanner(mkReader(r, kind, in, fail, func(int) {}), max)
		ends := 0
		for ends < 3 && len(u.toks) <= len(in)+3 {
			t := s.Scan()
			x := t.String()
			u.toks = append(u.toks, x)
			if x == "EOF" {
				ends++
			}
		}
	})
	return u
}

func tscan(args map[string]string) {
	m := loadScanner(args["table"])
	startWatch(args)
	seed := int64(atoi(args["seed"]))
	dl := time.Now().Add(time.Duration(atoi(args["secs"])) * time.Second)
	var mu sync.Mutex
	var cands []*scanRun
	mism, runs, tokens := 0, 0, 0
	kinds := append(append([]string{"whole"}, planKinds...), stdKinds...)
	check := func(r *rand.Rand, in []byte, max int, kind string, fail error) *scanRun {
		u := scanAll(r, in, max, kind, fail)
		ok := m.good(u)
		mu.Lock()
		runs++
		tokens += len(u.toks)
		if !ok {
			mism++
			if len(cands) < 2000 {
				cands = append(cands, u)
			}
		}
		mu.Unlock()
		return u
	}
	type job struct {
		s    string
		max  int
		kind string
	}
	var jobs []job
	exhaustive("012 <x", atoi(args["depth"]), func(w string) { jobs = append(jobs, job{w, 8192, "whole"}) })
	msg := "<1>1 - - - - - -"
	for _, p := range []string{"", "1", "15", "16", "16 ", "16 <", "16 x", "16 1", "1 ", "2 x ", "16 " + msg, "16 " + msg + " ", "16 " + msg + "1", "16  ", "16 0 ", "3 x", "16 17 "} {
		for b := 0; b < 256; b++ {
			for _, q := range []string{"", " ", msg, " " + msg, "16 " + msg, "1", "0 <" + msg} {
				jobs = append(jobs, job{p + string([]byte{byte(b)}) + q, 8192, kinds[b%len(kinds)]})
			}
		}
	}
	for _, max := range []int{-30, -1, 0, 1, 5, 15, 16, 17, 20, 36, 100, 1000, 4096, 8192, 65516, 65536, 100000, 1 << 20} {
		for _, d := range []int{-22, -21, -20, -2, -1, 0, 1, 2, 18, 19, 20, 21, 22, 40} {
			n := max + d
			if n <= 0 {
				continue
			}
			for _, k := range []string{"whole", "bytes", "pieces", "bufio16"} {
				if n > 70000 && k != "whole" {
					continue
				}
				jobs = append(jobs, job{frameOf(padded(n)) + frameOf(msg), max, k}, job{frameOf(msg) + frameOf(padded(n)) + "x", max, k}, job{frameOf(padded(n + 1))[:n], max, k})
			}
		}
	}
	for n := 1; n < 700; n += 1 + n/12 {
		d := strings.Repeat("1", n)
		jobs = append(jobs, job{d, 16, "whole"}, job{d + " " + msg, 16, "pieces"}, job{d + "x16 " + msg, 8192, "bytes"}, job{"16" + strings.Repeat(" ", n) + msg + "1", 8192, "whole"},
			job{strings.Repeat("x", n) + "16 " + msg, 8192, "pieces"}, job{strings.Repeat("16 "+msg, n), 100, "whole"}, job{strings.Repeat("1 <", n) + "2 <", 5, "bytes"})
	}
	for _, d := range []string{"4294967312", "18446744073709551632", "18446744073709551615", "18446744073709551616", "18446744073709551617", "9223372036854775807", "9223372036854775808", "2147483648", "2147483664", "65552", "272", "100000000000000000000000000000000000016"} {
		jobs = append(jobs, job{d + " " + msg, 8192, "whole"}, job{frameOf(msg) + d + " " + msg + frameOf(msg), 8192, "pieces"}, job{d, 8192, "bytes"}, job{d + " <", 8192, "whole"})
	}
	pool(len(jobs), seed, dl, func(i int, r *rand.Rand) { check(r, []byte(jobs[i].s), jobs[i].max, jobs[i].kind, nil) })
	nsys := runs
	gen := func(r *rand.Rand) ([]byte, int, string, error) {
		c := sconf{fmt: "octet", setMax: true, max: []int{8192, 8192, 8192, 100, 40, 16, 5, 0, 70000}[r.Intn(9)]}
		s := genOctet(r, c)
		if r.Intn(4) == 0 {
			s = bytesOf(r, r.Intn(40), "0123459  <<x\n")
		}
		var fail error
		k := kinds[r.Intn(len(kinds))]
		if r.Intn(5) == 0 {
			fail, k = readerErr(r), planKinds[r.Intn(len(planKinds))]
		}
		return s, c.max, k, fail
	}
	pool(atoi(args["random"]), seed+1, dl, func(i int, r *rand.Rand) {
		s, max, k, fail := gen(r)
		check(r, s, max, k, fail)
	})
	out := newNdj(args["out"])
	sort.SliceStable(cands, func(a, b int) bool { return len(cands[a].in) < len(cands[b].in) })
	total := 0
	for i, u := range cands {
		if i >= 60 || i > 0 && total+len(u.in) > 200000 {
			break
		}
		total += len(u.in)
		out.add(u.json())
	}
	nc := out.n
	for n := -3; n < 12; n++ {
		j := J{"e": "name", "n": n, "panic": ""}
		func() {
			defer func() {
				if p := recover(); p != nil {
					j["panic"] = fmt.Sprint(p)
				}
			}()
			j["name"] = ""
			j["name"] = octetcounting.TokenType(n).String()
		}()
		out.add(j)
	}
	r := rand.New(rand.NewSource(seed + 99))
	samples := []string{}
	for i := 0; i < atoi(args["sample"]); i++ {
		s, max, k, fail := gen(r)
		if i%3 == 0 {
			j := jobs[r.Intn(len(jobs))]
			s, max, k, fail = []byte(j.s), j.max, j.kind, nil
		}
		if len(s) > 1000 {
			i--
			continue
		}
		u := check(r, s, max, k, fail)
		out.add(u.json())
		if i < 6 {
			samples = append(samples, trunc(fmt.Sprintf("%q -> %q", s, u.toks), 300))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"systematic": nsys, "runs": runs, "tokens": tokens, "mismatches": mism, "candidates": nc, "traces": out.n, "samples": samples})
}
