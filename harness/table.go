package main

// The test model: the control automaton of a format specification, as TLC
// explored and printed it (Export*.tla), plus breadth first access words and
// completions. Nothing in here comes from the implementation under test.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

type action uint8

type edge struct {
	to   int
	acts []action
}

type state struct {
	name  string
	fail  string // error kind when the state is a failure state
	ok    bool
	edges [256]edge
	eof   edge
	// byte classes: distinct edges in a fixed order
	classes [][]byte
	targets []int
	dist    int // distance to an accepting end of input, -1 if unreachable
	next    byte
	access  []byte
	depth   int // distance from the initial state
}

type table struct {
	states []*state
	index  map[string]int
	init   int
	nEdges int
}

type rowTrans struct {
	To    []json.RawMessage `json:"to"`
	Acts  []string          `json:"acts"`
	Bytes []int             `json:"bytes"`
}

type row struct {
	Var string            `json:"var"`
	Ctl []json.RawMessage `json:"ctl"`
	Eof rowTrans          `json:"eof"`
	Cls []rowTrans        `json:"cls"`
}

func ctlName(parts []json.RawMessage) string {
	var b strings.Builder
	for i, p := range parts {
		if i > 0 {
			b.WriteByte('/')
		}
		b.WriteString(strings.Trim(string(p), `"`))
	}
	return b.String()
}

// loadTables reads the rows printed by TLC, one table per variant.
func loadTables(path string, acts map[string]action) map[string]*table {
	f, err := os.Open(path)
	fatal(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	rows := map[string][]row{}
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, `"ROW `) {
			continue
		}
		var s string
		fatal(json.Unmarshal([]byte(line), &s))
		var r row
		fatal(json.Unmarshal([]byte(s[4:]), &r))
		rows[r.Var] = append(rows[r.Var], r)
	}
	fatal(sc.Err())
	out := map[string]*table{}
	for v, rs := range rows {
		out[v] = buildTable(rs, acts)
	}
	if len(out) == 0 {
		fatal(fmt.Errorf("no rows in %s", path))
	}
	return out
}

func buildTable(rs []row, acts map[string]action) *table {
	sort.Slice(rs, func(i, j int) bool { return ctlName(rs[i].Ctl) < ctlName(rs[j].Ctl) })
	t := &table{index: map[string]int{}}
	get := func(name string) int {
		if i, ok := t.index[name]; ok {
			return i
		}
		s := &state{name: name, dist: -1, depth: -1}
		if strings.HasPrefix(name, "fail/") {
			s.fail = name[5:]
		}
		if strings.HasPrefix(name, "ok/") {
			s.ok = true
		}
		t.states = append(t.states, s)
		t.index[name] = len(t.states) - 1
		return len(t.states) - 1
	}
	conv := func(as []string) []action {
		var o []action
		for _, a := range as {
			x, ok := acts[a]
			if !ok {
				fatal(fmt.Errorf("unknown action %q", a))
			}
			o = append(o, x)
		}
		return o
	}
	for _, r := range rs {
		i := get(ctlName(r.Ctl))
		s := t.states[i]
		s.eof = edge{get(ctlName(r.Eof.To)), conv(r.Eof.Acts)}
		sort.Slice(r.Cls, func(a, b int) bool { return r.Cls[a].Bytes[0] < r.Cls[b].Bytes[0] })
		n := 0
		for _, c := range r.Cls {
			e := edge{get(ctlName(c.To)), conv(c.Acts)}
			var bs []byte
			for _, b := range c.Bytes {
				s.edges[b] = e
				bs = append(bs, byte(b))
				n++
			}
			s.classes = append(s.classes, bs)
			s.targets = append(s.targets, e.to)
			t.nEdges++
		}
		if n != 256 {
			fatal(fmt.Errorf("row %s has %d bytes", s.name, n))
		}
	}
	t.init = t.index["start/0"]
	for _, s := range t.states {
		if !s.ok && s.fail == "" && len(s.classes) == 0 {
			fatal(fmt.Errorf("state %s has no row", s.name))
		}
	}
	t.reach()
	return t
}

// reach computes depths, access words and shortest completions.
func (t *table) reach() {
	q := []int{t.init}
	t.states[t.init].depth = 0
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		s := t.states[i]
		for k, bs := range s.classes {
			x := t.states[s.targets[k]]
			if x.depth < 0 && x.fail == "" {
				x.depth = s.depth + 1
				x.access = append(append([]byte{}, s.access...), pickNice(bs))
				q = append(q, s.targets[k])
			}
		}
	}
	// backward distances
	for changed := true; changed; {
		changed = false
		for _, s := range t.states {
			if s.fail != "" || s.ok {
				continue
			}
			best := s.dist
			nb := s.next
			if t.states[s.eof.to].ok {
				best = 0
			}
			for k, bs := range s.classes {
				d := t.states[s.targets[k]].dist
				if d >= 0 && (best < 0 || d+1 < best) {
					best, nb = d+1, pickNice(bs)
				}
			}
			if best != s.dist {
				s.dist, s.next = best, nb
				changed = true
			}
		}
	}
}

func pickNice(bs []byte) byte {
	for _, p := range []byte("1a-") {
		for _, b := range bs {
			if b == p {
				return b
			}
		}
	}
	return bs[0]
}

// completion returns the shortest word leading from state i to acceptance.
func (t *table) completion(i int) ([]byte, bool) {
	var w []byte
	for {
		s := t.states[i]
		if s.dist < 0 {
			return nil, false
		}
		if s.dist == 0 {
			return w, true
		}
		w = append(w, s.next)
		i = s.edges[s.next].to
	}
}

// walk appends random bytes leading from state i, never failing, until about
// n bytes were written, then completes. It returns the word.
func (t *table) walk(r *rand.Rand, i, n int, complete bool) []byte {
	var w []byte
	for len(w) < n {
		s := t.states[i]
		var cand []int
		for k := range s.classes {
			if t.states[s.targets[k]].fail == "" {
				cand = append(cand, k)
			}
		}
		if len(cand) == 0 {
			break
		}
		k := cand[r.Intn(len(cand))]
		// sometimes prefer moving towards acceptance
		if r.Intn(3) == 0 && s.dist > 0 {
			w = append(w, s.next)
			i = s.edges[s.next].to
			continue
		}
		b := s.classes[k][r.Intn(len(s.classes[k]))]
		w = append(w, b)
		i = s.targets[k]
	}
	if complete {
		if c, ok := t.completion(i); ok {
			w = append(w, c...)
		}
	}
	return w
}

func (t *table) stateOf(w []byte) int {
	i := t.init
	for _, b := range w {
		if t.states[i].fail != "" {
			return i
		}
		i = t.states[i].edges[b].to
	}
	return i
}
