package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func loadErrTexts(path string) map[string]string {
	f, err := os.Open(path)
	fatal(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if strings.HasPrefix(sc.Text(), `"ERR `) {
			var s string
			fatal(json.Unmarshal(sc.Bytes(), &s))
			m := map[string]string{}
			fatal(json.Unmarshal([]byte(s[4:]), &m))
			return m
		}
	}
	fatal(fmt.Errorf("no error texts in %s", path))
	return nil
}

// cand is an input on which the implementation and the model disagree, with
// what the implementation returned at that moment.
type cand struct {
	in  []byte
	cmp bool
	rs  [4]res5424
}

// sink collects candidate mismatches (bounded) and counters from workers.
type sink struct {
	mu       sync.Mutex
	cands    []cand
	mism     int
	inputs   int
	calls    int
	accepted int
}

func (k *sink) add(c cand) {
	k.mu.Lock()
	k.mism++
	if len(k.cands) < 4000 {
		k.cands = append(k.cands, c)
	}
	k.mu.Unlock()
}

type stats5424 struct {
	States, Edges, EdgesCovered, Inputs, Calls, Accepted, Mismatches int
	EdgeInputs, FamilyInputs, RandomInputs                           int
	Samples                                                          []string
}

// t5424 replays the exported model into the real parsers.
func t5424(args map[string]string) {
	tables := loadTables(args["table"], acts5424)
	errText5424 = loadErrTexts(args["table"])
	clause := args["prop"]
	bit := clauseBit[clause]
	startWatch(args)
	seed := atoi(args["seed"])
	nRandom := atoi(args["random"])
	nTrace := atoi(args["sample"])
	dl := time.Now().Add(time.Duration(atoi(args["secs"])) * time.Second)
	var k sink
	st := stats5424{}
	variants := []string{"plain", "compliant"}
	check := func(in []byte) {
		for _, v := range variants {
			cmp := v == "compliant"
			if cmp && clause == "C01" {
				continue
			}
			x := tables[v].run5424(in)
			rs := run4(in, cmp)
			if judge5424(x, rs, cmp)&bit != 0 {
				k.add(cand{append([]byte{}, in...), cmp, rs})
			}
			if x.acc && !cmp {
				k.mu.Lock()
				k.accepted++
				k.mu.Unlock()
			}
		}
	}
	pool := func(n int, f func(i int, r *rand.Rand)) { pool(n, int64(seed), dl, f) }
	count := func(n int, p *int) { k.mu.Lock(); *p += n; k.inputs += n; k.calls += 8 * n; k.mu.Unlock() }
	// 1. every transition of the model, followed by nothing, by its shortest
	// completion and by a random completion
	for _, v := range variants {
		t := tables[v]
		if v == "compliant" {
			st.States, st.Edges = len(t.states), t.nEdges
		}
		if v == "plain" && clause == "C05" {
			continue
		}
		if v == "compliant" && clause == "C01" {
			continue
		}
		pool(len(t.states)*256, func(i int, r *rand.Rand) {
			s := t.states[i/256]
			b := byte(i % 256)
			if len(s.classes) == 0 || s.depth < 0 {
				return
			}
			in := append(append([]byte{}, s.access...), b)
			check(in)
			to := s.edges[b].to
			n := 1
			if t.states[to].fail == "" {
				if c, ok := t.completion(to); ok && len(c) > 0 {
					check(append(append([]byte{}, in...), c...))
					n++
				}
				check(append(append([]byte{}, in...), t.walk(r, to, r.Intn(40), true)...))
				n++
			} else {
				check(append(append([]byte{}, in...), t.completion2(r, s)...))
				check(append(append([]byte{}, in...), "\n<1>1 - - - - - - m"...))
				n += 2
			}
			count(n, &st.EdgeInputs)
			k.mu.Lock()
			st.EdgesCovered++
			k.mu.Unlock()
		})
	}
	// 2. families
	var fam [][]byte
	families5424(func(b []byte) { fam = append(fam, b) })
	nfam := len(fam)
	scale5424(func(b []byte) { fam = append(fam, b) })
	pool(len(fam), func(i int, r *rand.Rand) {
		check(fam[i])
		count(1, &st.FamilyInputs)
	})
	// 3. random: grammar based with mutations, random walks over the model
	pool(nRandom, func(i int, r *rand.Rand) {
		check(rand5424(r, tables))
		count(1, &st.RandomInputs)
	})
	st.Inputs, st.Calls, st.Accepted, st.Mismatches = k.inputs, k.calls, k.accepted, k.mism
	// recorded traces for TLC: the candidates, then a random sample
	out := newNdj(args["out"])
	sort.SliceStable(k.cands, func(a, b int) bool { return len(k.cands[a].in) < len(k.cands[b].in) })
	size := 0
	for i, c := range k.cands {
		if i >= 100 || i > 0 && size+len(c.in) > 300000 {
			break
		}
		size += len(c.in)
		out.add(trace5424J(c.in, c.cmp, c.rs))
	}
	nc := out.n
	r := rand.New(rand.NewSource(int64(seed) + 99))
	for i := 0; i < nTrace; i++ {
		var in []byte
		for {
			if i%5 == 4 {
				in = fam[r.Intn(nfam)]
			} else {
				in = rand5424(r, tables)
			}
			if len(in) < 700 {
				break
			}
		}
		cmp := r.Intn(3) == 0 || clause == "C05" && r.Intn(2) == 0
		out.add(trace5424J(in, cmp, run4(in, cmp)))
		if i < 6 {
			st.Samples = append(st.Samples, fmt.Sprintf("%q", in))
		}
	}
	out.close()
	writeJSON(args["stats"], J{"states": st.States, "edges": st.Edges, "edges_covered": st.EdgesCovered, "inputs": st.Inputs, "calls": st.Calls,
		"accepted": st.Accepted, "mismatches": st.Mismatches, "candidates": nc, "traces": out.n,
		"edge_inputs": st.EdgeInputs, "family_inputs": st.FamilyInputs, "random_inputs": st.RandomInputs, "samples": st.Samples})
}

// completion2: something after a failing byte, to notice inputs that are
// accepted although a byte in them is not allowed
func (t *table) completion2(r *rand.Rand, s *state) []byte {
	if s.dist >= 0 {
		w := []byte{}
		i := t.index[s.name]
		c, ok := t.completion(i)
		if ok {
			return append(w, c...)
		}
	}
	return nil
}

func rand5424(r *rand.Rand, tables map[string]*table) []byte {
	switch r.Intn(5) {
	case 0:
		t := tables["compliant"]
		w := t.walk(r, t.init, r.Intn(300), r.Intn(3) > 0)
		if r.Intn(4) == 0 {
			w = mutate(r, w)
		}
		return w
	default:
		return gen5424(r)
	}
}
