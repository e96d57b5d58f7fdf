package main

import (
	"fmt"
	"os"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"
)

// A call of the code under test that does not return would keep a check from
// answering. The calls in progress are registered here; one that is seen in
// progress for many ticks (or the oldest one, when memory grows without
// bound) is recorded as a trace of its own and the run ends with it.

const didNotReturn = "did not return"

type inflight struct {
	mk    func() J
	ticks int
	seq   int64
}

var watch struct {
	sync.Mutex
	on    bool
	fired int32
	seq   int64
	live  map[*inflight]bool
}

// watched runs f; mk makes the trace of a call that did not return
func watched(mk func() J, f func()) {
	if !watch.on {
		f()
		return
	}
	w := &inflight{mk: mk}
	watch.Lock()
	watch.seq++
	w.seq = watch.seq
	watch.live[w] = true
	watch.Unlock()
	f()
	watch.Lock()
	delete(watch.live, w)
	watch.Unlock()
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// startWatch: ticks, not time, so that a stopped machine is no hung call
func startWatch(args map[string]string) {
	watch.on, watch.live = true, map[*inflight]bool{}
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			big := heapBytes() > 14<<30
			var worst *inflight
			watch.Lock()
			for w := range watch.live {
				w.ticks++
				if (w.ticks > 120 || big && w.ticks > 4) && (worst == nil || w.seq < worst.seq) {
					worst = w
				}
			}
			watch.Unlock()
			if worst == nil {
				continue
			}
			atomic.StoreInt32(&watch.fired, 1)
			j := worst.mk()
			out := newNdj(args["out"])
			out.add(j)
			out.close()
			fmt.Fprintln(os.Stderr, "a call did not return")
			writeJSON(args["stats"], J{"states": 0, "edges": 0, "edges_covered": 0, "inputs": 0, "calls": 0, "accepted": 0, "mismatches": 1, "candidates": 1, "traces": 1,
				"histories": 0, "streams": 0, "runs": 0, "results": 0, "samples": []string{}, "conversions": 0, "did_not_return": true})
			os.Exit(0)
		}
	}()
}
