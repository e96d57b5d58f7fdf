package main

// Recorded calls of the helpers of package common, see Helpers.tla.

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strconv"

	"github.com/influxdata/go-syslog/v3/common"
)

// room returns a copy of b within a larger slice filled with 0xAA, so that
// what is written behind it shows
func room(b []byte) []byte {
	x := bytes.Repeat([]byte{0xAA}, len(b)+16)
	copy(x, b)
	return x[:len(b)]
}

func untouched(x, b []byte) bool {
	return bytes.Equal(x, b) && bytes.Equal(x[len(x):len(x)+16], bytes.Repeat([]byte{0xAA}, 16))
}

func helperEvent(j J, f func()) J {
	j["panic"] = ""
	watched(func() J { j["panic"] = didNotReturn; return J{"evs": []J{j}} }, func() {
		defer func() {
			if e := recover(); e != nil {
				j["panic"] = fmt.Sprint(e)
			}
		}()
		f()
	})
	return j
}

func decEvent(s string) J {
	j := J{"op": "dec", "in": bytesJ(s), "out": []int{}, "same": false}
	return helperEvent(j, func() {
		x := room([]byte(s))
		j["out"] = bytesJ(strconv.Itoa(common.UnsafeUTF8DecimalCodePointsToInt(x)))
		j["same"] = untouched(x, []byte(s))
	})
}

func escEvent(s string) J {
	j := J{"op": "esc", "in": bytesJ(s), "out": []int{}}
	return helperEvent(j, func() { j["out"] = bytesJ(common.EscapeBytes(s)) })
}

func rmEvent(s string, ps []int, off int) J {
	j := J{"op": "rm", "in": bytesJ(s), "ps": append([]int{}, ps...), "off": off, "out": []int{}, "same": false, "apart": false}
	return helperEvent(j, func() {
		x, p := room([]byte(s)), append([]int{}, ps...)
		o := common.RemoveBytes(x, p, off)
		j["out"] = bytesJ(string(o))
		same := untouched(x, []byte(s))
		for i := range ps {
			same = same && ps[i] == p[i]
		}
		j["same"] = same
		// neither shows in the other later
		for i := range x {
			x[i] ^= 0x55
		}
		apart := fmt.Sprint(bytesJ(string(o))) == fmt.Sprint(j["out"])
		for i := range x {
			x[i] ^= 0x55
		}
		for i := range o {
			o[i] ^= 0x55
		}
		_ = append(o, 0x55, 0x55)
		j["apart"] = apart && untouched(x, []byte(s))
	})
}

// ranges of the values up to max that ok accepts
func accepted(max int, ok func(int) bool) [][]int {
	r := [][]int{}
	for v := 0; v <= max; v++ {
		if !ok(v) {
			continue
		}
		if n := len(r); n > 0 && r[n-1][1] == v-1 {
			r[n-1][1] = v
		} else {
			r = append(r, []int{v, v})
		}
	}
	return r
}

func thelpers(args map[string]string) {
	startWatch(args)
	r := rand.New(rand.NewSource(int64(atoi(args["seed"])) + 41))
	out := newNdj(args["out"])
	calls := map[string]int{}
	var evs []J
	flush := func() {
		if len(evs) > 0 {
			out.add(J{"evs": evs})
		}
		evs = nil
	}
	add := func(j J) {
		calls[fmt.Sprint(j["op"])]++
		if evs = append(evs, j); len(evs) == 50 || j["panic"] != "" {
			flush()
		}
	}
	// the ranges, whole
	pj := J{"op": "prio", "valid": [][]int{}}
	add(helperEvent(pj, func() { pj["valid"] = accepted(255, func(v int) bool { return common.ValidPriority(uint8(v)) }) }))
	vj := J{"op": "ver", "valid": [][]int{}}
	add(helperEvent(vj, func() { vj["valid"] = accepted(65535, func(v int) bool { return common.ValidVersion(uint16(v)) }) }))
	between := func(v, lo, hi int) {
		j := J{"op": "in", "v": v, "lo": lo, "hi": hi, "ok": false}
		add(helperEvent(j, func() { j["ok"] = common.InBetween(v, lo, hi) }))
	}
	edge := []int{-2147483647, -1000, -1, 0, 1, 2, 191, 192, 999, 2147483647}
	for _, v := range edge {
		for _, lo := range edge {
			for _, hi := range edge {
				between(v, lo, hi)
			}
		}
	}
	n := atoi(args["depth"])
	// short values over the bytes that matter: all of them
	var rec func(s string, al string, max int, f func(string))
	rec = func(s string, al string, max int, f func(string)) {
		f(s)
		if len(s) < max {
			for i := 0; i < len(al); i++ {
				rec(s+al[i:i+1], al, max, f)
			}
		}
	}
	rec("", "\\]\"a[\xc3\x9d", n, func(s string) { add(escEvent(s)) })
	rec("", "0159", n+1, func(s string) { add(decEvent(s)) })
	// every byte next to every special one
	for b := 0; b < 256; b++ {
		for _, c := range "a\\]\"" {
			x := string([]byte{byte(b)})
			add(escEvent(x + string(c) + x))
		}
	}
	// all positions in short data
	for l := 0; l <= n+2; l++ {
		s := "ab\\\"cd\\]"[:min0(l, 8)]
		for m := 0; m < 1<<uint(len(s)); m++ {
			for _, off := range []int{0, 1, 7, 5000} {
				ps := []int{}
				for k := 0; k < len(s); k++ {
					if m>>uint(k)&1 == 1 {
						ps = append(ps, off+k)
					}
				}
				add(rmEvent(s, ps, off))
			}
		}
	}
	nsys := calls["esc"] + calls["dec"] + calls["rm"]
	// longer ones
	lens := []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 600}
	for i := 0; i < atoi(args["random"]); i++ {
		l := lens[r.Intn(len(lens))]
		b := make([]byte, l)
		hot := r.Intn(4)
		for k := range b {
			if b[k] = byte(r.Intn(256)); r.Intn(4) < hot {
				b[k] = "\\]\"[\xff"[r.Intn(5)]
			}
		}
		switch i % 3 {
		case 0:
			add(escEvent(string(b)))
		case 1:
			d := make([]byte, r.Intn(19))
			for k := range d {
				d[k] = "0123456789"[r.Intn(10)]
				if r.Intn(3) == 0 {
					d[k] = "09"[r.Intn(2)]
				}
			}
			add(decEvent(string(d)))
		case 2:
			off := []int{0, 0, 3, 300, 70000}[r.Intn(5)]
			ps, n := []int{}, r.Intn(len(b)+1)
			if r.Intn(2) == 0 {
				n = r.Intn(min0(len(b), 6) + 1)
			}
			for _, k := range r.Perm(len(b))[:n] {
				ps = append(ps, off+k)
			}
			sort.Ints(ps)
			add(rmEvent(string(b), ps, off))
		}
	}
	flush()
	out.close()
	writeJSON(args["stats"], J{"calls": calls, "systematic": nsys})
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}
