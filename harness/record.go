package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

type J = map[string]interface{}

func bytesJ(s string) []int {
	o := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		o[i] = int(s[i])
	}
	return o
}

// optJ: optional text as a sequence of length 0 or 1
func optJ(p *string) interface{} {
	if p == nil {
		return []int{}
	}
	return [][]int{bytesJ(*p)}
}

func tsJ(p *time.Time) interface{} {
	if p == nil {
		return []int{}
	}
	y, mo, d := p.Date()
	h, mi, s := p.Clock()
	_, off := p.Zone()
	return []J{{"y": y, "mo": int(mo), "d": d, "h": h, "mi": mi, "s": s, "ns": p.Nanosecond(), "off": off}}
}

func sdJ(p *map[string]map[string]string) interface{} {
	if p == nil {
		return []int{}
	}
	els := []J{}
	ids := []string{}
	for id := range *p {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		ns := []string{}
		for n := range (*p)[id] {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		ps := []J{}
		for _, n := range ns {
			ps = append(ps, J{"n": bytesJ(n), "v": bytesJ((*p)[id][n])})
		}
		els = append(els, J{"id": bytesJ(id), "ps": ps})
	}
	return [][]J{els}
}

func msg5424J(m *rfc5424.SyslogMessage) J {
	return J{"pri": u8(m.Priority), "fac": u8(m.Facility), "sev": u8(m.Severity), "ver": int(m.Version), "ts": tsJ(m.Timestamp),
		"host": optJ(m.Hostname), "app": optJ(m.Appname), "proc": optJ(m.ProcID), "msgid": optJ(m.MsgID),
		"sd": sdJ(m.StructuredData), "msg": optJ(m.Message), "valid": m.Valid()}
}

func errJ(e error) interface{} {
	if e == nil {
		return []string{}
	}
	return []string{normErr(e)}
}

func res5424J(r res5424) J {
	j := J{"panic": r.panicked, "err": errJ(r.err), "msg": []J{}}
	if r.msg != nil {
		j["msg"] = []J{msg5424J(r.msg)}
	}
	if r.otherMsg {
		j["panic"] = "message of another type"
	}
	return j
}

func trace5424J(in []byte, cmp bool, rs [4]res5424) J {
	return J{"in": bytesJ(string(in)), "cmp": cmp, "ms": res5424J(rs[cfgMS]), "mb": res5424J(rs[cfgMB]), "ps": res5424J(rs[cfgPS]), "pb": res5424J(rs[cfgPB])}
}

type ndj struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newNdj(path string) *ndj {
	f, err := os.Create(path)
	fatal(err)
	return &ndj{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (n *ndj) add(v interface{}) {
	b, err := json.Marshal(v)
	fatal(err)
	n.w.Write(b)
	n.w.WriteByte('\n')
	n.n++
}

func (n *ndj) close() {
	fatal(n.w.Flush())
	fatal(n.f.Close())
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	fatal(err)
	fatal(os.WriteFile(path, b, 0o644))
}
