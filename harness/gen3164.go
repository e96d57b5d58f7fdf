package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

var monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

func stampStr(r *rand.Rand) string {
	d := 1 + r.Intn(31)
	m := r.Intn(12)
	if r.Intn(8) == 0 {
		m, d = 1, 28+r.Intn(3)
	}
	s := fmt.Sprintf("%s %2d %s:%s:%s", monthNames[m], d, dig2(r, 0, 23), dig2(r, 0, 59), dig2(r, 0, 59))
	switch r.Intn(40) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return fmt.Sprintf("%s %02d %02d:%02d:%02d", monthNames[m], r.Intn(34), r.Intn(26), r.Intn(62), r.Intn(62))
	case 2:
		return s + fmt.Sprintf(".%d", r.Intn(1000))
	}
	return s
}

func visStr(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		if r.Intn(6) == 0 {
			b[i] = byte(128 + r.Intn(128))
		} else {
			b[i] = byte(32 + r.Intn(95))
		}
	}
	return string(b)
}

func tagStr(r *rand.Rand) string {
	n := fieldLen(r, 32)
	s := graphStr(r, n)
	s = strings.Map(func(c rune) rune {
		if c == ':' || c == '[' {
			return 'z'
		}
		return c
	}, s)
	if r.Intn(15) == 0 {
		s = "-"
	}
	if r.Intn(3) == 0 {
		s = []string{"su", "sshd", "kernel", "a.b-c_d", "]", "]:"[:1], "x]"}[r.Intn(7)]
	}
	return s
}

func contentStr(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return "-"
	case 2:
		return []string{"]", "]:", "]: ", "[", "a]: b", "a]:", "]]", "x]: y]", "a]: \x01", "\x01", "1]: b\nc", "]: ]"}[r.Intn(12)]
	case 3:
		return bytesStr(r, 1+r.Intn(8))
	case 4:
		return visStr(r, 1+r.Intn(12))
	}
	return fmt.Sprint(r.Intn(100000))
}

func text3164(r *rand.Rand) string {
	msg := visStr(r, 1+r.Intn(15))
	switch r.Intn(12) {
	case 0:
		msg = []string{"]: x", "a]: b", ": ", "[x]: y", " ", "]", "a: b", "]: "}[r.Intn(8)]
	case 1:
		msg = visStr(r, 1+r.Intn(5)) + []string{"\x00", "\n", "\t", "\x7f", "\x1f", "\r\n"}[r.Intn(6)] + visStr(r, r.Intn(5))
	case 2:
		msg = ""
	case 3:
		msg = visStr(r, 200+r.Intn(300))
	case 4:
		msg = texts[r.Intn(len(texts))]
	}
	switch r.Intn(8) {
	case 0:
		return msg
	case 1, 2:
		return tagStr(r) + ": " + msg
	case 3, 4, 5:
		return tagStr(r) + "[" + contentStr(r) + "]: " + msg
	case 6:
		return tagStr(r) + []string{":", "[", "[1]", "[1]:", "[1] ", ":x", "  ", "[1]:x", "[]: ", "[1]: a]: b\x01]: c", "[a]: b\x02]: c\x03]: d", "[a]: b]:\x01 c"}[r.Intn(12)] + msg
	}
	return tagStr(r) + " " + msg
}

func gen3164(r *rand.Rand) []byte {
	ts := stampStr(r)
	if r.Intn(4) == 0 {
		ts = ts3339(r, r.Intn(6) == 0)
	}
	host := textField(r, 255)
	b := []byte("<" + priStr(r) + ">" + ts + " " + host + " " + text3164(r))
	if r.Intn(3) == 0 {
		b = mutate(r, b)
	}
	return b
}

var zones []*time.Location

func init() {
	for _, s := range []int{0, 1800, 3600, -3600, 19800, 43200, 50400, -43200, 86340, -86340, 1, -3661} {
		zones = append(zones, time.FixedZone(fmt.Sprint("Z", s), s))
	}
	for _, n := range []string{"UTC", "America/New_York", "Europe/Rome", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia"} {
		if l, err := time.LoadLocation(n); err == nil {
			zones = append(zones, l)
		}
	}
}

func randOpt3164(r *rand.Rand) opt3164 {
	o := opt3164{rfc: r.Intn(2) == 0, order: r.Intn(5)}
	if r.Intn(2) == 0 {
		o.hasYear = true
		o.year = []int{0, 1, 4, 1600, 1900, 1970, 1999, 2000, 2019, 2020, 2021, 2100, 9999, 1582, 2038, 2400}[r.Intn(16)]
		switch r.Intn(6) {
		case 0, 1:
			o.year = r.Intn(3000)
		case 2:
			o.year = []int{-1, -4, -5, -99, -100, -101, -400, -1970, -4713, 10000, 10004, 12000, 32767, 32768, 65535, 65536, 99999, 100000, 262144}[r.Intn(19)]
		}
	}
	if r.Intn(3) == 0 {
		o.locale = zones[r.Intn(len(zones))]
	}
	if r.Intn(3) == 0 {
		o.zone = zones[r.Intn(len(zones))]
	}
	return o
}

func families3164(emit func([]byte)) {
	e := func(f string, a ...interface{}) { emit([]byte(fmt.Sprintf(f, a...))) }
	ts := "Oct 11 22:14:15"
	for i, w := range words {
		v := words[(i*7+3)%len(words)]
		e("<14>%s %s t: m", ts, w)
		e("<14>%s h %s: m", ts, w)
		e("<14>%s h t[%s]: m", ts, w)
		e("<14>%s h t: %s", ts, w)
		e("<14>%s h %s", ts, w)
		e("<14>%s %s %s[%s]: %s", ts, w, v, w, v)
		e("<14>%s %s %s[%s]: %s", ts, w, w, w, w)
	}
	for i, x := range texts {
		e("<14>%s h %s", ts, x)
		e("<14>%s h t: %s", ts, x)
		e("<14>2003-10-11T22:14:15Z h %s[1]: %s", words[i], x)
	}
	for _, d := range []string{"0000-01-01", "0001-01-01", "1969-12-31", "1970-01-01", "2000-02-29", "2024-02-29", "2023-08-13", "2038-01-19", "2262-04-12", "9999-12-31"} {
		for _, t := range []string{"00:00:00", "12:00:00", "13:37:13", "23:59:59"} {
			for _, z := range []string{"Z", "+00:00", "-00:00", "+00:01", "-00:30", "+05:45", "+14:00", "-12:00", "+23:59", "-23:59"} {
				e("<1>%sT%s%s h t: m", d, t, z)
			}
			for m := range monthNames {
				e("<1>%s %2d %s h t: m", monthNames[m], 1+(m*5+len(d))%31, t)
				e("<1>%s  1 %s h t: m", monthNames[m], t)
				e("<1>%s 28 %s h t: m", monthNames[m], t)
				e("<1>%s 31 %s h t: m", monthNames[m], t)
			}
		}
	}
	// every triple of pieces that mean something somewhere
	pieces := []string{"[", "]", `"`, `\`, "=", "-", ".", ":", "<", ">", "1", "a", "%", "/", "@", "'", "(", " ", "\u00e9", "\xff", "\xef\xbb\xbf"}
	for i, a := range pieces {
		for j, b := range pieces {
			for k, c := range pieces {
				x := a + b + c
				switch (i + j + k) % 3 {
				case 0:
					e("<14>%s %s t[1]: m", ts, x)
				case 1:
					e("<14>%s h %s[1]: m", ts, x)
				default:
					e("<14>%s h %s: m", ts, x)
				}
				e("<14>%s h t[%s]: m", ts, x)
				e("<14>%s h t[1]: %s", ts, x)
			}
		}
	}
	for i := 0; i < 1100; i++ {
		e("<%d>%s h t: m", i, ts)
		e("<%03d>%s h m", i, ts)
		e("<%d", i)
		e("<%d>", i)
	}
	for _, m := range append(append([]string{}, monthNames...), "jan", "FEB", "Xxx", "Jax", "Juy", "Ma", "   ") {
		for d := 0; d < 40; d++ {
			e("<1>%s %2d 01:02:03 h t[p]: m", m, d)
			e("<1>%s %02d 01:02:03 h t[p]: m", m, d)
			e("<1>%s %d 23:59:59 h t[p]: m", m, d)
			e("<1>%s %d 00:00:00 h t[p]: m", m, d)
			e("<1>%s %2d", m, d)
		}
	}
	for h := 0; h < 100; h++ {
		e("<1>Jan 10 %02d:02:03 h t: m", h)
		e("<1>Jan 10 00:%02d:03 h t: m", h)
		e("<1>Jan 10 00:01:%02d h t: m", h)
		e("<1>2020-01-02T%02d:02:03Z h t: m", h)
		e("<1>2020-01-02T00:%02d:03Z h t: m", h)
		e("<1>2020-01-02T00:02:%02dZ h t: m", h)
		e("<1>2020-01-02T00:02:01+%02d:00 h t: m", h)
		e("<1>2020-01-02T00:02:01-00:%02d h t: m", h)
	}
	for _, y := range []int{0, 4, 1900, 2000, 2019, 2020, 2100, 9999} {
		for m := 0; m <= 19; m++ {
			for d := 0; d <= 39; d++ {
				e("<1>%04d-%02d-%02dT01:02:03Z h t: m", y, m, d)
			}
		}
	}
	for n := 250; n < 260; n++ {
		e("<1>%s %s m", ts, strings.Repeat("h", n))
	}
	for n := 0; n < 36; n++ {
		e("<1>%s h %s: m", ts, strings.Repeat("t", n))
		e("<1>%s h %s[1]: m", ts, strings.Repeat("t", n))
		e("<1>%s h %s m", ts, strings.Repeat("t", n))
		e("<1>%s h %s:", ts, strings.Repeat("t", n))
		e("<1>%s h %s: ", ts, strings.Repeat("t", n))
		e("<1>%s h t[%s]: m", ts, strings.Repeat("9", n*10))
	}
	for a := 0; a < 256; a++ {
		s := string([]byte{byte(a)})
		for _, f := range []string{"%s", "x%s", "t:%s", "t: %s", "t: x%s", "t[%s", "t[1%s", "t[1]%s", "t[1]:%s", "t[1]: %s", "t[1]: x%s", "%s: m", "a%s: m", "a%s[1]: m", "t[%s]: m", "t[1]%s: m", "t[1]:%s m",
			"t[1]: x%s]: m", "t[1]: x%s]: %s", "t[1]: x\x01%s]: m", "t[1]: x\x01]: %sm"} {
			e("<1>"+ts+" h "+strings.Replace(f, "%s", "%[1]s", -1), s)
		}
		e("<1>%s h%s x", ts, s)
		e("<1>%s%sh x", ts, s)
		e("<1>%s h x%sy\n", ts, s)
	}
	// texts over a small alphabet, exhaustively
	al := "t:[] \x01-"
	var rec func(p string, n int)
	rec = func(p string, n int) {
		e("<1>%s h t%s", ts, p)
		if n == 0 {
			return
		}
		for i := 0; i < len(al); i++ {
			rec(p+al[i:i+1], n-1)
		}
	}
	rec("", 5)
	rec("[x]: ", 5)
	for _, n := range []int{1000, 4096, 8192, 65536, 200000} {
		e("<1>%s h t: %s", ts, strings.Repeat("x", n))
		e("<1>%s h t[%s]: m", ts, strings.Repeat("x", n))
		e("<1>%s h %s", ts, strings.Repeat("x", n))
	}
}

// scale3164: every length of every part, and sizes around powers of two
func scale3164(emit func([]byte)) {
	e := func(f string, a ...interface{}) { emit([]byte(fmt.Sprintf(f, a...))) }
	sizes := scaleSizes()
	x := strings.Repeat("x", 140000)
	d := "<1>Oct 11 22:14:15 h "
	for _, n := range sizes {
		e("%s%s", d, x[:n])
		e("%s%s y", d, x[:n])
		e("%s%s\x01", d, x[:n])
		e("%st: %s", d, x[:n])
		e("%st: %s\n", d, x[:n])
		e("%st[1]: %s", d, x[:n])
		e("%st[1]: %s]: y", d, x[:n])
		e("%st[%s]: m", d, x[:n])
		e("%st[%s]: m\x01%s]: m", d, x[:n], x[:n])
		e("%st[%s\n%s]: m", d, x[:n], x[:n])
		e("%st[%s", d, x[:n])
		if n <= 1100 || n == 4096 {
			e("%st[1%s]: m", d, strings.Repeat("]: ", n))
			e("%st[1%s", d, strings.Repeat("]: \x01", n))
			e("%s%sm", d, strings.Repeat("t: ", n))
			e("%st[%s]: m", d, strings.Repeat("]", n))
			e("%st: %s", d, strings.Repeat("\u00e9", n))
		}
		if n <= 300 {
			e("<1>Oct 11 22:14:15 %s t: m", x[:n])
			e("<1>2003-10-11T22:14:15Z %s t: m", x[:n])
			e("%s%s: m", d, x[:n])
			e("%s%s[1]: m", d, x[:n])
			e("%s%s", d, strings.Repeat(" ", n))
			e("%st:%s", d, strings.Repeat(" ", n))
		}
	}
}
