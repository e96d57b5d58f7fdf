package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// ---- generation of RFC 5424 inputs

const graphChars = "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func graphStr(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = graphChars[r.Intn(len(graphChars))]
	}
	return string(b)
}

func nameStr(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		for {
			c := graphChars[r.Intn(len(graphChars))]
			if c != '=' && c != ']' && c != '"' {
				b[i] = c
				break
			}
		}
	}
	return string(b)
}

// fieldLen: boundary biased length for a field of maximum max
func fieldLen(r *rand.Rand, max int) int {
	switch r.Intn(10) {
	case 0:
		return max
	case 1:
		return max - 1
	case 2:
		if r.Intn(4) == 0 {
			return max + 1
		}
		return max
	case 3:
		return 1 + r.Intn(max)
	default:
		m := 8
		if max < m {
			m = max
		}
		return 1 + r.Intn(m)
	}
}

func textField(r *rand.Rand, max int) string {
	if r.Intn(5) == 0 {
		return "-"
	}
	switch r.Intn(12) {
	case 0:
		return "--"
	case 1:
		return "-" + graphStr(r, r.Intn(3))
	case 2:
		return words[r.Intn(len(words))]
	}
	return graphStr(r, fieldLen(r, max))
}

func priStr(r *rand.Rand) string {
	if r.Intn(25) == 0 {
		return []string{"", "00", "01", "192", "199", "200", "1000", "0191", "x", "-1", "256", "001"}[r.Intn(12)]
	}
	return fmt.Sprint(r.Intn(192))
}

func verStr(r *rand.Rand) string {
	switch r.Intn(20) {
	case 0:
		return []string{"", "0", "01", "1000", "9999", "x", "1x", "12x", "0999"}[r.Intn(9)]
	case 1, 2, 3:
		return fmt.Sprint(1 + r.Intn(999))
	case 4:
		return "999"
	}
	return "1"
}

func dig2(r *rand.Rand, lo, hi int) string { return fmt.Sprintf("%02d", lo+r.Intn(hi-lo+1)) }

func ts3339(r *rand.Rand, fracAllowed bool) string {
	if r.Intn(30) == 0 {
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", r.Intn(10000), r.Intn(15), r.Intn(34), r.Intn(26), r.Intn(62), r.Intn(62))
	}
	y := r.Intn(10000)
	if r.Intn(3) > 0 {
		y = []int{0, 1, 4, 100, 400, 1900, 1970, 1999, 2000, 2016, 2019, 2020, 2021, 2024, 2038, 2100, 9999}[r.Intn(17)]
	}
	d := 1 + r.Intn(28)
	if r.Intn(3) == 0 {
		d = 28 + r.Intn(4)
	}
	s := fmt.Sprintf("%04d-%02d-%02dT%s:%s:%s", y, 1+r.Intn(12), d, dig2(r, 0, 23), dig2(r, 0, 59), dig2(r, 0, 59))
	if fracAllowed && r.Intn(2) == 0 {
		n := 1 + r.Intn(6)
		if r.Intn(12) == 0 {
			n = r.Intn(9)
		}
		s += "."
		for i := 0; i < n; i++ {
			s += string(rune('0' + r.Intn(10)))
		}
	}
	if r.Intn(2) == 0 {
		s += "Z"
	} else {
		s += []string{"+", "-"}[r.Intn(2)] + dig2(r, 0, 23) + ":" + dig2(r, 0, 59)
		if r.Intn(8) == 0 {
			s = s[:len(s)-5] + "00:00"
		}
	}
	return s
}

var utf8Pieces = []string{"\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf3\xa0\x80\x81",
	"\u00e9", "\u65e5", "\U0001F600", "\ufeff", "\xe1\x80\x80", "\xf1\x80\x80\x80"}
var badUtf8Pieces = []string{"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xfe", "\xe2\x82", "\xc3", "\xf0\x9f\x98"}

func paramVal(r *rand.Rand) string {
	var b strings.Builder
	n := r.Intn(5)
	if r.Intn(30) == 0 {
		n = 20 + r.Intn(60)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(10) {
		case 0:
			b.WriteString(utf8Pieces[r.Intn(len(utf8Pieces))])
		case 1, 2:
			b.WriteString([]string{`\\`, `\"`, `\]`}[r.Intn(3)])
		case 3:
			b.WriteByte(byte(r.Intn(128)) & 0x7f)
		default:
			b.WriteString(graphStr(r, 1))
		}
	}
	s := b.String()
	if r.Intn(4) > 0 {
		// keep it valid: strip stray specials
		var c strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == '\\' {
				if i+1 < len(s) && (s[i+1] == '\\' || s[i+1] == '"' || s[i+1] == ']') {
					c.WriteString(s[i : i+2])
					i++
				}
				continue
			}
			if s[i] == '"' || s[i] == ']' {
				continue
			}
			c.WriteByte(s[i])
		}
		return c.String()
	}
	if r.Intn(4) == 0 {
		s += badUtf8Pieces[r.Intn(len(badUtf8Pieces))]
	}
	if r.Intn(8) == 0 {
		return words[r.Intn(len(words))]
	}
	return s
}

func sdStr(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return "-"
	}
	var b strings.Builder
	n := 1 + r.Intn(3)
	if r.Intn(20) == 0 {
		n = 4 + r.Intn(8)
	}
	var ids, names []string
	for i := 0; i < n; i++ {
		id := nameStr(r, fieldLen(r, 32))
		if len(ids) > 0 && r.Intn(12) == 0 {
			id = ids[r.Intn(len(ids))]
		} else if len(ids) > 0 && r.Intn(12) == 0 {
			id = ids[r.Intn(len(ids))] + "x"
		}
		ids = append(ids, id)
		b.WriteString("[" + id)
		k := r.Intn(4)
		if r.Intn(20) == 0 {
			k = 4 + r.Intn(8)
		}
		for j := 0; j < k; j++ {
			nm := nameStr(r, fieldLen(r, 32))
			if len(names) > 0 && r.Intn(4) == 0 {
				nm = names[r.Intn(len(names))]
			}
			names = append(names, nm)
			b.WriteString(" " + nm + `="` + paramVal(r) + `"`)
		}
		b.WriteString("]")
	}
	return b.String()
}

func bytesStr(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return string(b)
}

func msgPart(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0:
		return ""
	case 1:
		return " "
	case 2, 3:
		return " " + graphStr(r, 1+r.Intn(12))
	case 4:
		return " " + bytesStr(r, 1+r.Intn(12))
	case 5, 6:
		s := " \xef\xbb\xbf"
		for i := r.Intn(5); i > 0; i-- {
			if r.Intn(2) == 0 {
				s += utf8Pieces[r.Intn(len(utf8Pieces))]
			} else {
				s += string([]byte{byte(r.Intn(128))})
			}
		}
		if r.Intn(3) == 0 {
			s += badUtf8Pieces[r.Intn(len(badUtf8Pieces))]
			if r.Intn(2) == 0 {
				s += graphStr(r, r.Intn(3))
			}
		}
		return s
	case 7:
		return " " + []string{"\xef", "\xef\xbb", "\xef\xbb\xbe\xff", "\xef\xbc\xbf\xff", "a\xef\xbb\xbf\xff", "\x00", "\n", "<1>1 - - - - - -", " \xef\xbb\xbf\xff"}[r.Intn(9)]
	}
	n := r.Intn(60)
	if r.Intn(40) == 0 {
		n = 200 + r.Intn(2000)
	}
	return " " + bytesStr(r, n)
}

func gen5424(r *rand.Rand) []byte {
	ts := "-"
	if r.Intn(4) > 0 {
		ts = ts3339(r, true)
	}
	parts := []string{"<" + priStr(r) + ">" + verStr(r), ts, textField(r, 255), textField(r, 48), textField(r, 128), textField(r, 32), sdStr(r)}
	s := strings.Join(parts, " ") + msgPart(r)
	b := []byte(s)
	if r.Intn(3) == 0 {
		b = mutate(r, b)
	}
	return b
}

var interesting = []byte("<>[]\"\\= -:.0123456789TZ+\x00\n\x7f\x80\xef\xbb\xbf\xff")

func mutate(r *rand.Rand, b []byte) []byte {
	for k := 1 + r.Intn(2); k > 0 && len(b) > 0; k-- {
		p := r.Intn(len(b))
		c := interesting[r.Intn(len(interesting))]
		if r.Intn(3) == 0 {
			c = byte(r.Intn(256))
		}
		switch r.Intn(6) {
		case 0:
			b[p] = c
		case 1:
			b = append(b[:p], append([]byte{c}, b[p:]...)...)
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3, 4:
			b = b[:p]
		case 5:
			q := p + r.Intn(len(b)-p)
			b = append(b[:q], append(append([]byte{}, b[p:q]...), b[q:]...)...)
		}
	}
	return b
}

// dictionary inputs: exhaustive small families of single fields
func families5424(emit func([]byte)) {
	e := func(f string, a ...interface{}) { emit([]byte(fmt.Sprintf(f, a...))) }
	tail := "1 - - - - - -"
	for i, w := range words {
		e("<14>1 - %s - - - - m", w)
		e("<14>1 - - %s - - - m", w)
		e("<14>1 - - - %s - - m", w)
		e("<14>1 - - - - %s - m", w)
		e("<14>1 - - - - - [%s a=\"b\"] m", w)
		e("<14>1 - - - - - [i %s=\"b\"] m", w)
		e("<14>1 - - - - - [i a=\"%s\"] m", w)
		e("<14>1 - - - - - - %s", w)
		v := words[(i*7+3)%len(words)]
		e("<14>1 2003-10-11T22:14:15.003Z %s %s %s %s [%s %s=\"%s\"] %s", w, v, w, v, w, v, v, w)
		e("<14>1 - %s %s %s %s [%s %s=\"%s\"][%s] %s", w, w, w, w, w, w, w, v, w)
	}
	// every triple of pieces that mean something somewhere
	inValue := []string{`\]`, `\\`, `\"`, "[", "=", " ", "<", ">", "-", "\n", "\x00", "\x7f", "\xef\xbb\xbf", "\u00e9", "'", "a", "0", "%", ",", "/"}
	inText := []string{"[", "]", `"`, `\`, "=", "-", ".", ":", "<", ">", "1", "a", "%", "/", "@", ",", "'", "~"}
	inMsg := append(append([]string{}, inText...), " ", "\n", "\r", "\x00", "\xef\xbb\xbf", "\u00e9", "\xff")
	for i, a := range inMsg {
		for j, b := range inMsg {
			for k, c := range inMsg {
				e("<14>1 - - - - - - %s%s%s", a, b, c)
				if i < len(inText) && j < len(inText) && k < len(inText) {
					switch (i + j + k) % 4 {
					case 0:
						e("<14>1 - %s%s%s - - - - m", a, b, c)
					case 1:
						e("<14>1 - - %s%s%s - - - m", a, b, c)
					case 2:
						e("<14>1 - - - %s%s%s - - m", a, b, c)
					default:
						e("<14>1 - - - - %s%s%s - m", a, b, c)
					}
					e("<14>1 - - - - - [%s%s%s] m", a, b, c)
					e("<14>1 - - - - - [i %s%s%s=\"v\"] m", a, b, c)
				}
			}
		}
	}
	for _, a := range inValue {
		for _, b := range inValue {
			for _, c := range inValue {
				e("<14>1 - - - - - [i n=\"%s%s%s\"] m", a, b, c)
			}
		}
	}
	for i, x := range texts {
		e("<165>1 - - - - - - %s", x)
		e("<165>1 2003-10-11T22:14:15.003Z h %s 1 ID47 [i a=\"b\"] \xef\xbb\xbf%s", words[i], x)
		e("<165>1 - - - - - [i a=\"%s\"] %s", x, x)
	}
	for i := 0; i < 1200; i++ {
		e("<%d>%s", i, tail)
		e("<%02d>%s", i, tail)
		e("<%03d>%s m", i, tail)
		e("<1>%d - - - - - -", i)
		e("<1>%02d - - - - - -", i)
		e("<1>%03d", i)
		e("<1>%d", i)
		e("<%d>1", i)
		e("<%d", i)
	}
	for _, y := range []int{0, 1, 4, 100, 400, 1900, 2000, 2019, 2020, 2100, 2400, 9999} {
		for m := 0; m <= 19; m++ {
			for d := 0; d <= 39; d++ {
				e("<1>1 %04d-%02d-%02dT01:02:03Z - - - - -", y, m, d)
			}
		}
	}
	for y := 0; y < 10000; y++ {
		e("<1>1 %04d-02-29T01:02:03.5-07:30 - - - - -", y)
	}
	for h := 0; h < 100; h++ {
		e("<1>1 2020-01-02T%02d:02:03Z - - - - - m", h)
		e("<1>1 2020-01-02T00:%02d:03Z - - - - - m", h)
		e("<1>1 2020-01-02T00:02:%02dZ - - - - - m", h)
		e("<1>1 2020-01-02T00:02:01+%02d:00 - - - - - m", h)
		e("<1>1 2020-01-02T00:02:01-00:%02d - - - - - m", h)
		e("<1>1 2020-01-02T00:02:01-%02d:59 - - - - - m", h)
	}
	for _, d := range []string{"0000-01-01", "0000-12-31", "0001-01-01", "1582-10-15", "1899-12-31", "1969-12-31", "1970-01-01", "2000-02-29", "2024-02-29", "2023-08-13", "2038-01-19", "2106-02-07", "2262-04-11", "2262-04-12", "9999-12-31"} {
		for _, t := range []string{"00:00:00", "00:00:01", "12:00:00", "13:37:13", "23:00:00", "23:59:00", "23:59:59"} {
			for _, f := range []string{"", ".0", ".1", ".9", ".000001", ".001", ".500000", ".999999", ".999", ".123456"} {
				for _, z := range []string{"Z", "+00:00", "-00:00", "+00:01", "-00:30", "+05:45", "+12:45", "+14:00", "-03:30", "-12:00", "+23:59", "-23:59"} {
					e("<1>1 %sT%s%s%s - - - - -", d, t, f, z)
				}
			}
		}
	}
	fr := "9081726354"
	for n := 0; n <= 9; n++ {
		e("<1>1 2020-01-02T00:02:01.%sZ - - - - - m", fr[:n])
		e("<1>1 2020-01-02T00:02:01.%s+01:30 - - - - - m", fr[:n])
		e("<1>1 2020-01-02T00:02:01.%s- - - - - - m", strings.Repeat("0", n))
		e("<1>1 2020-01-02T00:02:01.%s1-00:00 - - - - - m", strings.Repeat("0", n))
	}
	// every pair of bytes inside a parameter value, after a BOM, in a name
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			ab := string([]byte{byte(a), byte(b)})
			emit([]byte(`<1>1 - - - - - [a b="` + ab + `"]`))
			emit([]byte("<1>1 - - - - - - \xef\xbb\xbf" + ab))
			if a >= 0xe0 {
				for _, c := range []string{"\x7f", "\x80", "\x9f", "\xa0", "\xbf", "\xc0"} {
					emit([]byte(`<1>1 - - - - - [a b="` + ab + c + `"]`))
					emit([]byte("<1>1 - - - - - - \xef\xbb\xbf" + ab + c))
					if a >= 0xf0 {
						emit([]byte(`<1>1 - - - - - [a b="` + ab + c + "\x80\"]"))
						emit([]byte("<1>1 - - - - - - \xef\xbb\xbf" + ab + c + "\xbf"))
						emit([]byte("<1>1 - - - - - - \xef\xbb\xbf" + ab + c + "\xc0"))
					}
				}
			}
		}
		emit([]byte("<1>1 - - - - - - " + string([]byte{byte(a)})))
		emit([]byte("<1>1 - - - - - - x" + string([]byte{byte(a)}) + "y"))
		emit([]byte("<1>1 - - - - - - \xef" + string([]byte{byte(a)}) + "\xff"))
		emit([]byte("<1>1 - - - - - - \xef\xbb" + string([]byte{byte(a)}) + "\xff"))
	}
	// long messages
	for _, n := range []int{1000, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000} {
		emit([]byte("<1>1 - - - - - - " + strings.Repeat("x", n)))
		emit([]byte(`<1>1 - - - - - [a b="` + strings.Repeat("x", n) + `"] m`))
	}
	// many elements and parameters
	for _, n := range []int{2, 10, 33, 300} {
		s, q := "", ""
		for i := 0; i < n; i++ {
			s += fmt.Sprintf(`[e%d p="%d"]`, i, i)
			q += fmt.Sprintf(` p%d="%d"`, i, i)
		}
		emit([]byte("<1>1 - - - - - " + s + " m"))
		emit([]byte("<1>1 - - - - - [e" + q + "] m"))
		emit([]byte("<1>1 - - - - - [e" + q + q + "] m"))
		emit([]byte("<1>1 - - - - - " + s + "[e0]"))
		emit([]byte("<1>1 - - - - - " + s + "[e" + fmt.Sprint(n-1) + " "))
	}
	// boundary lengths of all header fields
	for _, h := range []int{1, 2, 254, 255, 256} {
		for _, a := range []int{1, 47, 48, 49} {
			for _, p := range []int{1, 127, 128, 129} {
				for _, m := range []int{1, 31, 32, 33} {
					e("<1>1 - %s %s %s %s -", strings.Repeat("h", h), strings.Repeat("a", a), strings.Repeat("p", p), strings.Repeat("m", m))
				}
			}
		}
	}
	for i := 30; i <= 34; i++ {
		e("<1>1 - - - - - [%s]", strings.Repeat("i", i))
		e(`<1>1 - - - - - [i %s="v"]`, strings.Repeat("n", i))
	}
}

// scale5424: every length of every part up to a little above any bound one
// could think of, and sizes around powers of two
func scale5424(emit func([]byte)) {
	e := func(f string, a ...interface{}) { emit([]byte(fmt.Sprintf(f, a...))) }
	sizes := scaleSizes()
	x := strings.Repeat("x", 140000)
	for _, n := range sizes {
		e("<1>1 - - - - - - %s", x[:n])
		e("<1>1 - - - - - - \xef\xbb\xbf%s", x[:n])
		e("<1>1 - - - - - - \xef\xbb\xbf%s\xc3\xa9%s\xff%s", x[:n], x[:n], x[:3])
		e("<1>1 - - - - - - %s\n\x00\xff\xef\xbb\xbf%s", x[:n], x[:2])
		e(`<1>1 - - - - - [a b="%s"] m`, x[:n])
		e(`<1>1 - - - - - [a b="%s\\]\xc3\xa9%s\"" c="%s\\"] m`, x[:n], x[:n], x[:n])
		e(`<1>1 - - - - - [a b="%s\\x"] m`, x[:n])
		e(`<1>1 - - - - - [a b="%s\xff"] m`, x[:n])
		if n > 70000 {
			continue
		}
		e(`<1>1 - - - - - [a b="%s"] m`, strings.Repeat(`\"`, n))
		e(`<1>1 - - - - - [a b="%s"] m`, strings.Repeat(`q\\`, n))
		e(`<1>1 - - - - - [a b="%sq"][c d="\]"] m`, strings.Repeat(`\]`, n))
		e(`<1>1 - - - - - [a b="%s"] m`, strings.Repeat("\u00e9", n))
		if n > 700 && n != 1024 && n != 1025 {
			continue
		}
		var els, pars, rep strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&els, `[e%d p="\]%d"]`, i, i)
			fmt.Fprintf(&pars, ` p%d="%d\""`, i, i)
			fmt.Fprintf(&rep, ` p="%d"`, i)
		}
		e("<1>1 - - - - - %s m", els.String())
		e("<1>1 - - - - - %s[e%d] m", els.String(), n/2)
		e("<1>1 - - - - - %s[e%d x=\"\"] m", els.String(), n-1)
		e("<1>1 - - - - - %s[e", els.String())
		e("<1>1 - - - - - [e%s] m", pars.String())
		e("<1>1 - - - - - [e%s p%d=\"z\"] m", pars.String(), n/2)
		e("<1>1 - - - - - [e%s p", pars.String())
		e("<1>1 - - - - - [e%s] m", rep.String())
		e("<1>1 - - - - - [e%s][f%s] m", pars.String(), rep.String())
		if n > 300 {
			continue
		}
		e("<1>1 - %s - - - - m", x[:n])
		e("<1>1 - %s", x[:n])
		e("<1>1 - h %s - - - m", x[:n])
		e("<1>1 - h a %s - - m", x[:n])
		e("<1>1 - h a p %s - m", x[:n])
		e("<1>1 - h a p m [%s] m", x[:n])
		e(`<1>1 - h a p m [i %s="v"] m`, x[:n])
		e("<1>1%s", strings.Repeat(" ", n))
		e("<1>1 - - - - - -%s", strings.Repeat(" ", n))
	}
}
