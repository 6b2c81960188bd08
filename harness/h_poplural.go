package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/poplural"
)

func pluralCounts(h *H) []int64 {
	var ns []int64
	for n := int64(0); n <= 2300; n++ {
		ns = append(ns, n)
	}
	for _, b := range []int64{10000, 99900, 100000, 1000000, 2000000, 5000000, 10000000, 100000000, 1000000000, 1 << 31, 1 << 32, 1 << 33, 1 << 53, 1<<62 - 1, 1 << 60, 1000000000000, 1000000000000000000} {
		for d := int64(-12); d <= 112; d++ {
			ns = append(ns, b+d)
		}
	}
	for d := int64(0); d < 130; d++ {
		ns = append(ns, 1<<63-1-d)
	}
	for _, v := range h.ints {
		if v >= 0 {
			ns = append(ns, v)
		}
	}
	for i := 0; i < h.n(300); i++ {
		ns = append(ns, h.rnd.Int63()>>uint(h.rnd.Intn(60)))
	}
	return ns
}

func init() {
	register("C02", "gettext forms of every built-in language and of every header text against an independent C evaluator; "+
		"counts 0..2300, neighbourhoods of powers and the int64 maximum, random counts; all integer types; distinct means different rule, text or count type", func(h *H) {
		ns := pluralCounts(h)
		var hdrs []string
		for hd := range pluralHeaders {
			hdrs = append(hdrs, hd)
		}
		sort.Strings(hdrs)
		check := func(key, in string, e *cx, np int, f func(a any) (int, error)) {
			h.Case(key, in, func() {
				for _, n := range ns {
					want, ok := e.value(n)
					if !ok {
						continue
					}
					got, err := f(n)
					if err != nil || int64(got) != want || got < 0 || got >= np {
						h.Fail(key, fmt.Sprintf("%s count int64(%d)", in, n), fmt.Sprintf("form %d (err %v), want %d", got, err, want))
						break
					}
				}
			})
		}
		for _, hd := range hdrs {
			np, e := cHeader(hd)
			for _, l := range pluralHeaders[hd] {
				tag, err := language.Parse(l)
				if err != nil {
					continue
				}
				f, found := poplural.ForLanguage(tag)
				h.Checkf(found, "c02/found", l, "no rule found for a language with built-in rules")
				check("c02/language", "poplural.ForLanguage("+l+")", e, np, f)
			}
			// the header text itself and other spellings of it
			for i := 0; i < h.n(4); i++ {
				text := hd
				if i == 1 {
					text = strings.ReplaceAll(strings.ReplaceAll(hd, " ", ""), ";plural", "; plural")
				} else if i > 1 {
					text = fmt.Sprintf("nplurals=%d; plural=%s;", np, e.text(0, h.rnd))
				}
				r, err := poplural.Parse(text)
				if err != nil {
					h.Fail("c02/parse", text, "error "+err.Error())
					continue
				}
				h.Checkf(r.NPlurals == np, "c02/nplurals", text, "NPlurals %d, want %d", r.NPlurals, np)
				check("c02/header", "poplural.Parse("+text+")", e, np, r.Evaluate)
			}
		}
		// regional and script variants fall back to their parents
		for l, like := range map[string]string{"pt-AO": "pt-PT", "de-LI": "de", "zh-TW": "zh", "sr-Latn": "sr", "en-NZ": "en", "es-419": "es", "ru-UA": "ru", "ar-EG": "ar",
			"pl-PL": "pl", "ja-JP": "ja", "fr-CA": "fr", "es-MX": "es", "lt-LT": "lt", "cs-CZ": "cs", "ga-IE": "ga", "sl-SI": "sl", "lv-LV": "lv", "he-IL": "he"} {
			for _, hd := range hdrs {
				np, e := cHeader(hd)
				for _, x := range pluralHeaders[hd] {
					if x == like {
						f, found := poplural.ForLanguage(language.MustParse(l))
						h.Checkf(found, "c02/found", l, "no rule found")
						check("c02/variant", "poplural.ForLanguage("+l+")", e, np, f)
					}
				}
			}
		}
		en, e := cHeader("nplurals=2; plural=n != 1;")
		for _, l := range []string{"und", "tlh", "mis", "art-x-test", "qaa"} {
			f, found := poplural.ForLanguage(language.MustParse(l))
			h.Checkf(!found, "c02/unknown", l, "a rule is claimed to exist")
			check("c02/unknown", "poplural.ForLanguage("+l+")", e, en, f)
		}
		// every integer type, signs and pointers
		type namedInt int32
		r, _ := poplural.Parse("nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;")
		_, se := cHeader("nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;")
		typed := func(v any, abs int64) {
			in := fmt.Sprintf("Evaluate(%T(%v))", v, v)
			h.Case("c02/types", in, func() {
				got, err := r.Evaluate(v)
				want := se.eval(abs)
				h.Checkf(err == nil && int64(got) == want, "c02/types", in, "form %d (err %v), want %d", got, err, want)
			})
		}
		for _, n := range []int64{0, 1, 2, 5, 11, 21, 22, 101, 111, 121, 122} {
			typed(int8(n), n)
			typed(int8(-n), n)
			typed(uint8(n), n)
		}
		for _, n := range ns {
			if n%7 != 0 && n > 130 && n < 1<<40 {
				continue
			}
			typed(n, n)
			typed(-n, n)
			typed(int(n), n)
			typed(uint64(n), n)
			typed(uint(n), n)
			p := n
			typed(&p, n)
			if n < 1<<15 {
				typed(int16(n), n)
				typed(-int16(n), n)
				typed(uint16(n), n)
			}
			if n < 1<<31 {
				typed(int32(n), n)
				typed(-int32(n), n)
				typed(uint32(n), n)
				typed(float64(n), n)
				typed(fmt.Sprint(n), n)
				typed(namedInt(n), n)
			}
		}
	})
}

func (h *H) randCx(d int) *cx {
	if d <= 0 || h.rnd.Intn(7) == 0 {
		if h.rnd.Intn(5) < 3 {
			return &cx{op: "n"}
		}
		return &cx{op: "num", v: []int64{0, 1, 2, 3, 4, 5, 7, 10, 11, 12, 19, 20, 100, 101, 1000000, 1 << 40, 1<<63 - 1}[h.rnd.Intn(17)]}
	}
	ops := []string{"?:", "?:", "||", "&&", "==", "!=", "<", ">", "<=", ">=", "%", "%", "||", "&&"}
	o := ops[h.rnd.Intn(len(ops))]
	e := &cx{op: o, a: h.randCx(d - 1), b: h.randCx(d - 1)}
	if o == "?:" {
		e.c = h.randCx(d - 1)
	}
	return e
}

// cTokens splits a header into tokens (blanks dropped).
func cTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
			continue
		case c >= 'a' && c <= 'z':
			for j < len(s) && s[j] >= 'a' && s[j] <= 'z' {
				j++
			}
		case c >= '0' && c <= '9':
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
		case j < len(s) && (s[j] == '=' && strings.IndexByte("=!<>", c) >= 0 || s[j] == c && (c == '&' || c == '|')):
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func init() {
	register("C03", "Plural-Forms headers: random formulas printed with minimal, redundant and no blanks or parentheses, every regrouping of the built-in header texts by one pair of "+
		"parentheses, and mutated token sequences, accepted and evaluated against an independent C parser and evaluator for sampled counts; distinct means different header", func(h *H) {
		ns := []int64{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 19, 20, 21, 22, 99, 100, 101, 102, 111, 119, 1000, 1001, 40000, 999999, 1000000, 1000001, 2000000, 1 << 40, 1<<53 + 1, 1<<62 - 1, 1<<63 - 1}
		for _, v := range h.ints {
			if v >= 0 {
				ns = append(ns, v)
			}
		}
		one := func(key, text string) {
			h.Case(key, text, func() {
				np, e, ok := cHeaderTry(text)
				r, err := poplural.Parse(text)
				if !ok {
					h.Checkf(err != nil, key+"/malformed-accepted", text, "a malformed header was accepted")
					return
				}
				if err != nil {
					h.Fail(key+"/valid-rejected", text, "error: "+err.Error())
					return
				}
				h.Checkf(r.NPlurals == np, key+"/nplurals", text, "NPlurals %d, want %d", r.NPlurals, np)
				for _, n := range ns {
					want, def := e.value(n)
					if !def {
						if _, err := r.Evaluate(n); err != nil {
							h.Fail(key+"/value", fmt.Sprintf("%s with n=%d", text, n), "error "+err.Error())
						}
						continue
					}
					got, err := r.Evaluate(n)
					if err != nil || int64(got) != want {
						h.Fail(key+"/value", fmt.Sprintf("%s with n=%d", text, n), fmt.Sprintf("form %d (err %v), C gives %d", got, err, want))
						break
					}
				}
			})
		}
		blanks := func(ts []string) string {
			s := ""
			for i, t := range ts {
				if i > 0 && ((isWord(ts[i-1]) && isWord(t)) || h.rnd.Intn(2) == 0 || isOpEnd(ts[i-1], t)) {
					s += []string{" ", " ", "  ", "\t", "\n"}[h.rnd.Intn(5)]
				}
				s += t
			}
			return s
		}
		var hdrs []string
		for hd := range pluralHeaders {
			hdrs = append(hdrs, hd)
		}
		sort.Strings(hdrs)
		for _, hd := range hdrs {
			one("c03/builtin", hd)
			ts := cTokens(hd)
			// regrouping by one pair of parentheses, removing one pair, and chains
			for i := 6; i < len(ts)-1; i++ {
				for j := i + 1; j < len(ts)-1 && j < i+40; j++ {
					if len(ts) > 120 && h.rnd.Intn(len(ts)/60) != 0 {
						continue
					}
					x := append(append(append(append(append([]string{}, ts[:i]...), "("), ts[i:j+1]...), ")"), ts[j+1:]...)
					text := strings.Join(x, " ")
					if _, _, ok := cHeaderTry(text); ok {
						one("c03/regrouped", text)
					}
				}
				if ts[i] == "(" {
					depth := 0
					for j := i; j < len(ts); j++ {
						if ts[j] == "(" {
							depth++
						} else if ts[j] == ")" {
							if depth--; depth == 0 {
								x := append(append(append([]string{}, ts[:i]...), ts[i+1:j]...), ts[j+1:]...)
								one("c03/regrouped", strings.Join(x, " "))
								break
							}
						}
					}
				}
			}
			if h.expired() {
				break
			}
		}
		for i := 0; i < h.n(6000); i++ {
			e := h.randCx(1 + h.rnd.Intn(5))
			np := 1 + h.rnd.Intn(7)
			one("c03/minimal", fmt.Sprintf("nplurals=%d; plural=%s;", np, e.text(0, nil)))
			one("c03/random", fmt.Sprintf("nplurals=%d; plural=%s;", np, e.text(0, h.rnd)))
		}
		toks := []string{"n", "0", "1", "2", "10", "100", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "?", ":", ";", "(", ")", "=", "plural", "nplurals", "&", "|", "!", "+", "x", "99999999999999999999"}
		for i := 0; i < h.n(8000); i++ {
			var ts []string
			if i%3 == 0 {
				ts = cTokens(hdrs[h.rnd.Intn(len(hdrs))])
			} else {
				ts = cTokens(fmt.Sprintf("nplurals=%d; plural=%s;", 1+h.rnd.Intn(6), h.randCx(1+h.rnd.Intn(4)).text(0, h.rnd)))
			}
			for k := 1 + h.rnd.Intn(3); k > 0 && len(ts) > 1; k-- {
				p := h.rnd.Intn(len(ts))
				switch h.rnd.Intn(5) {
				case 0:
					ts = append(ts[:p:p], ts[p+1:]...)
				case 1:
					ts[p] = toks[h.rnd.Intn(len(toks))]
				case 2:
					ts = append(append(ts[:p:p], toks[h.rnd.Intn(len(toks))]), ts[p:]...)
				case 3:
					q := h.rnd.Intn(len(ts))
					ts[p], ts[q] = ts[q], ts[p]
				case 4:
					ts = ts[:p]
				}
			}
			one("c03/mutated", blanks(ts))
		}
		for _, s := range append([]string{"", " ", "nplurals", "nplurals=2", "nplurals=2;", "plural=n;", "nplurals=2; plural=n != 1", "nplurals=2; plural=;", "nplurals=x; plural=n;",
			"nplurals=2; plural=n_;", "nplurals=2; plural=1_0;", "nplurals=2; plural=n != 1; x", "nplurals=99999999999999999999; plural=0;", "nplurals=-1; plural=0;"}, h.strs...) {
			one("c03/text", s)
		}
	})
}

func isWord(s string) bool {
	return s != "" && (s[0] >= 'a' && s[0] <= 'z' || s[0] >= '0' && s[0] <= '9')
}

// isOpEnd: the tokens would be read as another token without a blank between them.
func isOpEnd(a, b string) bool {
	return strings.HasPrefix(b, "=") && strings.IndexByte("<>=!", a[len(a)-1]) >= 0 || a == b && (a == "&" || a == "|")
}
