package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

// ---- CLDR rule texts evaluated with big numbers, independent of the code under test

type cldrOps struct {
	n                *big.Rat
	i, v, w, f, t, c *big.Int
}

// cldrOpsOf: the operands of a decimal text "ddd", "ddd.ddd" or "d.dcN".
func cldrOpsOf(s string) cldrOps {
	m, e, _ := strings.Cut(s, "c")
	ip, fp, _ := strings.Cut(m, ".")
	k, _ := strconv.Atoi(e)
	o := cldrOps{c: big.NewInt(int64(k))}
	for ; k > 0; k-- {
		if fp == "" {
			ip += "0"
		} else {
			ip, fp = ip+fp[:1], fp[1:]
		}
	}
	num := func(d string) *big.Int {
		b, _ := new(big.Int).SetString("0"+d, 10)
		return b
	}
	tp := strings.TrimRight(fp, "0")
	o.n, _ = new(big.Rat).SetString("0" + ip + "." + fp + "0")
	o.i, o.f, o.t = num(ip), num(fp), num(tp)
	o.v, o.w = big.NewInt(int64(len(fp))), big.NewInt(int64(len(tp)))
	return o
}

func (o cldrOps) get(name string) *big.Rat {
	switch name {
	case "n":
		return o.n
	case "i":
		return new(big.Rat).SetInt(o.i)
	case "v":
		return new(big.Rat).SetInt(o.v)
	case "w":
		return new(big.Rat).SetInt(o.w)
	case "f":
		return new(big.Rat).SetInt(o.f)
	case "t":
		return new(big.Rat).SetInt(o.t)
	case "c", "e":
		return new(big.Rat).SetInt(o.c)
	}
	panic("operand " + name)
}

func cldrHolds(rule string, o cldrOps) bool {
	rule, _, _ = strings.Cut(rule, "@")
	if strings.TrimSpace(rule) == "" {
		return true
	}
	for _, or := range strings.Split(rule, " or ") {
		all := true
		for _, rel := range strings.Split(or, " and ") {
			all = all && cldrRel(rel, o)
		}
		if all {
			return true
		}
	}
	return false
}

func cldrRel(rel string, o cldrOps) bool {
	l, list, neg := strings.Cut(rel, "!=")
	if !neg {
		l, list, _ = strings.Cut(rel, "=")
	}
	name, mod, hasMod := strings.Cut(l, "%")
	x := o.get(strings.TrimSpace(name))
	if hasMod {
		m, _ := new(big.Rat).SetString(strings.TrimSpace(mod))
		q := new(big.Rat).Quo(x, m)
		fl := new(big.Rat).SetInt(new(big.Int).Quo(q.Num(), q.Denom()))
		x = new(big.Rat).Sub(x, fl.Mul(fl, m))
	}
	in := false
	for _, e := range strings.Split(list, ",") {
		a, b, isRange := strings.Cut(e, "..")
		lo, _ := new(big.Rat).SetString(strings.TrimSpace(a))
		if !isRange {
			in = in || x.Cmp(lo) == 0
			continue
		}
		hi, _ := new(big.Rat).SetString(strings.TrimSpace(b))
		in = in || x.IsInt() && x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0
	}
	return in != neg
}

var catNames = []string{"zero", "one", "two", "few", "many", "other"}

func (l cldrLang) category(o cldrOps) int {
	for _, r := range l.rules {
		if cldrHolds(r[1], o) {
			return catIndex(r[0])
		}
	}
	return 5
}

func catIndex(name string) int {
	for i, n := range catNames {
		if n == name {
			return i
		}
	}
	panic(name)
}

// decimalTexts: counts without loss in a float64.
func decimalTexts(h *H) []string {
	var ss []string
	for i := 0; i <= 220; i++ {
		ss = append(ss, strconv.Itoa(i))
	}
	for _, b := range []int{1000, 1100, 1111, 2000, 9900, 10000, 20000, 40000, 60000, 80000, 99900, 100000, 100010, 101000, 120000, 1000000, 1000080, 2000000, 1100000, 1000011, 10000000, 123000000, 1 << 31, 1 << 32, 1 << 53 / 100 * 100} {
		for d := 0; d < 25; d++ {
			ss = append(ss, strconv.Itoa(b+d))
		}
	}
	for _, ip := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "9", "10", "11", "12", "14", "19", "20", "21", "22", "40", "60", "80", "91", "99", "100", "101", "111", "1000", "1011", "40000", "1000000"} {
		for _, fp := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "00", "01", "02", "03", "04", "05", "09", "10", "11", "12", "13", "14", "19", "20", "21", "22", "29", "31", "40", "50", "71", "91", "99", "000", "001", "010", "011", "012", "021", "040", "100", "101", "102", "111", "112", "120", "0000", "1000", "00001"} {
			ss = append(ss, ip+"."+fp)
		}
		for _, c := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "9"} {
			ss = append(ss, ip+"c"+c)
			ss = append(ss, ip+".1c"+c, ip+".20c"+c, ip+".000001c"+c)
		}
	}
	for i := 0; i < h.n(600); i++ {
		s := strconv.Itoa(h.rnd.Intn(1 << uint(1+h.rnd.Intn(30))))
		if h.rnd.Intn(2) == 0 {
			s += "." + fmt.Sprintf("%0*d", 1+h.rnd.Intn(5), h.rnd.Intn(10000))
		}
		if h.rnd.Intn(4) == 0 {
			s += "c" + strconv.Itoa(h.rnd.Intn(8))
		}
		ss = append(ss, s)
	}
	return ss
}

func init() {
	register("C01", "categories of every built-in CLDR language against the rule texts evaluated with big numbers; integers 0..220 and around the moduli, "+
		"decimals, compact notation, random counts; languages by tag, regional variants and unknown languages; distinct means different language", func(h *H) {
		texts := decimalTexts(h)
		ops := make([]cldrOps, len(texts))
		for i, s := range texts {
			ops[i] = cldrOpsOf(s)
		}
		byName := map[string]cldrLang{}
		check := func(key, name string, l cldrLang, rs *cldrplural.RuleSet) {
			in := "cldrplural.ForLanguage(" + name + ")"
			h.Case(key, in, func() {
				if rs == nil {
					h.Fail(key, in, "no rules")
					return
				}
				var want []int
				for _, r := range l.rules {
					want = append(want, catIndex(r[0]))
				}
				want = append(want, 5)
				ok := len(want) == len(rs.Categories)
				for i := range want {
					ok = ok && int(rs.Categories[i]) == want[i]
				}
				h.Checkf(ok, key, in, "categories %v, want %v", rs.Categories, want)
				for i, s := range texts {
					got, err := rs.Evaluate(s)
					if w := l.category(ops[i]); err != nil || int(got) != w {
						h.Fail(key, in+" count "+s, fmt.Sprintf("%v (err %v), want %s", got, err, catNames[w]))
						return
					}
				}
			})
		}
		for _, l := range cldrLangs {
			for _, name := range l.langs {
				byName[name] = l
				tag, err := language.Parse(name)
				if err != nil || tag.IsRoot() {
					continue
				}
				rs, found := cldrplural.ForLanguage(tag)
				h.Checkf(found, "c01/found", name, "no rules found for a language with built-in rules")
				if tag.String() != name {
					continue // a deprecated code; the canonical one decides
				}
				check("c01/language", name, l, rs)
			}
		}
		for v, like := range map[string]string{"pt-AO": "pt-PT", "pt-MZ": "pt-PT", "pt-BR": "pt", "de-LI": "de", "zh-TW": "zh", "sr-Latn": "sr", "en-NZ": "en", "es-419": "es", "ru-UA": "ru", "ar-EG": "ar",
			"pl-PL": "pl", "ja-JP": "ja", "fr-CA": "fr", "es-MX": "es", "lt-LT": "lt", "cs-CZ": "cs", "ga-IE": "ga", "sl-SI": "sl", "lv-LV": "lv", "he-IL": "he", "cy-GB": "cy", "br-FR": "br", "gv-IM": "gv", "kw-GB": "kw", "it-CH": "it",
			"ro-MD": "ro", "mk-MK": "mk", "is-IS": "is", "da-DK": "da", "mt-MT": "mt", "bs-BA": "bs", "hsb-DE": "hsb", "fil-PH": "fil", "ca-ES": "ca"} {
			rs, found := cldrplural.ForLanguage(language.MustParse(v))
			h.Checkf(found, "c01/found", v, "no rules found")
			check("c01/variant", v, byName[like], rs)
		}
		for _, v := range []string{"und", "tlh", "mis", "art-x-test", "qaa"} {
			rs, found := cldrplural.ForLanguage(language.MustParse(v))
			h.Checkf(!found, "c01/unknown", v, "rules are claimed to exist")
			check("c01/unknown", v, byName["en"], rs)
		}
		// integers of other types select as their text does
		for _, name := range []string{"ar", "ru", "fr", "cy", "pl", "lt"} {
			rs, _ := cldrplural.ForLanguage(language.MustParse(name))
			for n := int64(0); n < 1200; n++ {
				w := byName[name].category(cldrOpsOf(strconv.FormatInt(n, 10)))
				for _, a := range []any{n, -n, int(n), uint(n), uint64(n), float64(n), &n} {
					in := fmt.Sprintf("%s Evaluate(%T(%v))", name, a, n)
					got, err := rs.Evaluate(a)
					h.Checkf(err == nil && int(got) == w, "c01/types", in, "%v (err %v), want %s", got, err, catNames[w])
				}
			}
		}
		for _, a := range []any{nil, "", "x", "1c", struct{}{}} {
			for _, name := range []string{"en", "ja", "ar"} {
				rs, _ := cldrplural.ForLanguage(language.MustParse(name))
				_, err := rs.Evaluate(a)
				h.Checkf(err != nil, "c01/error", fmt.Sprintf("%s Evaluate(%#v)", name, a), "no error for a count without operands")
			}
		}
	})
}
