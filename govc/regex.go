package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
)

// reSMT: a Go regular expression (matched against the whole text, byte strings) in SMT-LIB.
func reSMT(re string) (string, error) {
	r, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return "", err
	}
	return reNode(r.Simplify())
}

func reNode(r *syntax.Regexp) (string, error) {
	subs := func() ([]string, error) {
		var out []string
		for _, s := range r.Sub {
			t, err := reNode(s)
			if err != nil {
				return nil, err
			}
			out = append(out, t)
		}
		return out, nil
	}
	ss, err := subs()
	if err != nil {
		return "", err
	}
	switch r.Op {
	case syntax.OpLiteral:
		return "(str.to_re " + smtStr(string(r.Rune)) + ")", nil
	case syntax.OpCharClass:
		if len(r.Rune) == 2 && r.Rune[0] == 0 && r.Rune[1] >= 255 {
			return "re.allchar", nil
		}
		var parts []string
		for i := 0; i+1 < len(r.Rune); i += 2 {
			lo, hi := r.Rune[i], r.Rune[i+1]
			if hi > 255 {
				hi = 255 // strings are sequences of bytes
			}
			if lo > hi {
				continue
			}
			if lo == hi {
				parts = append(parts, "(str.to_re "+smtStr(string([]byte{byte(lo)}))+")")
			} else {
				parts = append(parts, "(re.range "+smtStr(string([]byte{byte(lo)}))+" "+smtStr(string([]byte{byte(hi)}))+")")
			}
		}
		return reJoin("re.union", parts), nil
	case syntax.OpAnyCharNotNL:
		return `(re.diff re.allchar (str.to_re "\u{a}"))`, nil
	case syntax.OpAnyChar:
		return "re.allchar", nil
	case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpEndText:
		return `(str.to_re "")`, nil
	case syntax.OpCapture:
		return ss[0], nil
	case syntax.OpStar:
		if ss[0] == "re.allchar" {
			return "re.all", nil
		}
		return "(re.* " + ss[0] + ")", nil
	case syntax.OpPlus:
		return "(re.+ " + ss[0] + ")", nil
	case syntax.OpQuest:
		return "(re.opt " + ss[0] + ")", nil
	case syntax.OpConcat:
		return reJoin("re.++", ss), nil
	case syntax.OpAlternate:
		return reJoin("re.union", ss), nil
	}
	return "", fmt.Errorf("regular expression operator %v", r.Op)
}

func reJoin(op string, parts []string) string {
	if len(parts) == 1 {
		return parts[0]
	}
	if len(parts) == 0 {
		return "re.none"
	}
	return "(" + op + " " + strings.Join(parts, " ") + ")"
}

// InRe: the whole text matches the (constant) expression.
func InRe(t *Term, re string) *Term {
	s, err := reSMT(re)
	if err != nil {
		panic(unsupported{err.Error()})
	}
	if t.Op == "str" {
		return Bool(regexp.MustCompile(`\A(?:` + re + `)\z`).MatchString(t.Str))
	}
	return intern(&Term{Op: "in_re", S: BoolS, Args: []*Term{t}, Name: s})
}
