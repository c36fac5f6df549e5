package ref

import (
	"math"
	"math/big"
	"regexp"
	"strings"
	"unicode/utf8"
)

var arity = map[string]int{
	"abs": 1, "avg": 1, "ceil": 1, "contains": 2, "ends_with": 2, "floor": 1, "keys": 1, "length": 1,
	"max": -1, "min": -1, "prod": 1, "starts_with": 2, "sum": 1, "to_number": 1, "tokenize": 2,
}

// Functions lists the documented functions and their argument counts (-1: any).
func Functions() map[string]int { return arity }

func (ev *Ev) call(name string, args []any) any {
	n, ok := arity[name]
	if !ok || n >= 0 && n != len(args) {
		return ev.raise()
	}
	str := func(i int) string { s, _ := args[i].(string); return s }
	isStr := func(i int) bool { _, ok := args[i].(string); return ok }
	switch name {
	case "length":
		switch a := args[0].(type) {
		case string:
			return int64(utf8.RuneCountInString(a))
		case []any:
			return int64(len(a))
		case keysV:
			return int64(len(a))
		case map[string]any:
			return int64(len(a))
		}
		return nil
	case "contains":
		if k, ok := args[1].(keysV); ok {
			args[1] = ev.plainKeys(k)
		}
		switch a := args[0].(type) {
		case string:
			if isStr(1) {
				return strings.Contains(a, str(1))
			}
			return Nothing{}
		case keysV:
			found := false
			for _, s := range a {
				found = ev.equal(s, args[1]) || found
			}
			return found
		case []any:
			found := false
			for _, v := range a {
				found = ev.equal(v, args[1]) || found
			}
			return found
		}
		return Nothing{}
	}
	for i, a := range args {
		if k, ok := a.(keysV); ok {
			args[i] = ev.plainKeys(k)
		}
	}
	switch name {
	case "keys":
		if m, ok := args[0].(map[string]any); ok {
			return keysV(sortedKeys(m))
		}
		return Nothing{}
	case "starts_with", "ends_with":
		if !isStr(0) || !isStr(1) {
			return Nothing{}
		}
		if name == "starts_with" {
			return strings.HasPrefix(str(0), str(1))
		}
		return strings.HasSuffix(str(0), str(1))
	case "tokenize":
		if !isStr(0) || !isStr(1) {
			return Nothing{}
		}
		re, err := regexp.Compile(str(1))
		if err != nil {
			return Nothing{}
		}
		out := []any{}
		for _, s := range re.Split(str(0), -1) {
			out = append(out, s)
		}
		return out
	case "abs":
		switch v := args[0].(type) {
		case int64:
			if v < 0 {
				if v == math.MinInt64 {
					ev.unspec("abs overflow")
				}
				return -v
			}
			return v
		case float64:
			return math.Abs(v)
		}
		return Nothing{}
	case "ceil", "floor":
		switch v := args[0].(type) {
		case int64:
			return v
		case float64:
			if name == "ceil" {
				return math.Ceil(v)
			}
			return math.Floor(v)
		}
		return Nothing{}
	case "to_number":
		switch v := args[0].(type) {
		case int64, float64:
			return v
		case string:
			if v == "" {
				ev.unspec("to_number of empty string")
			}
			f, ok := ev.number(v)
			if !ok {
				return Nothing{}
			}
			return f
		}
		return Nothing{}
	case "avg", "sum", "prod":
		a, ok := args[0].([]any)
		if !ok {
			return Nothing{}
		}
		if len(a) == 0 {
			if name == "sum" {
				return float64(0)
			}
			return nil
		}
		if none, bools := classify(a); none {
			return Nothing{}
		} else if bools {
			ev.unspec("booleans in %s", name)
		}
		return ev.aggregate(name, a)
	case "min", "max":
		if len(args) == 0 {
			return nil
		}
		a := args
		if len(args) == 1 {
			var ok bool
			a, ok = args[0].([]any)
			if !ok {
				return Nothing{}
			}
			if len(a) == 0 {
				return nil
			}
		}
		if _, ok := a[0].(string); ok {
			best := ""
			for i, v := range a {
				s, ok := v.(string)
				if !ok {
					return Nothing{}
				}
				if i == 0 || name == "min" && s < best || name == "max" && s > best {
					best = s
				}
			}
			return best
		}
		if none, bools := classify(a); none {
			return Nothing{}
		} else if bools {
			if _, ok := a[0].(bool); ok {
				return Nothing{}
			}
			ev.unspec("booleans in %s", name)
		}
		best := toFloat(a[0])
		for _, v := range a {
			if i, ok := v.(int64); ok && (i > 1<<53 || i < -1<<53) {
				ev.unspec("large integers in %s", name)
			}
			f := toFloat(v)
			if name == "min" && f < best || name == "max" && f > best {
				best = f
			}
		}
		return best
	}
	panic("ref: missing function " + name)
}

// classify reports whether a has elements that are not arithmetic at all, and whether it has booleans.
func classify(a []any) (none, bools bool) {
	for _, v := range a {
		if !isArith(v) {
			none = true
		}
		if _, ok := v.(bool); ok {
			bools = true
		}
	}
	return
}

// aggregate computes sums and products that are exact; others depend on rounding.
func (ev *Ev) aggregate(name string, a []any) any {
	const prec = 2000
	acc := new(big.Float).SetPrec(prec)
	if name == "prod" {
		acc.SetInt64(1)
	}
	for _, v := range a {
		x := new(big.Float).SetPrec(prec)
		if i, ok := v.(int64); ok {
			if int64(float64(i)) != i || i == math.MaxInt64 {
				ev.unspec("rounding in %s", name)
			}
			x.SetInt64(i)
		} else {
			f := v.(float64)
			if math.IsInf(f, 0) || math.IsNaN(f) {
				ev.unspec("infinity in %s", name)
			}
			x.SetFloat64(f)
		}
		if name == "prod" {
			acc.Mul(acc, x)
		} else {
			acc.Add(acc, x)
		}
		if f, acc := acc.Float64(); acc != big.Exact || math.IsInf(f, 0) {
			ev.unspec("rounding in %s", name)
		}
	}
	f, _ := acc.Float64()
	if name == "avg" {
		return f / float64(len(a))
	}
	return f
}
