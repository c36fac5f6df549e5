package main

import (
	"fmt"
	"math"
	"strings"
)

// Values that differ in one place only.

// nearTexts makes a text of n characters and copies of it with one changed.
func nearTexts(base []rune, places []int, to []rune) []any {
	l := []any{string(base)}
	for i, p := range places {
		c := append([]rune{}, base...)
		r := to[i%len(to)]
		if r == c[p] {
			r = 'y'
		}
		c[p] = r
		l = append(l, string(c))
	}
	return l
}

func placesIn(n, most int) []int {
	var l []int
	if n <= most {
		for p := 0; p < n; p++ {
			l = append(l, p)
		}
		return l
	}
	for p := 0; p < most/4; p++ {
		l = append(l, p, n-1-p, n/2-most/8+p)
	}
	for i := 0; i < most/4; i++ {
		l = append(l, i*n/(most/4))
	}
	return l
}

// diffTexts compares texts that differ in one character, everywhere, using
// paths on a list of which the first is the original.
func diffTexts(paths ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) {
		var sizes []int
		dense := 72
		if tier == "thorough" {
			dense = 300
		}
		for n := 1; n <= dense; n++ {
			sizes = append(sizes, n)
		}
		for _, n := range []int{79, 80, 81, 96, 99, 100, 101, 120, 127, 128, 129, 130, 160, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2000, 2049, 4095, 4096, 4097, 5000} {
			if n > dense {
				sizes = append(sizes, n)
			}
		}
		for _, n := range sizes {
			for b := 0; b < 3; b++ {
				base := make([]rune, n)
				for i := range base {
					switch b {
					case 0:
						base[i] = 'm'
					case 1:
						base[i] = rune('b' + i*7%23)
					case 2:
						base[i] = []rune{'m', 'é', 'm', '日', '😀'}[i%5]
					}
				}
				to := []rune{'z', 'M', 'a', 'é', 'n', ' '}
				if b == 2 {
					to = []rune{'a', 'è', '月', '😁', 'É', 'é'}
				}
				places := placesIn(n, 160)
				doc := docText(nearTexts(base, places, to))
				for _, p := range paths {
					emit(PathCase{Text(p), doc})
				}
				if n < 200 && len(places) > 8 { // a few, in case order or number matters
					few := nearTexts(base, []int{n / 2, n / 3, n - 2, 1}, to)
					few = append(few, string(base), string(base[:n-1]), string(base)+"m")
					doc := docText(few)
					for _, p := range paths {
						emit(PathCase{Text(p), doc})
					}
				}
			}
		}
	}
}

// diffKeys selects by keys that differ from others in one character.
func diffKeys(tier string, emit func(PathCase)) {
	for n := 1; n <= 300; n++ {
		if tier != "thorough" && n > 70 && n%8 > 1 && n%10 != 0 {
			continue
		}
		base := make([]rune, n)
		for i := range base {
			base[i] = rune('b' + (i*7+n)%23)
		}
		obj := map[string]any{}
		for i, k := range nearTexts(base, placesIn(n, 100), []rune{'z', 'B', 'a', 'é'}) {
			obj[k.(string)] = float64(i)
		}
		without := map[string]any{}
		for k, v := range obj {
			without[k] = v
		}
		delete(without, string(base))
		doc := docText(map[string]any{"o": obj, "w": without, "k": string(base)})
		b := string(base)
		for _, p := range []string{"$.o." + b, "$.o['" + b + "']", "$.w." + b, "$.w[\"" + b + "\"]", "$.*['" + b + "','" + b + "']", "$.o[($.k)]", "$.w[($.k)]", "$..[?(@." + b + "==0)].a", "$..['" + b + "']", "$.o[('" + b + "')]"} {
			emit(PathCase{Text(p), doc})
		}
	}
}

// diffParts compares arrays and objects that differ in one place.
func diffParts(tier string, emit func(PairCase)) {
	most := 48
	if tier == "thorough" {
		most = 140
	}
	vals := []any{nil, true, 0.0, 1.0, "a", "", []any{}, map[string]any{}, []any{1.0, 2.0}, "1.5"}
	n := 0
	put := func(a, b any) {
		n++
		emit(PairCase{A: docText(a), B: docText(b), Lit: map[bool]int{true: n % 4}[n%5 == 0]})
	}
	for size := 1; size <= most; size++ {
		arr := make([]any, size)
		obj := map[string]any{}
		for i := range arr {
			arr[i] = float64(i % 10)
			obj[fmt.Sprintf("k%d", i)] = float64(i % 10)
		}
		for p := 0; p < size; p++ {
			b := append([]any{}, arr...)
			b[p] = vals[(p+size)%len(vals)]
			put(arr, b)
			o := map[string]any{}
			for k, v := range obj {
				o[k] = v
			}
			k := fmt.Sprintf("k%d", p)
			switch (p + size) % 3 {
			case 0:
				o[k] = vals[(p*3+size)%len(vals)]
			case 1: // renamed
				o["x"] = o[k]
				delete(o, k)
			case 2: // exchanged with another
				q := fmt.Sprintf("k%d", (p+1)%size)
				o[k], o[q] = o[q], o[k]
			}
			put(obj, o)
			if (p+size)%4 == 0 {
				put([]any{obj, 1.0}, []any{o, 1.0})
				put(map[string]any{"a": arr}, map[string]any{"a": b})
			}
		}
		put(arr, append(append([]any{}, arr...), arr[size-1]))
		put(obj, map[string]any{})
	}
}

// nearNumbers are doubles, and ones close to them.
func nearNumbers(tier string) [][]any {
	var l [][]any
	base := []float64{1, 0.1, 0.3, 1.5, 2, 3, 10, 100, 1000, 12345.678, 0.001, 1e-7, 1e-10, 1e-20, 1e-100, 1e-300, 5e-324, 2.2250738585072014e-308, 1e6, 1e7, 1e9, 1e10, 123456789.125, 1e12, 4503599627370496.5, 1 << 31, 1 << 32, 1e20, 1e21, 1e22, 1e100, 1e300, 1.7976931348623157e308, 0.5, 0.25, 1.0 / 3, 2.0 / 3, math.Pi, math.E, 99.99, 19.99, 8.95, 0.7, 4.35, 1.1, 2.2, 3.3, 0.2, 1.005}
	for _, s := range []float64{1, -1} {
		for _, f := range base {
			f *= s
			set := []any{f}
			up, down := f, f
			for i := 1; i <= 1000; i++ {
				up, down = math.Nextafter(up, math.Inf(1)), math.Nextafter(down, math.Inf(-1))
				if i < 4 || i == 10 || i == 100 || i == 1000 {
					set = append(set, up, down)
				}
			}
			for e := -15; e <= -1; e++ {
				set = append(set, f*(1+math.Pow(10, float64(e))), f*(1-math.Pow(10, float64(e))), f+math.Pow(10, float64(e)))
			}
			set = append(set, -f, f*10, f/10, math.Trunc(f), math.Ceil(f), float64(float32(f)), f*2)
			var ok []any
			for _, v := range set {
				if v := v.(float64); !math.IsInf(v, 0) && !(v == math.Trunc(v) && math.Abs(v) >= 1<<53) {
					ok = append(ok, v)
				}
			}
			if len(ok) > 0 {
				l = append(l, ok)
			}
		}
	}
	return l
}

// diffNumbers compares numbers that are close, alone and one at a time.
func diffNumbers(paths ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) {
		for _, set := range nearNumbers(tier) {
			for _, p := range paths {
				emit(PathCase{Text(p), docText(set)})
				if strings.Contains(p, "sum(") || tier == "thorough" {
					for _, v := range set {
						emit(PathCase{Text(p), docText([]any{set[0], v})})
					}
				}
			}
		}
	}
}

func init() {
	first := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	first("C05", sweep("keys that differ in a character", diffKeys, withSteps))
	first("C10", sweep("texts that differ in a character", diffTexts("$[?(@<$[0])]", "$[?(@>$[0])]", "$[?(@<=$[0])]", "$[?($[0]<=@)]"), execPathCase),
		sweep("numbers close together", diffNumbers("$[?(@<$[0])]", "$[?(@>$[0])]", "$[?(@<=$[0])]", "$[?(@>=$[0])]", "$[?(@-$[0])]", "$[?($[0]<@)]", "$[?(@*2<$[0]*2)]"), execPathCase))
	first("C11", sweep("texts that differ in a character", diffTexts("$[?(@==$[0])]", "$[?($[0]!=@)]", "$[?([@,1]==[$[0],1])]"), execPathCase),
		sweep("structures that differ in a place", diffParts, execPair),
		sweep("numbers close together", diffNumbers("$[?(@==$[0])]", "$[?(@!=$[0])]", "$[?([@,'a']==[$[0],'a'])]", "$[?($[0]==@)]"), execPathCase))
	first("C12", sweep("texts that differ in a character", diffTexts("$[?(contains(@,$[0]))]", "$[?(starts_with(@,$[0]))]", "$[?(ends_with($[0],@))]", "$[?(contains([1,$[0]],@))]", "$[?(length(@)==length($[0]))]"), execPathCase),
		sweep("numbers close together", diffNumbers("$[?(max(@,$[0])==@)]", "$[?(min($[0],@)==@)]", "$[?(abs(@)==$[0])]", "$[?(floor(@)==floor($[0]))]", "$[?(ceil(@)==@)]", "$[?(contains([$[0],1],@))]", "$[?(to_number(@)==$[0])]", "$[?(sum([@])==$[0])]"), execPathCase))
	first("C13", sweep("texts that differ in a character", diffTexts("$[?(@ in [$[0]])]", "$[?(@ nin [1,$[0],2])]", "$[?($[0] in [@])]"), execPathCase),
		sweep("structures in lists", func(tier string, emit func(PathCase)) {
			n := 0
			diffParts(tier, func(c PairCase) {
				n++
				if n%3 == 0 {
					emit(PathCase{Text([]string{"$[?($[0] in [@])]", "$[?(@ in [1,$[0]])]", "$[?(@ nin [$[0],null])]"}[n/3%3]), "[" + c.A + "," + c.B + "]"})
				}
			})
		}, execPathCase),
		sweep("numbers close together", diffNumbers("$[?(@ in [$[0]])]", "$[?($[0] nin [1,@,2])]"), execPathCase))
}
