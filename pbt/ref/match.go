package ref

import (
	"encoding/json"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Canon is a canonical text for a JSON value.
func Canon(v any) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v any) {
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case float64:
		if v == 0 && math.Signbit(v) {
			b.WriteString("-0")
			return
		}
		b.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
	case string:
		q, _ := json.Marshal(v)
		b.Write(q)
	case []any:
		b.WriteByte('[')
		for i, el := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, el)
		}
		b.WriteByte(']')
	case map[string]any:
		b.WriteByte('{')
		for i, k := range sortedKeys(v) {
			if i > 0 {
				b.WriteByte(',')
			}
			q, _ := json.Marshal(k)
			b.Write(q)
			b.WriteByte(':')
			canon(b, v[k])
		}
		b.WriteByte('}')
	case int64:
		b.WriteString("int64(" + strconv.FormatInt(v, 10) + ")")
	default:
		b.WriteString("?")
		q, _ := json.Marshal(v)
		b.Write(q)
	}
}

type matcher struct {
	got  []int // value ids
	ids  map[string]int
	seen map[part]int
	sig  map[*Node]int
	sigs map[string]int

	classes map[*Node][]class
	budet   int
}

// part identifies a shared array or object.
type part struct {
	p uintptr
	n int
}

// id numbers values so that equal values, and only they, have equal numbers.
func (m *matcher) id(v any) int {
	var key part
	var b strings.Builder
	switch v := v.(type) {
	case []any:
		if len(v) > 0 {
			key = part{reflect.ValueOf(v).Pointer(), len(v)}
			if n, ok := m.seen[key]; ok {
				return n
			}
		}
		b.WriteByte('[')
		for _, el := range v {
			b.WriteString(strconv.Itoa(m.id(el)))
			b.WriteByte(',')
		}
	case map[string]any:
		key = part{reflect.ValueOf(v).Pointer(), -1}
		if n, ok := m.seen[key]; ok {
			return n
		}
		b.WriteByte('{')
		for _, k := range sortedKeys(v) {
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			b.WriteString(strconv.Itoa(m.id(v[k])))
			b.WriteByte(',')
		}
	default:
		canon(&b, v)
	}
	s := b.String()
	n, ok := m.ids[s]
	if !ok {
		n = len(m.ids)
		m.ids[s] = n
	}
	if key.p != 0 {
		m.seen[key] = n
	}
	return n
}

// signature numbers nodes so that interchangeable ones have equal numbers.
func (m *matcher) signature(n *Node) int {
	if s, ok := m.sig[n]; ok {
		return s
	}
	var s string
	if n.Leaf {
		s = strconv.Itoa(m.id(n.V))
	} else {
		parts := make([]int, len(n.Kids))
		for i, k := range n.Kids {
			parts[i] = m.signature(k)
		}
		var b strings.Builder
		b.WriteByte('[')
		if n.Perm {
			sort.Ints(parts)
			b.WriteByte('{')
		}
		for _, p := range parts {
			b.WriteString(strconv.Itoa(p))
			b.WriteByte(' ')
		}
		s = b.String()
	}
	i, ok := m.sigs[s]
	if !ok {
		i = len(m.sigs)
		m.sigs[s] = i
	}
	m.sig[n] = i
	return i
}

// class is a set of interchangeable children.
type class struct {
	node  *Node
	count int
}

func (m *matcher) classesOf(n *Node) []class {
	if l, ok := m.classes[n]; ok {
		return l
	}
	var l []class
	index := map[int]int{}
	for _, k := range n.Kids {
		s := m.signature(k)
		if c, ok := index[s]; ok {
			l[c].count++
			continue
		}
		index[s] = len(l)
		l = append(l, class{k, 1})
	}
	m.classes[n] = l
	return l
}

type verdict int

const (
	no verdict = iota
	yes
	giveUp
)

func (m *matcher) match(n *Node, pos int) verdict {
	m.budet--
	if m.budet < 0 {
		return giveUp
	}
	if n.Leaf {
		if m.got[pos] == m.id(n.V) {
			return yes
		}
		return no
	}
	if !n.Perm {
		for _, k := range n.Kids {
			if v := m.match(k, pos); v != yes {
				return v
			}
			pos += k.n
		}
		return yes
	}
	classes := append([]class{}, m.classesOf(n)...)
	m.budet -= len(classes)
	// a perm of distinct leaves is a multiset comparison
	allLeaf := true
	for _, c := range classes {
		if !c.node.Leaf {
			allLeaf = false
		}
	}
	if allLeaf {
		need := map[int]int{}
		for _, c := range classes {
			need[m.id(c.node.V)] += c.count
		}
		for i := 0; i < n.n; i++ {
			g := m.got[pos+i]
			if need[g] == 0 {
				return no
			}
			need[g]--
		}
		return yes
	}
	var place func(pos, left int) verdict
	place = func(pos, left int) verdict {
		if left == 0 {
			return yes
		}
		for i := range classes {
			c := &classes[i]
			if c.count == 0 {
				continue
			}
			m.budet--
			v := m.match(c.node, pos)
			if v == giveUp {
				return v
			}
			if v == yes {
				c.count--
				r := place(pos+c.node.n, left-1)
				c.count++
				if r != no {
					return r
				}
			}
		}
		return no
	}
	return place(pos, len(n.Kids))
}

// Matches reports whether got is a permitted order of the expected results.
func Matches(want *Node, got []any) bool {
	if want.n != len(got) {
		return false
	}
	m := &matcher{ids: map[string]int{}, seen: map[part]int{}, sig: map[*Node]int{}, sigs: map[string]int{}, classes: map[*Node][]class{}, budet: 2000000}
	for _, g := range got {
		m.got = append(m.got, m.id(g))
	}
	// first as multisets
	count := map[int]int{}
	for _, g := range m.got {
		count[g]++
	}
	for _, w := range want.Flat() {
		count[m.id(w)]--
	}
	for _, c := range count {
		if c != 0 {
			return false
		}
	}
	return m.match(want, 0) != no // too hard to decide: the multisets agree
}
