package main

import (
	"encoding/json"
	"strings"
)

// ---- what storage and networks do to documents

var wktTokens = []string{";", "(", ")", ",", " ", "POINT", "MULTIPOINT", "LINESTRING", "POLYGON", "MULTIPOLYGON", "MULTI", "1", "0", "-", ".", "e", "E5", "NaN", "((", "))", "()", "),(", ", ", "Z", "EMPTY", " 7", ",8 9", ",1 2 3", "\x00", "\n", "\t", "é"}
var jsonTokens = []string{"{", "}", "[", "]", ",", ":", "\"", "null", "1", "-", "e9", ".", "true", "[]", "[[]]", "{}", "\"x\"", "\\", "\x00", "\n", "[1,2]", "[1,2,3]", ",3", "\"type\":\"Point\",", "\"coordinates\":null,", "\xff"}

// damageText damages s one to three times at the byte or token level.
func damageText(r *Rng, s string, toks []string) string {
	len0 := len(s)
	for k := r.Pick(6, 2, 1); k >= 0; k-- {
		s = damage1(r, s, toks)
	}
	if n := 1<<14 + len0; len(s) > n {
		s = s[:n]
	}
	return s
}

func damage1(r *Rng, s string, toks []string) string {
	if s == "" {
		return toks[r.N(len(toks))]
	}
	i := r.N(len(s))
	n := r.Range(1, 6)
	if r.P(0.2) {
		n = r.Range(1, len(s))
	}
	j := i + n
	if j > len(s) {
		j = len(s)
	}
	// some damage is confined to structural characters
	if r.P(0.35) {
		var at []int
		for k := 0; k < len(s); k++ {
			if strings.IndexByte("()[]{},: \"-.", s[k]) >= 0 {
				at = append(at, k)
			}
		}
		if len(at) > 0 {
			i = at[r.N(len(at))]
			j = i + 1
		}
	}
	switch r.N(10) {
	case 0: // truncated
		return s[:i]
	case 1: // head lost
		return s[i:]
	case 2: // lost
		return s[:i] + s[j:]
	case 3: // repeated
		return s[:j] + s[i:]
	case 4: // flipped bit
		b := []byte(s)
		b[i] ^= 1 << r.N(8)
		return string(b)
	case 5: // other byte
		b := []byte(s)
		const cs = "0123456789 ,()[]{}\"-.eEnullXYZ\x00\xff"
		b[i] = cs[r.N(len(cs))]
		return string(b)
	case 6: // inserted
		return s[:i] + toks[r.N(len(toks))] + s[i:]
	case 7: // replaced
		return s[:i] + toks[r.N(len(toks))] + s[j:]
	case 8: // swapped
		k := r.N(len(s))
		b := []byte(s)
		b[i], b[k] = b[k], b[i]
		return string(b)
	default: // written twice, or zeroed
		if r.P(0.5) {
			return s + s
		}
		b := []byte(s)
		for k := i; k < j; k++ {
			b[k] = 0
		}
		return string(b)
	}
}

// damageJSON damages the value tree (the text stays well-formed) or the text.
func damageJSON(r *Rng, v interface{}, text string) string {
	if r.P(0.4) {
		return damageText(r, text, jsonTokens)
	}
	var w interface{}
	if json.Unmarshal([]byte(text), &w) != nil {
		return damageText(r, text, jsonTokens)
	}
	for k := r.Pick(6, 2, 1); k >= 0; k-- {
		w = damageValue(r, w)
	}
	return jsonText(w)
}

type jref struct {
	get func() interface{}
	set func(x interface{})
	del func()
	dup func()
}

// damageValue changes one value somewhere in the tree, with a preference for
// the geometry's own members.
func damageValue(r *Rng, root interface{}) interface{} {
	refs := []jref{{get: func() interface{} { return root }, set: func(x interface{}) { root = x }}}
	var walk func(get func() interface{}, set func(interface{}), depth int)
	walk = func(get func() interface{}, set func(interface{}), depth int) {
		if depth > 12 {
			return
		}
		switch x := get().(type) {
		case map[string]interface{}:
			for _, k := range sortedAny(x) {
				k := k
				refs = append(refs, jref{
					get: func() interface{} { return x[k] }, set: func(v interface{}) { x[k] = v },
					del: func() { delete(x, k) }, dup: func() { x[k+"2"] = x[k] }})
				walk(refs[len(refs)-1].get, refs[len(refs)-1].set, depth+1)
			}
		case []interface{}:
			for i := range x {
				i := i
				refs = append(refs, jref{
					get: func() interface{} { return x[i] }, set: func(v interface{}) { x[i] = v },
					del: func() { set(append(append([]interface{}{}, x[:i]...), x[i+1:]...)) },
					dup: func() { set(append(append([]interface{}{}, x[:i+1]...), x[i:]...)) }})
				walk(refs[len(refs)-1].get, refs[len(refs)-1].set, depth+1)
			}
		}
	}
	walk(refs[0].get, refs[0].set, 0)
	a := refs[r.N(len(refs))]
	b := refs[r.N(len(refs))]
	switch r.N(9) {
	case 0:
		if a.del != nil {
			a.del()
			return root
		}
		a.set(nil)
	case 1:
		if a.dup != nil {
			a.dup()
			return root
		}
		a.set([]interface{}{})
	case 2: // nested one level deeper
		a.set([]interface{}{a.get()})
	case 3: // unnested
		if l, ok := a.get().([]interface{}); ok && len(l) > 0 {
			a.set(l[r.N(len(l))])
		} else {
			a.set(nil)
		}
	case 4: // one more number: another dimension
		if l, ok := a.get().([]interface{}); ok {
			a.set(append(append([]interface{}{}, l...), float64(r.N(9))))
		} else {
			a.set(float64(r.N(9)))
		}
	case 5: // cut
		if l, ok := a.get().([]interface{}); ok && len(l) > 0 {
			a.set(append([]interface{}{}, l[:r.N(len(l))]...))
		} else {
			a.set([]interface{}{})
		}
	case 6: // another place's value
		a.set(deepCopy(b.get()))
	default:
		a.set([]interface{}{nil, true, "1", "", 0.0, -1.5e300, []interface{}{}, map[string]interface{}{}, []interface{}{1.0, 2.0}, []interface{}{[]interface{}{}}, "Point", "LineString", "Polygon", "MultiPolygon", "MultiPoint", "GeometryCollection", "Feature"}[r.N(17)])
	}
	return root
}

func deepCopy(x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range v {
			m[k] = deepCopy(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(v))
		for i, e := range v {
			l[i] = deepCopy(e)
		}
		return l
	}
	return x
}

func sortedAny(m map[string]interface{}) []string {
	c := map[string]int64{}
	for k := range m {
		c[k] = 1
	}
	return sortedKeys(c)
}

// raw8 and un8 carry arbitrary bytes through plan files.
func raw8(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		sb.WriteRune(rune(s[i]))
	}
	return sb.String()
}

func un8(s string) string {
	b := make([]byte, 0, len(s))
	for _, c := range s {
		b = append(b, byte(c))
	}
	return string(b)
}
