package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
)

// ---- the harness's own reading and writing of documents

func num(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func wktRing(r [][]float64, sep string) string {
	ps := make([]string, len(r))
	for i, c := range r {
		fs := make([]string, len(c))
		for j, f := range c {
			fs[j] = num(f)
		}
		ps[i] = strings.Join(fs, " ")
	}
	return "(" + strings.Join(ps, sep) + ")"
}

func wktRings(rs [][][]float64, sep string) string {
	ss := make([]string, len(rs))
	for i, r := range rs {
		ss[i] = wktRing(r, sep)
	}
	return "(" + strings.Join(ss, sep) + ")"
}

// wktOf writes WKT as the library does.
func wktOf(g Geom, sep string) string {
	base := strings.TrimSuffix(g.T, "Z")
	up := strings.ToUpper(base)
	switch base {
	case "Point", "MultiPoint", "LineString":
		return up + wktRing(g.C[0][0], sep)
	case "MultiLineString", "Polygon":
		return up + wktRings(g.C[0], sep)
	default:
		ss := make([]string, len(g.C))
		for i, p := range g.C {
			ss[i] = wktRings(p, sep)
		}
		return up + "(" + strings.Join(ss, sep) + ")"
	}
}

func posVal(c []float64) []interface{} {
	out := make([]interface{}, len(c))
	for i, f := range c {
		out[i] = f
	}
	return out
}
func ringVal(r [][]float64) []interface{} {
	out := make([]interface{}, len(r))
	for i, c := range r {
		out[i] = posVal(c)
	}
	return out
}
func ringsVal(rs [][][]float64) []interface{} {
	out := make([]interface{}, len(rs))
	for i, r := range rs {
		out[i] = ringVal(r)
	}
	return out
}

// coordsVal is the GeoJSON coordinates value of g.
func coordsVal(g Geom) []interface{} {
	switch strings.TrimSuffix(g.T, "Z") {
	case "Point":
		return posVal(g.C[0][0][0])
	case "MultiPoint", "LineString":
		return ringVal(g.C[0][0])
	case "MultiLineString", "Polygon":
		return ringsVal(g.C[0])
	}
	out := make([]interface{}, len(g.C))
	for i, p := range g.C {
		out[i] = ringsVal(p)
	}
	return out
}

func geoVal(g Geom) map[string]interface{} {
	return map[string]interface{}{"type": strings.TrimSuffix(g.T, "Z"), "coordinates": coordsVal(g)}
}

func jsonText(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		harnessBug(err.Error())
	}
	return string(b)
}

// geomOf reads type and coordinates, as decoded by a generic JSON reader, to
// plan form. An error text says what is incomplete.
func geomOf(typ string, co interface{}) (Geom, string) {
	g := Geom{T: typ}
	dim := -1
	bad := ""
	pos := func(x interface{}) []float64 {
		l, ok := x.([]interface{})
		if !ok {
			bad = fmt.Sprintf("position %v is no array", x)
			return nil
		}
		var c []float64
		for _, e := range l {
			f, ok := e.(float64)
			if !ok {
				bad = fmt.Sprintf("coordinate %v is no number", e)
				return nil
			}
			c = append(c, f)
		}
		if len(c) != 2 && len(c) != 3 {
			bad = fmt.Sprintf("position of %d numbers", len(c))
			return nil
		}
		if dim >= 0 && dim != len(c) {
			bad = "mixed dimensions"
			return nil
		}
		dim = len(c)
		return c
	}
	list := func(x interface{}) []interface{} {
		l, ok := x.([]interface{})
		if !ok {
			bad = fmt.Sprintf("%v is no array", x)
		}
		return l
	}
	ring := func(x interface{}) [][]float64 {
		r := [][]float64{}
		for _, p := range list(x) {
			r = append(r, pos(p))
		}
		return r
	}
	rings := func(x interface{}) [][][]float64 {
		rs := [][][]float64{}
		for _, p := range list(x) {
			rs = append(rs, ring(p))
		}
		return rs
	}
	switch typ {
	case "Point":
		g.C = [][][][]float64{{{pos(co)}}}
	case "MultiPoint", "LineString":
		g.C = [][][][]float64{{ring(co)}}
	case "MultiLineString", "Polygon":
		g.C = [][][][]float64{rings(co)}
	case "MultiPolygon":
		for _, p := range list(co) {
			g.C = append(g.C, rings(p))
		}
	default:
		return g, "no geometry type: " + strconv.Quote(typ)
	}
	if dim == 3 {
		g.T += "Z"
	}
	return g, bad
}

// sameGeom is eqGeom, but a geometry without any position has no dimension.
func sameGeom(a, b Geom) bool {
	if a.npoints() == 0 && b.npoints() == 0 {
		return strings.TrimSuffix(a.T, "Z") == strings.TrimSuffix(b.T, "Z")
	}
	return eqGeom(a, b)
}

// wktInfo is what the harness reads from a (damaged) WKT text.
type wktInfo struct {
	word   string      // the type the text names
	bad    string      // why it must be refused
	tuples [][]float64 // in order
	tree   *wktGroup
}

type wktGroup struct {
	subs   []*wktGroup
	tuples [][]float64
}

// readWKT finds the type word, the nesting and every coordinate tuple.
func readWKT(s string) *wktInfo {
	w := &wktInfo{}
	i := strings.IndexByte(s, '(')
	if i < 0 {
		w.bad = "no coordinates"
		return w
	}
	h := strings.TrimRightFunc(s[:i], unicode.IsSpace)
	up := strings.ToUpper(h)
	if strings.HasSuffix(up, " Z") || strings.HasSuffix(up, "\tZ") {
		h = strings.TrimRightFunc(h[:len(h)-1], unicode.IsSpace)
	}
	j := len(h)
	for j > 0 && (h[j-1] >= 'A' && h[j-1] <= 'Z' || h[j-1] >= 'a' && h[j-1] <= 'z') {
		j--
	}
	w.word = strings.ToUpper(h[j:])
	root := &wktGroup{}
	stack := []*wktGroup{root}
	dim := -1
	start := -1 // of the current tuple text
	flush := func(end int, closing bool) {
		t := s[start:end]
		start = -1
		f := strings.Fields(t)
		top := stack[len(stack)-1]
		if len(f) == 0 {
			// nothing between separators
			if len(top.subs) == 0 && !(closing && len(top.tuples) == 0) {
				w.setBad("empty coordinate tuple")
			}
			return
		}
		var c []float64
		for _, x := range f {
			v, err := strconv.ParseFloat(x, 64)
			if err != nil {
				w.setBad("no number: " + strconv.Quote(x))
				return
			}
			c = append(c, v)
		}
		if len(c) != 2 && len(c) != 3 {
			w.setBad(fmt.Sprintf("%d coordinates in a tuple", len(c)))
			return
		}
		if dim >= 0 && dim != len(c) {
			w.setBad("mixed dimensions")
			return
		}
		dim = len(c)
		top.tuples = append(top.tuples, c)
		w.tuples = append(w.tuples, c)
	}
	for k := i; k < len(s); k++ {
		switch s[k] {
		case '(':
			if start >= 0 && strings.TrimSpace(s[start:k]) != "" && len(stack) > 1 {
				w.setBad("text before a parenthesis")
			}
			g := &wktGroup{}
			top := stack[len(stack)-1]
			top.subs = append(top.subs, g)
			stack = append(stack, g)
			start = k + 1
		case ')':
			if len(stack) == 1 {
				w.setBad("unbalanced parentheses")
				return w
			}
			if start >= 0 {
				flush(k, true)
			}
			stack = stack[:len(stack)-1]
			start = -1
			if len(stack) > 1 {
				start = k + 1
			}
		case ',':
			if len(stack) > 1 && start >= 0 {
				flush(k, false)
				start = k + 1
			}
		}
	}
	if len(stack) != 1 {
		w.setBad("unbalanced parentheses")
	}
	w.tree = root
	return w
}

func (w *wktInfo) setBad(s string) {
	if w.bad == "" {
		w.bad = s
	}
}

// flat lists every point of g in order; ring says which ring each belongs to.
func (g Geom) flat() (pts [][]float64, ring []int) {
	n := 0
	for _, p := range g.C {
		for _, r := range p {
			for _, c := range r {
				pts = append(pts, c)
				ring = append(ring, n)
			}
			n++
		}
	}
	return
}

func eqPos(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

// heldBy reports how g differs from the text's tuples in order, apart from
// points that close a ring.
func (w *wktInfo) heldBy(g Geom) string {
	poly := strings.HasPrefix(g.T, "Polygon") || strings.HasPrefix(g.T, "MultiPolygon")
	at := map[int]bool{0: true} // how many tuples may have been used so far
	best := 0
	for _, p := range g.C {
		for _, r := range p {
			for i, c := range r {
				nx := map[int]bool{}
				for k := range at {
					if k < len(w.tuples) && eqPos(c, w.tuples[k]) {
						nx[k+1] = true
					}
					if poly && i == len(r)-1 && i > 0 && eqPos(c, r[0]) {
						nx[k] = true // the point that closes the ring
					}
					if k > best {
						best = k
					}
				}
				if len(nx) == 0 {
					if best < len(w.tuples) {
						return fmt.Sprintf("point %v where the text has %v", c, w.tuples[best])
					}
					return fmt.Sprintf("point %v that the text does not have", c)
				}
				at = nx
			}
		}
	}
	if !at[len(w.tuples)] {
		for k := range at {
			if k > best {
				best = k
			}
		}
		return fmt.Sprintf("%d of the text's %d coordinate tuples, the first missing is %v", best, len(w.tuples), w.tuples[min(best, len(w.tuples)-1)])
	}
	return ""
}

// judgeWKT checks the outcome of decoding text; "" when acceptable. err is the
// error's text, "" for none; geom may be the zero Geom when nil was returned.
func judgeWKT(text string, isNil bool, got Geom, failed bool) string {
	if failed {
		return ""
	}
	if isNil {
		return "neither geometry nor error"
	}
	w := readWKT(text)
	if w.bad != "" {
		return fmt.Sprintf("accepted (%s) though %s", got, w.bad)
	}
	if strings.ToUpper(strings.TrimSuffix(got.T, "Z")) != w.word {
		return fmt.Sprintf("gave a %s where the text names %q", got.T, w.word)
	}
	if s := w.heldBy(got); s != "" {
		return "gave " + s
	}
	return ""
}
