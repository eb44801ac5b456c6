package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	geo "github.com/hzw456/go-geo"
)

// Geom is a geometry in plan form: parts, rings, points, coordinates.
type Geom struct {
	T   string          `json:"t"`
	C   [][][][]float64 `json:"c,omitempty"`
	Sub []int           `json:"sub,omitempty"` // [pool item, from, to]: shares that item's storage
	Odd bool            `json:"odd,omitempty"` // not a valid geometry: calls on it may fail
}

var flatTypes = []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"}

func (g Geom) z() bool { return strings.HasSuffix(g.T, "Z") }

func pt2(p []float64) geo.Point  { return geo.Point{X: p[0], Y: p[1]} }
func pt3(p []float64) geo.PointZ { return geo.PointZ{X: p[0], Y: p[1], Z: p[2]} }

func pts2(ps [][]float64) []geo.Point {
	out := make([]geo.Point, 0, len(ps))
	for _, p := range ps {
		out = append(out, pt2(p))
	}
	return out
}

func pts3(ps [][]float64) []geo.PointZ {
	out := make([]geo.PointZ, 0, len(ps))
	for _, p := range ps {
		out = append(out, pt3(p))
	}
	return out
}

// Build makes a fresh library value that shares no memory with anything.
func (g Geom) Build() geo.Geometry { return g.build(pts2) }

func (g Geom) build(mk func([][]float64) []geo.Point) geo.Geometry {
	switch g.T {
	case "Point":
		return pt2(g.C[0][0][0])
	case "PointZ":
		return pt3(g.C[0][0][0])
	case "MultiPoint":
		return geo.MultiPoint(mk(g.C[0][0]))
	case "MultiPointZ":
		return geo.MultiPointZ(pts3(g.C[0][0]))
	case "LineString":
		return geo.LineString(mk(g.C[0][0]))
	case "LineStringZ":
		return geo.LineStringZ(pts3(g.C[0][0]))
	case "MultiLineString":
		var m geo.MultiLineString
		for _, l := range g.C[0] {
			m = append(m, geo.LineString(mk(l)))
		}
		return m
	case "MultiLineStringZ":
		var m geo.MultiLineStringZ
		for _, l := range g.C[0] {
			m = append(m, geo.LineStringZ(pts3(l)))
		}
		return m
	case "Polygon":
		return polyOf(g.C[0], mk)
	case "PolygonZ":
		return polyZOf(g.C[0])
	case "MultiPolygon":
		var m geo.MultiPolygon
		for _, p := range g.C {
			m = append(m, polyOf(p, mk))
		}
		return m
	case "MultiPolygonZ":
		var m geo.MultiPolygonZ
		for _, p := range g.C {
			m = append(m, polyZOf(p))
		}
		return m
	}
	panic("bad geometry spec " + g.T)
}

func polyOf(rs [][][]float64, mk func([][]float64) []geo.Point) geo.Polygon {
	var p geo.Polygon
	for _, r := range rs {
		p = append(p, geo.LinearRing(mk(r)))
	}
	return p
}

func polyZOf(rs [][][]float64) geo.PolygonZ {
	var p geo.PolygonZ
	for _, r := range rs {
		p = append(p, geo.LinearRingZ(pts3(r)))
	}
	return p
}

// specOf is the inverse of Build (an independent reading of library values).
func specOf(g geo.Geometry) Geom {
	p2 := func(ps []geo.Point) [][]float64 {
		out := [][]float64{}
		for _, p := range ps {
			out = append(out, []float64{p.X, p.Y})
		}
		return out
	}
	p3 := func(ps []geo.PointZ) [][]float64 {
		out := [][]float64{}
		for _, p := range ps {
			out = append(out, []float64{p.X, p.Y, p.Z})
		}
		return out
	}
	one := func(t string, r ...[][]float64) Geom { return Geom{T: t, C: [][][][]float64{r}} }
	switch g := g.(type) {
	case geo.Point:
		return one("Point", p2([]geo.Point{g}))
	case geo.PointZ:
		return one("PointZ", p3([]geo.PointZ{g}))
	case geo.MultiPoint:
		return one("MultiPoint", p2(g))
	case geo.MultiPointZ:
		return one("MultiPointZ", p3(g))
	case geo.LineString:
		return one("LineString", p2(g))
	case geo.LineStringZ:
		return one("LineStringZ", p3(g))
	case geo.MultiLineString:
		o := Geom{T: "MultiLineString", C: [][][][]float64{{}}}
		for _, l := range g {
			o.C[0] = append(o.C[0], p2(l))
		}
		return o
	case geo.MultiLineStringZ:
		o := Geom{T: "MultiLineStringZ", C: [][][][]float64{{}}}
		for _, l := range g {
			o.C[0] = append(o.C[0], p3(l))
		}
		return o
	case geo.Polygon:
		o := Geom{T: "Polygon", C: [][][][]float64{{}}}
		for _, l := range g {
			o.C[0] = append(o.C[0], p2(l))
		}
		return o
	case geo.PolygonZ:
		o := Geom{T: "PolygonZ", C: [][][][]float64{{}}}
		for _, l := range g {
			o.C[0] = append(o.C[0], p3(l))
		}
		return o
	case geo.MultiPolygon:
		o := Geom{T: "MultiPolygon"}
		for _, p := range g {
			rs := [][][]float64{}
			for _, l := range p {
				rs = append(rs, p2(l))
			}
			o.C = append(o.C, rs)
		}
		return o
	case geo.MultiPolygonZ:
		o := Geom{T: "MultiPolygonZ"}
		for _, p := range g {
			rs := [][][]float64{}
			for _, l := range p {
				rs = append(rs, p3(l))
			}
			o.C = append(o.C, rs)
		}
		return o
	}
	return Geom{T: fmt.Sprintf("?%T", g)}
}

// eqGeom compares bit for bit.
func eqGeom(a, b Geom) bool {
	if a.T != b.T || len(a.C) != len(b.C) {
		return false
	}
	for i := range a.C {
		if len(a.C[i]) != len(b.C[i]) {
			return false
		}
		for j := range a.C[i] {
			if len(a.C[i][j]) != len(b.C[i][j]) {
				return false
			}
			for k := range a.C[i][j] {
				if len(a.C[i][j][k]) != len(b.C[i][j][k]) {
					return false
				}
				for l := range a.C[i][j][k] {
					if math.Float64bits(a.C[i][j][k][l]) != math.Float64bits(b.C[i][j][k][l]) {
						return false
					}
				}
			}
		}
	}
	return true
}

func (g Geom) String() string {
	s := g.key()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// key is the whole geometry as text.
func (g Geom) key() string {
	var sb strings.Builder
	sb.WriteString(g.T)
	for _, p := range g.C {
		sb.WriteString("{")
		for _, r := range p {
			sb.WriteString("(")
			for i, c := range r {
				if i > 0 {
					sb.WriteString(",")
				}
				for j, f := range c {
					if j > 0 {
						sb.WriteString(" ")
					}
					sb.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
				}
			}
			sb.WriteString(")")
		}
		sb.WriteString("}")
	}
	return sb.String()
}

func (g Geom) npoints() int {
	n := 0
	for _, p := range g.C {
		for _, r := range p {
			n += len(r)
		}
	}
	return n
}

// box is the harness's own bounding box.
type box struct{ x0, y0, x1, y1 float64 }

func (g Geom) box() box {
	b := box{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	for _, p := range g.C {
		for _, r := range p {
			for _, c := range r {
				b.x0, b.x1 = math.Min(b.x0, c[0]), math.Max(b.x1, c[0])
				b.y0, b.y1 = math.Min(b.y0, c[1]), math.Max(b.y1, c[1])
			}
		}
	}
	return b
}

func (b box) hits(c box) bool {
	return b.x0 <= c.x1 && c.x0 <= b.x1 && b.y0 <= c.y1 && c.y0 <= b.y1
}

func (b box) dist2(x, y float64) float64 {
	dx := math.Max(0, math.Max(b.x0-x, x-b.x1))
	dy := math.Max(0, math.Max(b.y0-y, y-b.y1))
	return dx*dx + dy*dy
}

// ---- generation ----

func (c *coords) snap(x float64) float64 {
	if c.integral() {
		return math.Round(x)
	}
	if c.mode == cmUnit {
		return math.Round(x*4) / 4
	}
	return x
}

func (c *coords) path(r *Rng, n int) [][]float64 {
	out := [][]float64{}
	x, y := c.xy(r)
	s := c.scale()
	for i := 0; i < n; i++ {
		out = append(out, []float64{x, y})
		if c.mode == cmThin || r.P(0.1) {
			x, y = c.xy(r)
		} else {
			x = c.snap(x + (r.F()*2-1)*s)
			y = c.snap(y + (r.F()*2-1)*s)
		}
	}
	return out
}

// star is a simple polygon ring, closed, around (x,y) with radius up to s.
func star(r *Rng, x, y, s float64, n int, cw bool) [][]float64 {
	as := make([]float64, n)
	for i := range as {
		as[i] = (float64(i) + 0.2 + 0.6*r.F()) / float64(n) * 2 * math.Pi
	}
	sort.Float64s(as)
	out := [][]float64{}
	for i := range as {
		a := as[i]
		if cw {
			a = as[n-1-i]
		}
		d := s * (0.4 + 0.6*r.F())
		out = append(out, []float64{x + d*math.Cos(a), y + d*math.Sin(a)})
	}
	return append(out, []float64{out[0][0], out[0][1]})
}

func rect(x0, y0, x1, y1 float64, cw bool) [][]float64 {
	o := [][]float64{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}, {x0, y0}}
	if cw {
		o = [][]float64{{x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}, {x0, y0}}
	}
	return o
}

func (c *coords) poly(r *Rng, maxPts int, holes bool) [][][]float64 {
	x, y := c.xy(r)
	s := c.scale() * (0.3 + r.F())
	var rs [][][]float64
	cw := r.P(0.5)
	if r.P(0.4) || c.integral() {
		w := math.Max(1, math.Floor(s))
		h := math.Max(1, math.Floor(s*(0.5+r.F())))
		if !c.integral() {
			w, h = s, s*(0.5+r.F())
		}
		rs = append(rs, rect(x, y, x+w, y+h, cw))
		if holes {
			k := r.N(3)
			if r.P(0.08) {
				k = r.Range(3, 9)
			}
			m := float64(k + 3)
			for ; k > 0; k-- {
				f := float64(k) / m
				if r.P(0.3) {
					rs = append(rs, star(r, x+w*(f+0.4/m), y+h*(f+0.4/m), math.Min(w, h)*0.4/m, r.Range(3, 9), !cw))
				} else {
					rs = append(rs, rect(x+w*f, y+h*f, x+w*(f+0.5/m), y+h*(f+0.5/m), !cw))
				}
			}
		}
		return rs
	}
	holes = holes && r.P(0.5)
	n := r.Range(3, maxPts)
	if holes && n < 6 {
		n = 6
	}
	rs = append(rs, star(r, x, y, s, n, cw))
	if holes {
		for k := r.Range(1, 2); k > 0; k-- {
			rs = append(rs, star(r, x+s*0.05*float64(k), y, s*0.08, r.Range(3, 5), !cw))
		}
	}
	return rs
}

// parts is the number of parts of a multi-geometry.
func parts(r *Rng, usual int) int {
	if r.P(0.06) {
		return r.Range(usual, 12)
	}
	return r.Range(1, usual)
}

// gen makes a valid geometry of type t.
func (c *coords) gen(r *Rng, t string, maxPts int) Geom {
	base := strings.TrimSuffix(t, "Z")
	g := Geom{T: t}
	n := func(lo int) int { return r.Range(lo, maxPts) }
	switch base {
	case "Point":
		x, y := c.xy(r)
		g.C = [][][][]float64{{{{x, y}}}}
	case "MultiPoint":
		k := n(1)
		ps := [][]float64{}
		for i := 0; i < k; i++ {
			x, y := c.xy(r)
			ps = append(ps, []float64{x, y})
		}
		g.C = [][][][]float64{{ps}}
	case "LineString":
		g.C = [][][][]float64{{c.path(r, n(2))}}
	case "MultiLineString":
		rs := [][][]float64{}
		for k := parts(r, 4); k > 0; k-- {
			rs = append(rs, c.path(r, n(2)))
		}
		g.C = [][][][]float64{rs}
	case "Polygon":
		g.C = [][][][]float64{c.poly(r, maxPts+2, true)}
	case "MultiPolygon":
		for k := parts(r, 3); k > 0; k-- {
			g.C = append(g.C, c.poly(r, maxPts+2, true))
		}
	}
	if g.z() {
		for _, p := range g.C {
			for _, rr := range p {
				for i := range rr {
					z := math.Round(r.F()*100) / 4
					if r.P(0.3) {
						z = r.F()*1e4 - 5e3
					}
					if i == len(rr)-1 && (base == "Polygon" || base == "MultiPolygon") {
						z = rr[0][2]
					}
					rr[i] = append(rr[i], z)
				}
			}
		}
	}
	return g
}

// genUpTo is gen, with a size near the limit if near is set.
func (c *coords) genUpTo(r *Rng, t string, m int, near bool) Geom {
	g := c.gen(r, t, m)
	for k := 0; near && k < 12 && g.npoints() < m/2 && g.npoints() > 1; k++ {
		g = c.gen(r, t, m)
	}
	return g
}

// clone is a deep copy of the plan form.
func (g Geom) clone() Geom {
	o := Geom{T: g.T, Sub: append([]int(nil), g.Sub...), Odd: g.Odd}
	for _, p := range g.C {
		var np [][][]float64
		for _, r := range p {
			var nr [][]float64
			for _, c := range r {
				nr = append(nr, append([]float64(nil), c...))
			}
			np = append(np, nr)
		}
		o.C = append(o.C, np)
	}
	return o
}
