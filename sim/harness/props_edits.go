package main

import (
	"fmt"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"

	"geosim/simrt"
)

// ---- C15: editing histories
//
// Every task owns objects of its own, made with the constructors from slices of
// the same shared points, rings and polygons (which have spare room behind
// them). The model of an object is a nested list.

type eobj struct {
	t string
	m Geom // model; for lists of rings and polygons too
	l *geo.LineString
	z *geo.LineStringZ
	p *geo.MultiPoint
	q *geo.MultiPointZ
	g *geo.Polygon
	h *geo.PolygonZ
	n *geo.MultiPolygon
	o *geo.MultiPolygonZ
	k *geo.MultiLineString
	// features
	f     *geojson.Feature
	fc    *geojson.FeatureCollection
	props map[string]interface{}
	feats []string
	own   bool // rings made from points, by this owner
}

func (x *eobj) value() geo.Geometry {
	switch {
	case x.l != nil:
		return *x.l
	case x.z != nil:
		return *x.z
	case x.p != nil:
		return *x.p
	case x.q != nil:
		return *x.q
	case x.g != nil:
		return *x.g
	case x.h != nil:
		return *x.h
	case x.n != nil:
		return *x.n
	case x.o != nil:
		return *x.o
	case x.k != nil:
		return *x.k
	}
	return nil
}

// list is the model's editable list of points.
func (x *eobj) list() *[][]float64 { return &x.m.C[0][0] }

func (x *eobj) check() string {
	switch x.t {
	case "Feature":
		if a, b := canon(x.props), canon(x.f.Properties); a != b {
			return fmt.Sprintf("properties %s, expected %s", head(b, 300), head(a, 300))
		}
		if got := specOf(x.f.Geometry); !eqGeom(got, x.m) {
			return fmt.Sprintf("geometry %s, expected %s", got, x.m)
		}
		if x.f.GeometryJson == nil {
			return "no geometry"
		}
		return x.m.inDoc(x.f.GeometryJson.Type, x.f.GeometryJson.Coordinates)
	case "FeatureCollection":
		if len(x.fc.Features) != len(x.feats) {
			return fmt.Sprintf("%d features, expected %d", len(x.fc.Features), len(x.feats))
		}
		for i, f := range x.fc.Features {
			if f == nil || f.ID != x.feats[i] {
				return fmt.Sprintf("feature %d is %s, expected %s", i, head(canon(f), 100), x.feats[i])
			}
		}
		return ""
	}
	if got := specOf(x.value()); !eqGeom(got, x.m) {
		return fmt.Sprintf("%s, expected %s", got, x.m)
	}
	return ""
}

type editWorld struct {
	r     *run
	e     *env  // shared points
	pts   []int // pool items that are lines
	own   [][]*eobj
	feats []*geojson.Feature
	edits int
	bad   int
}

func clonePts(ps [][]float64) [][]float64 {
	out := make([][]float64, 0, len(ps))
	for _, p := range ps {
		out = append(out, append([]float64(nil), p...))
	}
	return out
}

func closed(ps [][]float64, eq func(a, b []float64) bool) [][]float64 {
	c := clonePts(ps)
	if len(c) > 0 && !eq(c[0], c[len(c)-1]) {
		c = append(c, append([]float64(nil), c[0]...))
	}
	return c
}

func near2(a, b []float64) bool {
	return geo.Point{X: a[0], Y: a[1]}.Equal(geo.Point{X: b[0], Y: b[1]})
}
func near3(a, b []float64) bool { return pt3(a).Equal(pt3(b)) }

// src is a slice of the shared points of pool item i (line or lineZ).
func (w *editWorld) src(op *Op) (two []geo.Point, three []geo.PointZ, model [][]float64) {
	i := w.pts[op.n(1)%len(w.pts)]
	ps := w.r.p.Pool[i].C[0][0]
	a := op.n(2) % len(ps)
	b := a + 1 + op.n(3)%(len(ps)-a)
	model = clonePts(ps[a:b])
	switch v := w.e.vals[i].(type) {
	case geo.LineString:
		return v[a:b], nil, model
	case geo.LineStringZ:
		return nil, v[a:b], model
	}
	return nil, nil, nil
}

func one(t string, ps ...[][]float64) Geom { return Geom{T: t, C: [][][][]float64{ps}} }

func (w *editWorld) make(t int, op *Op) {
	x := &eobj{t: op.s(0)}
	two, three, m := w.src(op)
	if three != nil {
		switch x.t {
		case "LineString", "MultiLineString":
			x.t = "LineStringZ"
		case "MultiPoint":
			x.t = "MultiPointZ"
		case "Polygon":
			x.t = "PolygonZ"
		case "MultiPolygon":
			x.t = "MultiPolygonZ"
		}
	} else {
		x.t = strings.TrimSuffix(x.t, "Z")
	}
	ok := w.r.lib(op, func() {
		switch x.t {
		case "LineString":
			x.l, x.m = geo.NewLineString(two...), one(x.t, m)
		case "LineStringZ":
			x.z, x.m = geo.NewLineStringZ(three...), one(x.t, m)
		case "MultiPoint":
			x.p, x.m = geo.NewMultiPoint(two...), one(x.t, m)
		case "MultiPointZ":
			x.q, x.m = geo.NewMultiPointZ(three...), one(x.t, m)
		case "Polygon":
			if len(two) < 2 {
				x = nil
			} else if op.n(4)%2 == 0 {
				x.g, x.m = geo.NewPolygonFromPois(two...), one(x.t, closed(m, near2))
			} else {
				x.g, x.m = geo.NewPolygon(*geo.NewLinearRing(two...)), one(x.t, closed(m, near2))
			}
		case "PolygonZ":
			if op.n(4)%2 == 0 {
				x.h, x.m = geo.NewPolygonZFromPois(three...), one(x.t, closed(m, near3))
			} else {
				x.h, x.m = geo.NewPolygonZ(*geo.NewLinearRingZ(three...)), one(x.t, closed(m, near3))
			}
		case "MultiPolygon":
			x.n, x.m = geo.NewMultiPolygon(), Geom{T: x.t}
			if len(two) >= 2 {
				x.n = geo.NewMultiPolygon(*geo.NewPolygonFromPois(two...))
				x.m.C = [][][][]float64{{closed(m, near2)}}
			}
		case "MultiPolygonZ":
			x.o, x.m = geo.NewMultiPolygonZ(*geo.NewPolygonZFromPois(three...)), Geom{T: x.t, C: [][][][]float64{{closed(m, near3)}}}
		case "MultiLineString":
			x.k, x.m = geo.NewMultiLineString(*geo.NewLineString(two...)), one(x.t, m)
		case "Feature":
			// the geometry itself is shared: only the feature is edited
			i := w.pts[op.n(1)%len(w.pts)]
			x.f, x.m = geojson.NewFeature(w.e.vals[i]), w.r.p.Pool[i]
			x.props = map[string]interface{}{}
		case "FeatureCollection":
			x.fc = geojson.NewFeatureCollection()
		case "rings":
			// several owners make polygons of the same rings
			i := op.n(1) % len(w.e.vals)
			for k := range w.e.vals {
				if p, ok := w.e.vals[(i+k)%len(w.e.vals)].(geo.Polygon); ok {
					j := (i + k) % len(w.e.vals)
					x.t, x.g, x.m = "Polygon", geo.NewPolygon(p...), w.r.p.Pool[j].clone()
					return
				}
			}
			x = nil
		case "polys":
			i := op.n(1) % len(w.e.vals)
			for k := range w.e.vals {
				if p, ok := w.e.vals[(i+k)%len(w.e.vals)].(geo.MultiPolygon); ok {
					j := (i + k) % len(w.e.vals)
					x.t, x.n, x.m = "MultiPolygon", geo.NewMultiPolygon(p...), w.r.p.Pool[j].clone()
					return
				}
			}
			x = nil
		}
	})
	if ok && x != nil {
		x.own = op.s(0) != "rings" && op.s(0) != "polys"
		x.m = x.m.clone()
		if len(w.own[t]) < 12 {
			w.own[t] = append(w.own[t], x)
		} else {
			w.own[t][op.n(4)%12] = x
		}
		w.after(op, x)
	}
}

func (w *editWorld) after(op *Op, x *eobj) {
	if w.r.failed() {
		return
	}
	if s := x.check(); s != "" {
		w.r.fail(op.ID, "edit:"+op.K+":"+x.t, "after %s(%v) the owner sees %s", op.K, op.N, s)
	}
}

// other copies an object with the constructor; the copy has another owner.
func (w *editWorld) other(t int, op *Op, x *eobj) {
	y := &eobj{t: x.t, m: x.m.clone()}
	if !w.r.lib(op, func() {
		switch {
		case x.l != nil:
			y.l = geo.NewLineString(x.l.GetPointSet()...)
		case x.z != nil:
			y.z = geo.NewLineStringZ(x.z.GetPointSet()...)
		case x.p != nil:
			y.p = geo.NewMultiPoint(x.p.GetPointSet()...)
		case x.q != nil:
			y.q = geo.NewMultiPointZ(x.q.GetPointSet()...)
		case x.g != nil:
			y.g = geo.NewPolygon(*x.g...)
		case x.h != nil:
			y.h = geo.NewPolygonZ(*x.h...)
		case x.n != nil:
			y.n = geo.NewMultiPolygon(*x.n...)
		case x.o != nil:
			y.o = geo.NewMultiPolygonZ(*x.o...)
		default:
			y = nil
		}
	}) || y == nil {
		return
	}
	x.own = false // the constructors copy the list of rings, not the rings
	if len(w.own[t]) < 12 {
		w.own[t] = append(w.own[t], y)
	}
	w.after(op, y)
}

func (w *editWorld) do(t int, op *Op) {
	if op.K == "new" || len(w.own[t]) == 0 {
		if op.K == "new" {
			w.make(t, op)
		}
		return
	}
	x := w.own[t][op.n(0)%len(w.own[t])]
	w.edits++
	two := geo.Point{X: op.f(0), Y: op.f(1)}
	three := geo.PointZ{X: op.f(0), Y: op.f(1), Z: op.f(2)}
	p2, p3 := []float64{op.f(0), op.f(1)}, []float64{op.f(0), op.f(1), op.f(2)}
	pos := op.n(1)
	wantErr := func(err error, want bool) {
		if want {
			w.bad++
		}
		if (err != nil) != want {
			w.r.fail(op.ID, "error:"+op.K+":"+x.t, "%s at %d of %d points: error %v", op.K, pos, len(*x.list()), err)
		}
	}
	switch op.K {
	case "other":
		w.other(t, op, x)
		return
	case "append":
		w.r.lib(op, func() {
			switch {
			case x.l != nil:
				wantErr(x.l.Append(two), false)
				*x.list() = append(*x.list(), p2)
			case x.z != nil:
				wantErr(x.z.Append(three), false)
				*x.list() = append(*x.list(), p3)
			case x.p != nil:
				x.p.Append(two)
				*x.list() = append(*x.list(), p2)
			case x.q != nil:
				x.q.Append(three)
				*x.list() = append(*x.list(), p3)
			case x.f != nil:
				k := fmt.Sprintf("k%d", pos%4)
				x.f.SetProperty(k, op.f(0))
				x.props[k] = op.f(0)
				if v := x.f.PropertyMustFloat64(k, -1); v != op.f(0) {
					w.r.fail(op.ID, "edit:property", "property %s is %v after it was set to %v", k, v, op.f(0))
				}
			case x.fc != nil:
				f := w.feats[pos%len(w.feats)]
				if r := x.fc.AddFeature(f); r != x.fc {
					w.r.fail(op.ID, "edit:addfeature", "AddFeature returned another collection")
				}
				x.feats = append(x.feats, f.ID.(string))
			case x.g != nil:
				if a, b, m := w.src(op); b == nil && len(a) >= 2 {
					x.g.AddInteriorRing(*geo.NewLinearRing(a...))
					x.m.C[0] = append(x.m.C[0], closed(m, near2))
				}
			case x.h != nil:
				if _, b, m := w.src(op); b != nil {
					x.h.AddInteriorRing(*geo.NewLinearRingZ(b...))
					x.m.C[0] = append(x.m.C[0], closed(m, near3))
				}
			case x.n != nil:
				if a, b, m := w.src(op); b == nil && len(a) >= 2 {
					x.n.AddPolygon(*geo.NewPolygonFromPois(a...))
					x.m.C = append(x.m.C, [][][]float64{closed(m, near2)})
				}
			case x.o != nil:
				if _, b, m := w.src(op); b != nil {
					x.o.AddPolygonZ(*geo.NewPolygonZFromPois(b...))
					x.m.C = append(x.m.C, [][][]float64{closed(m, near3)})
				}
			}
		})
	case "set", "insert", "delete":
		switch {
		case x.l != nil:
			l := x.list()
			n := len(*l)
			// positions around the end are drawn often
			if k := op.n(2) % 4; k < 2 {
				pos %= n + 1
			} else if k == 2 {
				pos = n + pos%3
			} else if op.n(4)%5 == 0 {
				pos = -1 - op.n(3)%3
			}
			w.r.lib(op, func() {
				switch op.K {
				case "set":
					wantErr(x.l.SetPoint(pos, two), pos < 0 || pos > n)
					if pos >= 0 && pos < n {
						(*l)[pos] = p2
					} else if pos == n {
						*l = append(*l, p2)
					}
				case "insert":
					wantErr(x.l.InsertPoint(pos, two), pos < 0 || pos > n)
					if pos >= 0 && pos <= n {
						*l = append(*l, nil)
						copy((*l)[pos+1:], (*l)[pos:])
						(*l)[pos] = p2
					}
				default:
					wantErr(x.l.DelPoint(pos), pos < 0 || pos >= n)
					if pos >= 0 && pos < n {
						*l = append(append([][]float64{}, (*l)[:pos]...), (*l)[pos+1:]...)
					}
				}
			})
		case x.own && op.n(4)%2 == 0 && len(x.m.C) > 0 && len(x.m.C[0]) > 0 && (x.g != nil || x.h != nil || x.n != nil || x.o != nil):
			// a point of a ring, in place
			i := pos % len(x.m.C)
			j := op.n(3) % len(x.m.C[i])
			k := op.n(2) % len(x.m.C[i][j])
			switch {
			case x.g != nil:
				(*x.g)[j][k] = two
			case x.h != nil:
				(*x.h)[j][k] = three
			case x.n != nil:
				(*x.n)[i][j][k] = two
			default:
				(*x.o)[i][j][k] = three
			}
			x.m.C[i][j][k] = p2
			if x.m.z() {
				x.m.C[i][j][k] = p3
			}
		case x.g != nil:
			if a, b, m := w.src(op); b == nil && len(a) >= 2 {
				w.r.lib(op, func() { x.g.SetExteriorRing(*geo.NewLinearRing(a...)) })
				setFirst(&x.m, closed(m, near2))
			}
		case x.h != nil:
			if _, b, m := w.src(op); b != nil {
				w.r.lib(op, func() { x.h.SetExteriorRing(*geo.NewLinearRingZ(b...)) })
				setFirst(&x.m, closed(m, near3))
			}
		case x.p != nil && len(*x.p) > 0:
			i := pos % len(*x.p)
			w.r.lib(op, func() { (*x.p)[i].SetX(op.f(0)); (*x.p)[i].SetY(op.f(1)) })
			(*x.list())[i] = p2
		case x.q != nil && len(*x.q) > 0:
			i := pos % len(*x.q)
			w.r.lib(op, func() { (*x.q)[i].SetX(op.f(0)); (*x.q)[i].SetY(op.f(1)); (*x.q)[i].SetZ(op.f(2)) })
			(*x.list())[i] = p3
		}
	case "reverse":
		w.r.lib(op, func() {
			l := x.m
			switch {
			case x.l != nil:
				x.l.Reverse()
			case x.z != nil:
				x.z.Reverse()
			default:
				return
			}
			ps := l.C[0][0]
			for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
		})
	case "read":
		w.read(op, x, pos)
		return
	}
	w.after(op, x)
}

func setFirst(m *Geom, r [][]float64) {
	if len(m.C[0]) == 0 {
		m.C[0] = [][][]float64{r}
	} else {
		m.C[0][0] = r
	}
}

// read compares the readers of an object with the model.
func (w *editWorld) read(op *Op, x *eobj, pos int) {
	bad := func(n string, got, want interface{}) {
		w.r.fail(op.ID, "read:"+n+":"+x.t, "%s gives %s, expected %s", n, head(canon(got), 300), head(canon(want), 300))
	}
	eq := func(n string, got, want interface{}) {
		if canon(got) != canon(want) {
			bad(n, got, want)
		}
	}
	w.r.lib(op, func() {
		switch {
		case x.l != nil:
			l := *x.list()
			n := len(l)
			eq("GetPointCount", x.l.GetPointCount(), n)
			eq("GetPointSet", x.l.GetPointSet(), pts2(l))
			eq("Verify", x.l.Verify() == nil, n >= 2)
			k := pos%(n+3) - 1
			if g := x.l.GetPoint(k); k >= 0 && k < n {
				if g == nil || !bits2(*g, pt2(l[k])) {
					bad("GetPoint", g, l[k])
				}
			} else if g != nil {
				bad("GetPoint", g, nil)
			}
			if n >= 2 {
				if a, b := x.l.GetFirstPoint(), x.l.GetEndPoint(); a == nil || b == nil || !bits2(*a, pt2(l[0])) || !bits2(*b, pt2(l[n-1])) {
					bad("GetFirstPoint/GetEndPoint", vals(a, b), vals(l[0], l[n-1]))
				}
			}
			eq("Equal", x.l.Equal(geo.LineString(pts2(l))), true)
			if n > 0 {
				eq("Equal", x.l.Equal(geo.LineString(pts2(l[:n-1]))), false)
			}
		case x.z != nil:
			l := *x.list()
			n := len(l)
			eq("GetPointCount", x.z.GetPointCount(), n)
			eq("GetPointSet", x.z.GetPointSet(), pts3(l))
			if n >= 2 {
				eq("GetFirstPoint", x.z.GetFirstPoint(), pt3(l[0]))
				eq("GetEndPoint", x.z.GetEndPoint(), pt3(l[n-1]))
			}
			eq("Equal", x.z.Equal(geo.LineStringZ(pts3(l))), true)
		case x.p != nil:
			eq("GetPointSet", x.p.GetPointSet(), pts2(*x.list()))
		case x.q != nil:
			eq("GetPointSet", x.q.GetPointSet(), pts3(*x.list()))
		case x.g != nil:
			rs := x.m.C[0]
			if len(rs) > 0 {
				eq("GetExteriorRing", specOf(geo.LineString(x.g.GetExteriorRing())), one("LineString", rs[0]))
				eq("GetExteriorPoints", x.g.GetExteriorPoints(), pts2(rs[0]))
				eq("GetInteriorRing", len(x.g.GetInteriorRing()), len(rs)-1)
				for i, r := range x.g.GetInteriorRing() {
					eq("GetInteriorRing", r.GetPointSet(), pts2(rs[i+1]))
				}
			}
		case x.h != nil:
			rs := x.m.C[0]
			if len(rs) > 0 {
				eq("GetExteriorRing", x.h.GetExteriorRing().GetPointSet(), pts3(rs[0]))
				eq("GetExteriorPoints", x.h.GetExteriorPoints(), pts3(rs[0]))
				eq("GetInteriorRing", len(x.h.GetInteriorRing()), len(rs)-1)
			}
		}
	})
}

func execEdits(p *Plan, st *Stats) *Violation {
	r := newRun(p, st)
	w := &editWorld{r: r, e: newEnv(p.Pool), own: make([][]*eobj, len(p.Tasks))}
	for i, g := range p.Pool {
		if (g.T == "LineString" || g.T == "LineStringZ") && len(g.C) > 0 && len(g.C[0]) > 0 && len(g.C[0][0]) > 0 {
			w.pts = append(w.pts, i)
		}
	}
	for i := 0; i < 5; i++ {
		f := geojson.NewFeature(geo.Point{X: float64(i), Y: 1})
		f.ID = fmt.Sprintf("f%d", i)
		w.feats = append(w.feats, f)
	}
	if len(w.pts) == 0 {
		return r.finish()
	}
	r.tasks(func(o *Op) int { return 1 << 18 }, func(t int, o *Op) {
		st.C["op:"+o.K]++
		w.do(t, o)
	})
	for t := range w.own {
		for _, x := range w.own[t] {
			if r.failed() {
				break
			}
			if s := x.check(); s != "" {
				r.fail(0, "seen-by-other:"+x.t, "at the end an owner sees %s although nobody but he may edit it", s)
			}
			if x.t != "FeatureCollection" {
				st.state(hashStr(x.m.String()))
			}
		}
	}
	if a := w.e.altered(); a != "" && !r.failed() {
		r.fail(0, "source-altered", "%s: the points that objects were made from", a)
	}
	st.add("outcome:refused-edit", w.bad)
	st.note(fmt.Sprint(w.edits, w.bad))
	v := r.finish()
	st.Nontrivial = w.edits > 3 && simrt.GetStats().Switches > 1
	return v
}

func genEdits(r *Rng) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	c := newCoords(r, docModes[r.N(len(docModes))])
	big := r.P(0.01)
	for k := r.Range(1, 3); k > 0; k-- {
		m := r.Range(3, 14)
		if big {
			m = []int{30, 60, 130, 260}[r.N(4)]
		}
		g := c.genUpTo(r, []string{"LineString", "LineString", "LineStringZ"}[r.N(3)], m, big)
		if l := g.C[0][0]; len(l) > 2 && (r.P(0.2) || big && r.P(0.3)) {
			l[len(l)-1] = append([]float64(nil), l[0]...)
		}
		p.Pool = append(p.Pool, g)
	}
	lines := len(p.Pool)
	if r.P(0.5) {
		p.Pool = append(p.Pool, c.gen(r, "Polygon", 5))
	}
	if r.P(0.4) {
		p.Pool = append(p.Pool, c.gen(r, "MultiPolygon", 4))
	}
	nt := r.Range(2, 4)
	if r.P(0.2) {
		nt = 1
	}
	types := []string{"LineString", "LineString", "LineString", "LineString", "LineStringZ", "MultiPoint", "Polygon", "MultiPolygon", "MultiLineString", "Feature", "FeatureCollection", "rings", "polys"}
	for t := 0; t < nt; t++ {
		var ops []Op
		n := r.Range(2, 16)
		if r.P(0.1) {
			n = 60
		}
		span, whole := 24, false
		ws := []int{5, 4, 5, 4, 1, 3, 1}
		if big {
			n, span = r.Range(20, 400), 300
			ws = [][]int{ws, {20, 2, 20, 2, 1, 1, 1}, {2, 4, 2, 40, 1, 1, 1}, {2, 2, 2, 2, 10, 4, 1}}[r.N(4)]
		}
		for k := 0; k < n; k++ {
			var o Op
			if k < 2 || r.P(0.12) && !(big && k < n-9) {
				o = p.op("new")
				o.S = []string{types[r.N(len(types))]}
				if big && r.P(0.7) {
					o.S[0] = "LineString"
				}
				whole = big && r.P(0.7)
			} else {
				o = p.op([]string{"append", "set", "insert", "delete", "reverse", "read", "other"}[r.Pick(ws...)])
				x, y := c.xy(r)
				if n := len(ops); r.P(0.1) && len(ops[n-1].F) > 1 {
					x, y = ops[n-1].F[0], ops[n-1].F[1]
				}
				o.F = []float64{x, y, float64(r.N(100))}
			}
			o.N = []int{r.N(12), r.N(span), r.N(24), r.N(24), r.N(24)}
			if i := r.N(lines); whole && o.K == "new" { // the whole line
				o.N[1], o.N[2], o.N[3] = i, 0, len(p.Pool[i].C[0][0])-1
			} else if big && r.P(0.9) { // mostly the first, and mostly within it
				o.N[0] = 0
				o.N[2] = r.N(12)*2 + r.N(2)
				o.N[2] -= o.N[2] & 2
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = randSched(r)
	return p
}

type c15 struct{}

func (c15) ID() string { return "C15" }
func (c15) Runs(t string) int {
	if t == "thorough" {
		return 20000000
	}
	return 400000
}
func (c15) Gen(r *Rng, idx int) *Plan          { return genEdits(r) }
func (c15) Exec(p *Plan, st *Stats) *Violation { return execEdits(p, st) }
func (c15) Real() []string                     { return libReal }
func (c15) Stub() []string                     { return callStub }
func (c15) Rule() string {
	return "a run makes 2-240 edits and reads from 1-4 owners on lines, multi-geometries, polygons, features and collections made with the constructors from the same shared points, rings and polygons; the whole object is compared with a list model after every edit; non-trivial when more than three edits ran and tasks were preempted; states are hashes of the objects at the end"
}

func init() { register(c15{}) }
