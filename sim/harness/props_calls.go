package main

import (
	"math"

	geo "github.com/hzw456/go-geo"
)

var callStub = []string{"caller goroutines: simulated tasks, one runs at a time", "clock, math/rand, sync as used by the library: simulated"}

var measKinds = map[string]*kind{
	"dist": {w: 6, nums: "pps", run: func(c *call) []interface{} {
		p, q, s := c.pt(0), c.pt(2), c.srid(4)
		return vals(geo.PointDistance(p, q, s), geo.CoordDistance(p, q), geo.CoordGreateCircle(p, q), geo.EuclideanDis(p, q), geo.EuclideanDistance(p, q), p.Distance(q), p.Equal(q))
	}},
	"distz": {w: 1, nums: "pp", run: func(c *call) []interface{} {
		p, q := geo.PointZ{X: c.o.f(0), Y: c.o.f(1), Z: c.o.f(2)}, geo.PointZ{X: c.o.f(2), Y: c.o.f(3), Z: c.o.f(0)}
		return vals(geo.EuclideanDisZ(p, q), p.Equal(q), p.Equal(p))
	}},
	"angle": {w: 3, nums: "ppps", run: func(c *call) []interface{} {
		a, e1 := geo.CacAngle(c.pt(0), c.pt(2), c.pt(4))
		b, e2 := geo.CacQuadrantAngle(c.pt(0), c.pt(2))
		x, e3 := geo.CacConvex(c.pt(0), c.pt(2), c.pt(4))
		return vals(a, e1, b, e2, x, e3, geo.GetAzimuth(c.pt(0), c.pt(2), c.srid(6)))
	}},
	"area": {w: 4, args: []string{"any"}, run: func(c *call) []interface{} { return vals(geo.GetArea(c.g(0))) }},
	"polyarea": {w: 4, args: []string{"poly"}, run: func(c *call) []interface{} {
		p := c.poly(0)
		return vals(geo.GetArea(p), p.IsCCW())
	}},
	"mpolyarea": {w: 2, args: []string{"mpoly"}, run: func(c *call) []interface{} {
		m := c.g(0).(geo.MultiPolygon)
		return vals(geo.MultiPolyArea(m), geo.GetArea(m))
	}},
	"centroid":     {w: 4, args: []string{"cent"}, run: func(c *call) []interface{} { return vals(geo.Centroid(c.g(0))) }},
	"linecentroid": {w: 3, args: []string{"line"}, run: func(c *call) []interface{} { return vals(geo.Centroid(c.g(0))) }},
	"ringcentroid": {w: 2, args: []string{"poly"}, run: func(c *call) []interface{} {
		return vals(geo.LinearCentroid(c.poly(0).GetExteriorRing()))
	}},
	"p2seg": {w: 4, nums: "ppps", run: func(c *call) []interface{} {
		d, p := geo.PointToSegmentDistance(c.pt(0), c.pt(2), c.pt(4), c.srid(6))
		d2, p2, u := geo.PointToLineDistance(c.pt(0), c.pt(2), c.pt(4), c.srid(6))
		return vals(d, p, d2, p2, u)
	}},
	"ppdist": {w: 5, args: []string{"poly"}, nums: "ps", run: func(c *call) []interface{} {
		return vals(geo.PointPolygonDistance(c.pt(0), c.poly(0), c.srid(2)))
	}},
	"hit": {w: 5, args: []string{"line"}, nums: "ps", run: func(c *call) []interface{} {
		p, i, d := geo.PointHitLineString(c.pt(0), c.line(0), c.srid(2))
		return vals(p, i, d)
	}},
	"hausdorff": {w: 6, args: []string{"line", "line"}, nums: "s", run: func(c *call) []interface{} {
		return vals(geo.HausdorffDistance(c.line(0), c.line(1), c.srid(0)))
	}},
	"length": {w: 5, args: []string{"line"}, view: true, run: func(c *call) []interface{} {
		l := c.line(0)
		return vals(l.Length(), l.Verify(), l.GetPointCount(), l.GetFirstPoint(), l.GetEndPoint(), l.GetPoint(len(l)/2), l.GetPoint(len(l)))
	}},
	"equal": {w: 3, args: []string{"line", "line"}, run: func(c *call) []interface{} {
		a, b := c.line(0), c.line(1)
		return vals(a.Equal(b), b.Equal(a), a.Equal(a))
	}},
	"equalz": {w: 1, args: []string{"lineZ", "lineZ"}, run: func(c *call) []interface{} {
		a, b := c.g(0).(geo.LineStringZ), c.g(1).(geo.LineStringZ)
		return vals(a.Equal(b), a.Equal(a), a.GetFirstPoint(), b.GetEndPoint(), b.GetPointCount())
	}},
	"bbox": {w: 5, args: []string{"any"}, run: func(c *call) []interface{} {
		b := geo.BoundingBox(c.g(0))
		return vals(b, geo.BoxToGeo(*b), b.Size())
	}},
	"boxes": {w: 4, args: []string{"flat", "flat"}, nums: "pw", run: func(c *call) []interface{} {
		a, b := geo.BoundingBox(c.g(0)), geo.BoundingBox(c.g(1))
		n := geo.NewRectBox(c.pt(0), c.o.f(2), c.o.f(2))
		return vals(a.Intersect(b), a.Union(b), a.Contain(b), geo.BoxUnion(a, b, n), geo.BoxUnion(), n.Intersect(a), geo.IsPointInBox(a, c.pt(0)), a.Intersect(nil))
	}},
	"segrel": {w: 3, nums: "pppp", run: func(c *call) []interface{} {
		return vals(geo.SegmentRelation(geo.LineSegment{Start: c.pt(0), End: c.pt(2)}, geo.LineSegment{Start: c.pt(4), End: c.pt(6)}), geo.IsPointOnSegment(c.pt(0), c.pt(2), c.pt(4)))
	}},
	"segpoly": {w: 5, args: []string{"poly"}, nums: "pp", run: func(c *call) []interface{} {
		return vals(geo.SegPolyRelation(geo.LineSegment{Start: c.pt(0), End: c.pt(2)}, c.poly(0)))
	}},
	"linepoly": {w: 5, args: []string{"line", "poly"}, run: func(c *call) []interface{} {
		return vals(geo.LinePolyRelation(c.line(0), c.poly(1)))
	}},
	"polyrel": {w: 5, args: []string{"poly", "poly"}, run: func(c *call) []interface{} {
		a, b := c.poly(0), c.poly(1)
		return vals(geo.PolyRelation(a, b), geo.LinearPolyRelation(b.GetExteriorRing(), a))
	}},
	"ptline": {w: 4, args: []string{"line"}, nums: "p", run: func(c *call) []interface{} {
		return vals(geo.IsPointOnLine(c.pt(0), c.line(0)))
	}},
	"linerel": {w: 5, args: []string{"line", "line"}, run: func(c *call) []interface{} {
		return vals(geo.LineRelation(c.line(0), c.line(1)))
	}},
	"ptpoly": {w: 8, args: []string{"poly"}, nums: "p", run: func(c *call) []interface{} {
		return vals(geo.IsPointInPolygon(c.pt(0), c.poly(0)))
	}},
	"selfint": {w: 3, args: []string{"poly"}, run: func(c *call) []interface{} { return vals(c.poly(0).SelfIntersect()) }},
	"verify": {w: 4, args: []string{"poly"}, run: func(c *call) []interface{} {
		p := c.poly(0)
		return vals(p.Verify())
	}},
	"buffer": {w: 3, nums: "pw", run: func(c *call) []interface{} { return vals(c.pt(0).Buffer(c.o.f(2))) }},
	"vector": {w: 2, nums: "ppp", run: func(c *call) []interface{} {
		u, v := geo.ConvertPointToVector(c.pt(0), c.pt(2)), geo.ConvertPointToVector(c.pt(0), c.pt(4))
		w := geo.ConvertSegToVector(geo.LineSegment{Start: c.pt(2), End: c.pt(4)})
		out := vals(u, v, w, u.Dot(*v), u.Cross(*v), u.Length(), v.LengthSq(), u.Add(*v), u.Sub(*w), geo.Add(*u, *w), u.Equal(*v), u.Clone())
		if u.Length() > 0 {
			out = append(out, geo.Normalize(*u))
			k := u.Clone()
			k.Multiply(3)
			k.Normalize()
			out = append(out, k)
		}
		return out
	}},
	"srid": {w: 4, args: []string{"any"}, nums: "i", run: func(c *call) []interface{} {
		s := uint64(c.o.f(0))
		switch g := c.g(0).(type) {
		case geo.MultiPoint:
			g.SetSrid(s)
		case geo.Polygon:
			g.SetSrid(s)
			g.SetSRID(int(s))
		case geo.MultiPolygon:
			g.SetSrid(s)
		case geo.MultiLineString:
			g.SetSrid(s)
		case geo.MultiLineStringZ:
			g.SetSrid(s)
		}
		return nil
	}},
	"views": {w: 3, args: []string{"any"}, view: true, run: func(c *call) []interface{} {
		switch g := c.g(0).(type) {
		case geo.Polygon:
			return vals(g.Type(), g.GetExteriorRing(), g.GetInteriorRing(), g.GetExteriorPoints(), g.GetExteriorRing().ToLineString(), g.GetExteriorRing().GetPointCount())
		case geo.PolygonZ:
			return vals(g.Type(), g.GetExteriorRing(), g.GetInteriorRing(), g.GetExteriorPoints(), g.GetExteriorRing().ToLineString(), g.GetExteriorRing().GetPointSet())
		case geo.LineString:
			return vals(g.Type(), g.GetPointSet())
		case geo.LineStringZ:
			return vals(g.Type(), g.GetPointSet())
		case geo.MultiPoint:
			return vals(g.Type(), g.GetPointSet())
		case geo.MultiPointZ:
			return vals(g.Type(), g.GetPointSet())
		}
		return vals(c.g(0).Type())
	}},
}

var measSpec = &callSpec{kinds: measKinds, modes: []int{cmTinyGrid, cmGrid, cmUnit, cmUniform, cmCluster, cmDegrees, cmBig, cmLine, cmFar, cmTiny, cmThin, cmHuge, cmWorld},
	types:   []string{"LineString", "LineString", "LineString", "Polygon", "Polygon", "Polygon", "MultiPoint", "MultiPolygon", "MultiLineString", "MultiLineStringZ", "LineStringZ", "PolygonZ", "Point"},
	poolMax: 7, ptsMax: 9, share: true, edits: true, odd: true, twin: true, minTask: 1}

type c07 struct{}

func (c07) ID() string { return "C07" }
func (c07) Runs(t string) int {
	if t == "thorough" {
		return 2500000
	}
	return 60000
}
func (c07) RaceRuns(t string) int {
	if t == "thorough" {
		return 250000
	}
	return 5000
}
func (c07) OrderRuns(t string) int { return c07{}.Runs(t) / 4 }
func (c07) Real() []string         { return libReal }
func (c07) Stub() []string         { return callStub }
func (c07) Rule() string {
	return "a run makes 2-60 measuring, relating, validating and tagging calls from 1-5 tasks on a shared pool of geometries (some share storage, some are edited by their owner between calls); every call is first made alone on a private copy; non-trivial when two or more calls ran in at least two tasks with a preemption inside them; states are hashes of (call, result)"
}
func (c07) Gen(r *Rng, idx int) *Plan          { return genCalls(r, measSpec) }
func (c07) Exec(p *Plan, st *Stats) *Violation { return execCalls(p, st, measSpec) }

// ---- C08

var deriveKinds = map[string]*kind{
	"hull": {w: 8, args: []string{"path"}, indep: true, run: func(c *call) []interface{} {
		switch g := c.g(0).(type) {
		case geo.LineString:
			return vals(geo.ConvexHull(g...))
		case geo.MultiPoint:
			return vals(geo.ConvexHull(g...))
		}
		return nil
	}},
	"hullpoly": {w: 4, args: []string{"poly"}, indep: true, run: func(c *call) []interface{} {
		return vals(geo.ConvexHull(c.poly(0).GetExteriorPoints()...))
	}},
	"mbr": {w: 6, args: []string{"mbr"}, indep: true, may: true, run: func(c *call) []interface{} { return vals(geo.Mbr(c.g(0))) }},
	"simplify": {w: 8, args: []string{"line"}, nums: "ws", indep: true, run: func(c *call) []interface{} {
		return vals(geo.DouglasPeuckerSimplify(c.line(0), c.o.f(0)/2, c.srid(1)))
	}},
	"rotate": {w: 5, args: []string{"rot"}, nums: "pa", indep: true, run: func(c *call) []interface{} {
		return vals(geo.RotateCW(c.g(0), c.pt(0), c.o.f(2)), geo.RotateCCW(c.g(0), c.pt(0), c.o.f(2)))
	}},
	"split": {w: 6, args: []string{"line"}, nums: "i", indep: true, run: func(c *call) []interface{} {
		l := c.line(0)
		a, b := l.SplitByIndex(int(c.o.f(0)) % len(l))
		return vals(a, b)
	}},
	"buffer": {w: 2, nums: "pw", indep: true, run: func(c *call) []interface{} { return vals(c.pt(0).Buffer(c.o.f(2))) }},
	"ring": {w: 5, args: []string{"line"}, view: true, run: func(c *call) []interface{} {
		l := c.line(0)
		return vals(l.ToRing(), geo.NewRingFromLine(l))
	}},
	"ringz": {w: 3, args: []string{"lineZ"}, view: true, run: func(c *call) []interface{} {
		l := c.g(0).(geo.LineStringZ)
		return vals(l.ToRing(), geo.NewRingFromLineZ(l))
	}},
	"newring": {w: 3, args: []string{"path"}, indep: true, may: true, run: func(c *call) []interface{} {
		l := c.line(0)
		return vals(geo.NewLinearRing(l...), geo.NewPolygonFromPois(l...))
	}},
	"newringz": {w: 1, args: []string{"lineZ"}, indep: true, run: func(c *call) []interface{} {
		l := c.g(0).(geo.LineStringZ)
		return vals(geo.NewLinearRingZ(l...), geo.NewPolygonZFromPois(l...))
	}},
	"centroid": {w: 4, args: []string{"line"}, indep: true, run: func(c *call) []interface{} { return vals(geo.Centroid(c.line(0))) }},
	"cover": {w: 3, args: []string{"poly"}, nums: "i", indep: true, may: true, run: func(c *call) []interface{} {
		b := geo.BoundingBox(c.poly(0))
		if math.Abs(b.MinX) > 179 || math.Abs(b.MaxX) > 179 || math.Abs(b.MinY) > 85 || math.Abs(b.MaxY) > 85 || b.MaxX-b.MinX > 6 || b.MaxY-b.MinY > 6 {
			return nil
		}
		return vals(geo.S2RegionCoverer(c.poly(0), 3+int(c.o.f(0))%5, 4326))
	}},
}

var deriveSpec = &callSpec{kinds: deriveKinds, modes: []int{cmTinyGrid, cmGrid, cmUnit, cmUniform, cmCluster, cmDegrees, cmDegrees, cmLine, cmFar, cmTiny, cmThin, cmHuge},
	types:   []string{"LineString", "LineString", "LineString", "Polygon", "Polygon", "MultiPoint", "MultiPoint", "MultiPolygon", "MultiLineString", "LineStringZ", "Point"},
	poolMax: 6, ptsMax: 9, share: true, edits: true, odd: true, twin: true, minTask: 1}

type c08 struct{}

func (c08) ID() string { return "C08" }
func (c08) Runs(t string) int {
	if t == "thorough" {
		return 2500000
	}
	return 60000
}
func (c08) RaceRuns(t string) int {
	if t == "thorough" {
		return 200000
	}
	return 4000
}
func (c08) OrderRuns(t string) int { return c08{}.Runs(t) / 4 }
func (c08) Real() []string {
	return append([]string{"github.com/golang/geo/s2 (as vendored by the module cache; not preempted inside)"}, libReal...)
}
func (c08) Stub() []string { return callStub }
func (c08) Rule() string {
	return "a run makes 2-60 derivations (hull, rectangle, simplification, rotation, split, ring, centroid, buffer, covering) from 1-5 tasks on a shared pool of geometries with sentinel-filled spare capacity, some sharing storage, some edited by their owner between calls; then owners overwrite the sources and up to five results; every call is first made alone on a private copy; non-trivial when two or more calls ran in at least two tasks with a preemption inside them; states are hashes of (call, result)"
}
func (c08) Gen(r *Rng, idx int) *Plan          { return genCalls(r, deriveSpec) }
func (c08) Exec(p *Plan, st *Stats) *Violation { return execCalls(p, st, deriveSpec) }

// ---- C14

func ghHash(r *Rng, g *callGen, o *Op) bool {
	const al = "0123456789bcdefghjkmnpqrstuvwxyz"
	n := r.Range(1, 12)
	if r.P(0.1) {
		n = 0
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.N(32)]
		if r.P(0.01) {
			b[i] = "aIlo!\xff"[r.N(6)]
		}
	}
	o.S = []string{string(b)}
	if len(g.p.Cfg) < 8 && r.P(0.5) { // reuse an earlier hash
		for _, t := range g.p.Tasks {
			for _, q := range t {
				if q.K == o.K {
					o.S = q.S
				}
			}
		}
	}
	return true
}

func degPt(r *Rng, g *callGen, o *Op) bool {
	lon, lat := r.F()*360-180, r.F()*170-85
	switch r.N(6) {
	case 0: // in China
		lon, lat = 73+r.F()*63, 3+r.F()*51
	case 1: // zone exceptions and borders
		lon, lat = float64(r.Range(-30, 30)*6), float64(r.Range(-11, 11)*8)
	case 2:
		lon, lat = r.F()*45, 55+r.F()*30
	case 3: // out of range
		if r.P(0.3) {
			lon, lat = r.F()*1000-500, r.F()*400-200
		}
	}
	o.F = append(o.F, lon, lat)
	return true
}

var gridKinds = map[string]*kind{
	"ghenc": {w: 4, indep: true, may: true, gen: func(r *Rng, g *callGen, o *Op) bool {
		o.N = []int{r.Range(1, 12)}
		return degPt(r, g, o)
	}, run: func(c *call) []interface{} {
		h := geo.GeohashEncode(c.pt(0), uint(c.o.n(0)), 4326)
		return vals(h, geo.GeohashGetCenter(h, 4326), geo.GeohashGetBoundary(h, 4326), geo.GeohashGetAllNeighbors(h, 4326))
	}},
	"ghdec":  {w: 3, may: true, gen: ghHash, run: func(c *call) []interface{} { return vals(geo.GeohashGetCenter(c.o.s(0), 4326)) }},
	"ghbox":  {w: 3, may: true, gen: ghHash, run: func(c *call) []interface{} { return vals(geo.GeohashGetBoundary(c.o.s(0), 4326)) }},
	"ghnext": {w: 4, may: true, indep: true, gen: ghHash, run: func(c *call) []interface{} { return vals(geo.GeohashGetAllNeighbors(c.o.s(0), 4326)) }},
	"s2": {w: 4, indep: true, nums: "s", gen: func(r *Rng, g *callGen, o *Op) bool {
		o.N = []int{r.Range(0, 30)}
		return degPt(r, g, o)
	}, run: func(c *call) []interface{} {
		s := c.srid(0)
		id := geo.S2GetCellID(c.pt(1), c.o.n(0), s)
		if id == 0 {
			return vals(id, geo.S2GetBoundary(id, s), geo.S2GetAllNeighbors(id, s), geo.S2GetCenter(id, s))
		}
		return vals(id, geo.S2GetCenter(id, s), geo.S2GetBoundary(id, s), geo.S2GetAllNeighbors(id, s))
	}},
	"s2cover": {w: 2, indep: true, may: true, gen: func(r *Rng, g *callGen, o *Op) bool {
		o.N = []int{r.Range(2, 7)}
		degPt(r, g, o)
		if math.Abs(o.F[1]) > 80 || math.Abs(o.F[0]) > 175 {
			return false
		}
		o.F = append(o.F, 0.1+r.F()*2, 0.1+r.F()*2)
		return true
	}, run: func(c *call) []interface{} {
		x, y, w, h := c.o.f(0), c.o.f(1), c.o.f(2), c.o.f(3)
		return vals(geo.S2RegionCoverer(polyOf([][][]float64{rect(x, y, x+w, y+h, c.o.n(0)%2 == 0)}, pts2), c.o.n(0), 4326))
	}},
	"datum": {w: 6, gen: degPt, run: func(c *call) []interface{} {
		x, y := c.o.f(0), c.o.f(1)
		var out []interface{}
		for _, f := range []func(a, b float64) (float64, float64){geo.BD09toGCJ02, geo.GCJ02toBD09, geo.WGS84toGCJ02, geo.GCJ02toWGS84, geo.BD09toWGS84, geo.WGS84toBD09} {
			a, b := f(x, y)
			out = append(out, a, b)
		}
		return out
	}},
	"utmfrom": {w: 6, gen: func(r *Rng, g *callGen, o *Op) bool { o.N = []int{r.N(2)}; return degPt(r, g, o) }, run: func(c *call) []interface{} {
		e, n, z, l, err := geo.FromLatLon(c.o.f(1), c.o.f(0), c.o.n(0) == 1)
		return vals(e, n, z, l, err, geo.ValidateLatLone(c.o.f(1), c.o.f(0)))
	}},
	"utmto": {w: 6, gen: func(r *Rng, g *callGen, o *Op) bool {
		o.F = []float64{100000 + r.F()*900000, r.F() * 1e7}
		if r.P(0.1) {
			o.F[r.N(2)] = r.F()*3e7 - 1e7
		}
		o.N = []int{r.Range(1, 60), r.N(4)}
		if r.P(0.05) {
			o.N[0] = r.Range(-2, 63)
		}
		o.S = []string{"CDEFGHJKLMNPQRSTUVWX"[r.N(20):][:1]}
		if r.P(0.1) {
			o.S[0] = []string{"A", "z", "I", "", "n", "é"}[r.N(6)]
		}
		return true
	}, run: func(c *call) []interface{} {
		var a, b float64
		var err error
		switch c.o.n(1) {
		case 0, 1:
			a, b, err = geo.ToLatLon(c.o.f(0), c.o.f(1), c.o.n(0), c.o.s(0))
		case 2:
			a, b, err = geo.ToLatLon(c.o.f(0), c.o.f(1), c.o.n(0), "", c.o.f(0) > 4e5)
		case 3:
			a, b, err = geo.ToLatLon(c.o.f(0), c.o.f(1), c.o.n(0), c.o.s(0), true)
		}
		return vals(a, b, err)
	}},
	"dest": {w: 4, gen: func(r *Rng, g *callGen, o *Op) bool {
		degPt(r, g, o)
		o.F = append(o.F, r.F()*2e7, r.F()*360)
		return true
	}, run: func(c *call) []interface{} {
		a, b := geo.DestinationPoint(c.o.f(1), c.o.f(0), c.o.f(2), c.o.f(3))
		return vals(a, b)
	}},
}

var gridSpec = &callSpec{kinds: gridKinds, modes: []int{cmDegrees}, minTask: 2}

type c14 struct{}

func (c14) ID() string { return "C14" }
func (c14) Runs(t string) int {
	if t == "thorough" {
		return 4000000
	}
	return 100000
}
func (c14) RaceRuns(t string) int {
	if t == "thorough" {
		return 400000
	}
	return 8000
}
func (c14) OrderRuns(t string) int { return c14{}.Runs(t) / 4 }
func (c14) Real() []string {
	return append([]string{"github.com/golang/geo/s2, github.com/mmcloughlin/geohash (from the module cache; not preempted inside)"}, libReal...)
}
func (c14) Stub() []string { return callStub }
func (c14) Rule() string {
	return "a run makes 2-60 grid lookups and coordinate conversions (failing arguments included) from 1-5 tasks, many with equal or nearly equal arguments; every call is first made alone, then all together, then receivers overwrite results; non-trivial when two or more calls ran in at least two tasks with a preemption inside them; states are hashes of (call, result)"
}
func (c14) Gen(r *Rng, idx int) *Plan {
	p := genCalls(r, gridSpec)
	// near copies of calls: same call with one argument changed a little
	for t := range p.Tasks {
		for k := 0; k < len(p.Tasks[t]) && r.P(0.5); k++ {
			o := p.Tasks[t][r.N(len(p.Tasks[t]))]
			if len(o.F) == 0 {
				continue
			}
			o.ID = p.nextID
			p.nextID++
			o.F = append([]float64(nil), o.F...)
			first := 0
			if o.K == "s2" {
				first = 1 // after the SRID
			}
			i := r.Range(first, len(o.F)-1)
			how := r.N(10)
			if o.K == "s2cover" {
				how = r.N(3)
			}
			switch how {
			case 0, 1, 2:
				o.F[i] += []float64{1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 0.1}[r.N(6)]
			case 3:
				o.F[i] = math.Nextafter(o.F[i], []float64{1e300, -1e300}[r.N(2)])
			case 4: // the other way round
				o.F[first], o.F[first+1] = o.F[first+1], o.F[first]
			case 5:
				o.F[i] = -o.F[i]
			case 6:
				o.F[i] += []float64{360, -360, 180, 720}[r.N(4)]
			case 7:
				o.F[i] = float64(float32(o.F[i]))
			case 8:
				if len(o.N) > 0 {
					o.N = append([]int(nil), o.N...)
					o.N[0] += 1 - 2*r.N(2)
					if o.K == "ghenc" && o.N[0] < 1 || o.K == "s2" && (o.N[0] < 0 || o.N[0] > 30) {
						continue
					}
				}
			}
			t2 := r.N(len(p.Tasks))
			p.Tasks[t2] = append(p.Tasks[t2], o)
		}
	}
	return p
}
func (c14) Exec(p *Plan, st *Stats) *Violation { return execCalls(p, st, gridSpec) }

func init() {
	register(c07{})
	register(c08{})
	register(c14{})
}
