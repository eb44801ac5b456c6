package main

import (
	"encoding/json"
	"fmt"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// ---- C09: concurrent encoding and decoding

type codecEnv struct {
	docs  [][]byte // GeoJSON geometries, features, collections; some damaged
	dkind []string
	wkts  []string
	feats []*geojson.Feature
	fcs   []*geojson.FeatureCollection
	gjs   []*geojson.GeoJson
	own   []*geojson.Feature
	ownFC []*geojson.FeatureCollection
	vals  []interface{}
	text  []string
	spare []*geojson.FeatureCollection
	e     *env
}

func (ce *codecEnv) changed() string {
	for _, fc := range ce.spare {
		for i, f := range fc.Features[len(fc.Features):cap(fc.Features)] {
			if f != nil {
				return fmt.Sprintf("memory behind the end of a collection's features, element %d", i)
			}
		}
		for i, x := range fc.BoundingBox[len(fc.BoundingBox):cap(fc.BoundingBox)] {
			if x != 0 {
				return fmt.Sprintf("memory behind the end of a collection's box, element %d", i)
			}
		}
	}
	for i, x := range ce.vals {
		if t := canon(x); t != ce.text[i] {
			return fmt.Sprintf("shared value %d: %s was %s", i, head(t, 300), head(ce.text[i], 300))
		}
	}
	return ""
}

// scribble: the owners of the shared features change them.
func (ce *codecEnv) scribble(k float64) {
	for i, x := range ce.vals {
		switch v := x.(type) {
		case *geojson.Feature:
			if v.Properties != nil {
				v.Properties["x"] = k
			}
			v.ID = k
			if v.GeometryJson != nil {
				scribbleResult(v.GeometryJson.Coordinates, k)
			}
		case *geojson.GeoJson:
			scribbleResult(v.Coordinates, k)
		}
		ce.text[i] = canon(x)
	}
}

func setupCodec(p *Plan, e *env) {
	ce := &codecEnv{}
	for i := range p.Init {
		o := &p.Init[i]
		switch o.K {
		case "doc":
			b := lay(e, fmt.Sprintf("document %d", len(ce.docs)), []byte(un8(o.s(1))), func(k float64) byte { return byte('A' + int(k)%20) }, func(a, b byte) bool { return a == b }, true)
			ce.docs = append(ce.docs, b)
			ce.dkind = append(ce.dkind, o.s(0))
			if o.s(0) == "geo" {
				g := &geojson.GeoJson{}
				if json.Unmarshal([]byte(un8(o.s(1))), g) == nil {
					ce.gjs = append(ce.gjs, g)
					ce.vals = append(ce.vals, g)
				}
			}
		case "wkt":
			ce.wkts = append(ce.wkts, un8(o.s(0)))
		}
	}
	if len(ce.gjs) == 0 {
		g := &geojson.GeoJson{Type: "Point", Coordinates: []interface{}{1.5, 2.5}}
		ce.gjs = append(ce.gjs, g)
		ce.vals = append(ce.vals, g)
	}
	ce.e = e
	ce.feats = make([]*geojson.Feature, len(e.vals)+literals)
	ce.fcs = make([]*geojson.FeatureCollection, 5)
	ce.own = make([]*geojson.Feature, len(p.Tasks))
	ce.ownFC = make([]*geojson.FeatureCollection, len(p.Tasks))
	for t := range p.Tasks {
		ce.ownFC[t] = geojson.NewFeatureCollection()
	}
	for _, x := range ce.vals {
		ce.text = append(ce.text, canon(x))
	}
	e.aux = ce
	e.recs = append(e.recs, ce)
	if e.full {
		for i := range ce.feats {
			ce.feat(i)
		}
		for i := range ce.fcs {
			ce.coll(i)
		}
		for t := range p.Tasks {
			ce.mine(t)
		}
	}
}

// The shared values are made up front for the tasks, on demand for calls made
// alone.
func (ce *codecEnv) keep(x interface{}) {
	ce.vals = append(ce.vals, x)
	ce.text = append(ce.text, canon(x))
}

func (ce *codecEnv) feat(i int) *geojson.Feature {
	i %= len(ce.feats)
	if ce.feats[i] == nil {
		if k := i - len(ce.e.vals); k >= 0 {
			ce.feats[i] = literalFeat(k, ce.e.vals[k%len(ce.e.vals)])
		} else {
			ce.feats[i] = newFeat(i, ce.e.vals[i])
		}
		ce.keep(ce.feats[i])
	}
	return ce.feats[i]
}

func (ce *codecEnv) mine(t int) *geojson.Feature {
	if ce.own[t] == nil {
		ce.own[t] = newFeat(t, ce.e.vals[t%len(ce.e.vals)])
	}
	return ce.own[t]
}

func (ce *codecEnv) coll(k int) *geojson.FeatureCollection {
	k %= len(ce.fcs)
	if ce.fcs[k] != nil {
		return ce.fcs[k]
	}
	fc := &geojson.FeatureCollection{Type: "FeatureCollection"}
	if k >= 3 { // made by hand, with spare room behind its end
		fc.Type = []string{"", "Features"}[k-3]
		fc.BoundingBox = make([]float64, 0, 4)
		fc.CRS = map[string]interface{}{}
		fc.Features = make([]*geojson.Feature, 0, len(ce.feats)+6)
		for i := range ce.feats {
			if i == 0 && (k == 4 || len(ce.feats)%4 != 0) {
				continue // the one that cannot be encoded
			}
			if k == 3 || i%3 != 1 {
				fc.Features = append(fc.Features, ce.feat(len(ce.feats)-1-i))
			}
			if k == 4 && i%3 == 2 {
				fc.Features = append(fc.Features, nil)
			}
		}
		if k == 4 {
			fc.Features = append(fc.Features, nil)
		}
		ce.spare = append(ce.spare, fc)
	}
	if k < 2 {
		fc = geojson.NewFeatureCollection()
		for i := range ce.e.vals {
			if k == 0 || i%2 == 0 {
				fc.AddFeature(ce.feat(i))
			}
		}
	}
	if k == 0 {
		fc.BoundingBox = []float64{0, 0, 1, 1}
	}
	ce.fcs[k] = fc
	ce.keep(fc)
	return fc
}

// literalFeat is a feature as programs build it without the constructor.
const literals = 6

func literalFeat(k int, g geo.Geometry) *geojson.Feature {
	f := &geojson.Feature{Geometry: g}
	switch k {
	case 0: // nothing but a geometry
	case 1:
		f.GeometryJson = newFeat(k, g).GeometryJson
	case 2:
		f.Type, f.ID, f.Properties = "feature", 17, map[string]interface{}{}
		f.GeometryJson = &geojson.GeoJson{Type: "Point", Coordinates: []interface{}{1.25, -2.5}}
		f.BoundingBox = make([]float64, 0, 4)
	case 3:
		f.Geometry, f.Type = nil, "Feature"
		f.ID = map[string]interface{}{"k": []interface{}{1.0}}
		f.BoundingBox = []float64{4, 3, 2, 1}
		f.CRS = map[string]interface{}{}
	case 4:
		f.GeometryJson = &geojson.GeoJson{}
		f.Properties = map[string]interface{}{"": nil, "n": nil, "a": map[string]interface{}{}, "f": json.Number("1e2"), "k": uint8(3)}
	case 5: // cannot be encoded
		f.GeometryJson = newFeat(k, g).GeometryJson
		f.Properties = map[string]interface{}{"n": func() {}, "name": "x"}
	}
	return f
}

func newFeat(i int, g geo.Geometry) *geojson.Feature {
	f := geojson.NewFeature(g)
	if i%3 != 0 {
		f.ID = fmt.Sprintf("f<%d>", i)
	}
	f.SetProperty("name", fmt.Sprintf("n%d", i))
	f.SetProperty("n", float64(i)+0.5)
	f.SetProperty("ok", i%2 == 0)
	f.SetProperty("k", i)
	f.SetProperty("list", []interface{}{1.0, "a", map[string]interface{}{"z": 1.0}})
	if i%2 == 0 {
		f.BoundingBox = []float64{1, 2, 3, float64(i)}
	}
	if i%4 == 1 {
		f.CRS = map[string]interface{}{"type": "name", "properties": map[string]interface{}{"name": "EPSG:4326"}}
	}
	return f
}

func (c *call) ce() *codecEnv { return c.e.aux.(*codecEnv) }
func (c *call) feat() *geojson.Feature {
	return c.ce().feat(int(c.o.f(0)))
}

func props4(f *geojson.Feature) []interface{} {
	var out []interface{}
	for _, k := range []string{"name", "n", "ok", "k", "list", "none"} {
		b, e1 := f.PropertyBool(k)
		i, e2 := f.PropertyInt(k)
		x, e3 := f.PropertyFloat64(k)
		s, e4 := f.PropertyString(k)
		out = append(out, b, e1 != nil, i, e2 != nil, x, e3 != nil, s, e4 != nil,
			f.PropertyMustBool(k, true), f.PropertyMustInt(k, 7), f.PropertyMustFloat64(k, 7.5), f.PropertyMustString(k, "d"),
			f.PropertyMustBool(k), f.PropertyMustInt(k), f.PropertyMustFloat64(k), f.PropertyMustString(k))
	}
	return out
}

func marshalAny(x interface{}, direct bool) []interface{} {
	var b []byte
	var err error
	switch v := x.(type) {
	case *geojson.Feature:
		if direct {
			b, err = v.MarshalJSON()
		} else {
			b, err = json.Marshal(v)
		}
	case *geojson.FeatureCollection:
		if direct {
			b, err = v.MarshalJSON()
		} else {
			b, err = json.Marshal(v)
		}
	}
	return vals(b, err)
}

// decodeDoc decodes with the function for kind k and the geometries found.
func decodeDoc(k string, b []byte) []interface{} {
	switch k {
	case "feature":
		f, err := geojson.UnmarshalFeature(b)
		if err != nil || f == nil || f.GeometryJson == nil {
			return vals(f, err)
		}
		g, err2 := geojson.UnmarshalGeo(f.GeometryJson)
		return vals(f, err, g, err2)
	case "collection":
		fc, err := geojson.UnmarshalFeatureCollection(b)
		out := vals(fc, err)
		if err == nil && fc != nil {
			for _, f := range fc.Features {
				if f != nil && f.GeometryJson != nil {
					g, e := geojson.UnmarshalGeo(f.GeometryJson)
					out = append(out, g, e)
				}
			}
		}
		return out
	}
	gj := &geojson.GeoJson{}
	if err := json.Unmarshal(b, gj); err != nil {
		return vals(err)
	}
	g, err := geojson.UnmarshalGeo(gj)
	return vals(gj, g, err)
}

var codecKinds = map[string]*kind{
	"wktenc": {w: 10, args: []string{"any"}, run: func(c *call) []interface{} { return vals(wkt.Encode(c.g(0))) }},
	"wktparts": {w: 2, args: []string{"any"}, run: func(c *call) []interface{} {
		switch g := c.g(0).(type) {
		case geo.Point:
			return vals(wkt.GeometryToWktString(g.X, g.Y))
		case geo.PointZ:
			return vals(wkt.GeometryToWktStringZ(g.X, g.Y, g.Z))
		case geo.LineString:
			return vals(wkt.PathToWktString(g))
		case geo.LineStringZ:
			return vals(wkt.PathZToWktString(g))
		case geo.MultiLineString:
			return vals(wkt.PolygonToWktString(g))
		case geo.MultiLineStringZ:
			return vals(wkt.PolygonZToWktString(g))
		case geo.Polygon:
			return vals(wkt.PolygonToWktString2(g))
		case geo.PolygonZ:
			return vals(wkt.PolygonZToWktString2(g))
		case geo.MultiPolygon:
			return vals(wkt.MultiPolygonToWktString(g))
		case geo.MultiPolygonZ:
			return vals(wkt.MultiPolygonZToWktString(g))
		}
		return nil
	}},
	"wktdec": {w: 10, nums: "i", indep: true, may: true, run: func(c *call) []interface{} {
		ce := c.ce()
		g, err := wkt.Decode(ce.wkts[int(c.o.f(0))%len(ce.wkts)])
		return vals(g, err)
	}},
	"wktbody": {w: 3, nums: "i", indep: true, may: true, run: func(c *call) []interface{} {
		ce := c.ce()
		s := ce.wkts[int(c.o.f(0))%len(ce.wkts)]
		i := strings.IndexByte(s, '(')
		if i < 0 || i+1 > len(s)-1 {
			return nil
		}
		body := s[i+1 : len(s)-1]
		var g geo.Geometry
		var err error
		switch strings.TrimSpace(s[:i]) {
		case "POINT":
			g, err = wkt.PointFromWKT(body)
		case "MULTIPOINT":
			g, err = wkt.MultiPointFromWKT(body)
		case "LINESTRING":
			g, err = wkt.LineStringFromWKT(body)
		case "MULTILINESTRING":
			g, err = wkt.MultiLineStringFromWKT(body)
		case "POLYGON":
			g, err = wkt.PolygonFromWKT(body)
		case "MULTIPOLYGON":
			g, err = wkt.MultiPolygonFromWKT(body)
		}
		return vals(g, err)
	}},
	"geoenc": {w: 10, args: []string{"any"}, indep: true, run: func(c *call) []interface{} {
		b, err := geojson.MarshalGeo(c.g(0))
		return vals(b, err)
	}},
	"convert": {w: 4, args: []string{"any"}, indep: true, run: func(c *call) []interface{} {
		g := c.g(0)
		var x interface{}
		var err error
		switch v := g.(type) {
		case geo.Point:
			x, err = geojson.ConvertPoi(v)
		case geo.PointZ:
			x, err = geojson.ConvertPoiZ(v)
		case geo.LineString, geo.MultiPoint:
			x, err = geojson.ConvertPoiSet(v)
		case geo.LineStringZ, geo.MultiPointZ:
			x, err = geojson.ConvertPoiZSet(v)
		case geo.MultiLineString, geo.Polygon:
			x, err = geojson.ConvertPathSet(v)
		case geo.MultiLineStringZ, geo.PolygonZ:
			x, err = geojson.ConvertPathZSet(v)
		case geo.MultiPolygon:
			x, err = geojson.ConvertPolygonSet(v)
		case geo.MultiPolygonZ:
			x, err = geojson.ConvertPolygonZSet(v)
		}
		return vals(x, err)
	}},
	"newfeature": {w: 5, args: []string{"any"}, indep: true, run: func(c *call) []interface{} {
		f := geojson.NewFeature(c.g(0))
		return vals(f.Type, f.GeometryJson, f.Properties, f.ID, f.BoundingBox, f.CRS)
	}},
	"featenc": {w: 8, nums: "ii", indep: true, run: func(c *call) []interface{} {
		return marshalAny(c.feat(), int(c.o.f(1))%2 == 0)
	}},
	"collenc": {w: 4, nums: "ii", indep: true, run: func(c *call) []interface{} {
		ce := c.ce()
		return marshalAny(ce.coll(int(c.o.f(0))), int(c.o.f(1))%2 == 0)
	}},
	"docdec": {w: 12, nums: "i", indep: true, may: true, run: func(c *call) []interface{} {
		ce := c.ce()
		i := int(c.o.f(0)) % len(ce.docs)
		return decodeDoc(ce.dkind[i], ce.docs[i])
	}},
	"geodec": {w: 8, nums: "i", indep: true, may: true, run: func(c *call) []interface{} {
		ce := c.ce()
		g, err := geojson.UnmarshalGeo(ce.gjs[int(c.o.f(0))%len(ce.gjs)])
		return vals(g, err)
	}},
	"props": {w: 3, nums: "i", run: func(c *call) []interface{} { return props4(c.feat()) }},
	"box":   {w: 2, args: []string{"any"}, run: func(c *call) []interface{} { return vals(*geo.BoundingBox(c.g(0))) }},
	"ownset": {w: 3, nums: "i", state: true, run: func(c *call) []interface{} {
		f := c.ce().mine(c.t)
		k := int(c.o.f(0))
		f.SetProperty(fmt.Sprintf("p%d", k%3), []interface{}{float64(k), fmt.Sprint(k), k%2 == 0, k}[k%4])
		return props4(f)
	}},
	"ownbox": {w: 2, state: true, run: func(c *call) []interface{} {
		f := c.ce().mine(c.t)
		f.SetBoundingBox()
		return vals(append([]float64(nil), f.BoundingBox...))
	}},
	"ownenc": {w: 3, nums: "i", state: true, indep: true, run: func(c *call) []interface{} {
		return marshalAny(c.ce().mine(c.t), int(c.o.f(0))%2 == 0)
	}},
	"ownadd": {w: 2, nums: "i", state: true, run: func(c *call) []interface{} {
		ce := c.ce()
		fc := ce.ownFC[c.t]
		fc.AddFeature(ce.feat(int(c.o.f(0))))
		return vals(len(fc.Features))
	}},
	"owncoll": {w: 2, nums: "i", state: true, indep: true, run: func(c *call) []interface{} {
		return marshalAny(c.ce().ownFC[c.t], int(c.o.f(0))%2 == 0)
	}},
}

var allTypes = []string{"Point", "PointZ", "MultiPoint", "MultiPointZ", "LineString", "LineStringZ", "MultiLineString", "MultiLineStringZ", "Polygon", "PolygonZ", "MultiPolygon", "MultiPolygonZ"}

// featVal is a feature document in generic form.
func featVal(r *Rng, g Geom, i int) map[string]interface{} {
	m := map[string]interface{}{"type": "Feature", "geometry": geoVal(g), "properties": nil}
	if r.P(0.7) {
		m["properties"] = map[string]interface{}{"name": fmt.Sprintf("n%d", i), "n": float64(i) / 4, "ok": i%2 == 0, "list": []interface{}{1.0, nil, "x"}}
	}
	if r.P(0.6) {
		m["id"] = []interface{}{fmt.Sprintf("id-%d", i), float64(i)}[r.N(2)]
	}
	if r.P(0.4) {
		b := g.box()
		m["bbox"] = []interface{}{b.x0, b.y0, b.x1, b.y1}
	}
	if r.P(0.2) {
		m["crs"] = map[string]interface{}{"type": "name", "properties": map[string]interface{}{"name": "EPSG:3857"}}
	}
	return m
}

func docPts(r *Rng, g *callGen) int {
	if g.big {
		return []int{20, 70, 150, 400}[r.N(4)]
	}
	return 6
}

func genCodecDocs(r *Rng, g *callGen) {
	p := g.p
	for n := r.Range(2, 6); n > 0; n-- {
		ge := g.c.gen(r, allTypes[r.N(len(allTypes))], docPts(r, g))
		k := []string{"geo", "feature", "collection"}[r.Pick(4, 4, 2)]
		var v interface{}
		switch k {
		case "geo":
			v = geoVal(ge)
		case "feature":
			v = featVal(r, ge, n)
		default:
			l := []interface{}{featVal(r, ge, n), featVal(r, g.c.gen(r, allTypes[r.N(len(allTypes))], 4), n+1)}
			if r.P(0.15) {
				l = []interface{}{l[0], nil, l[1]}
			}
			v = map[string]interface{}{"type": "FeatureCollection", "features": l}
		}
		s := jsonText(v)
		if r.P(0.25) {
			s = damageJSON(r, v, s)
		}
		o := p.op("doc")
		o.S = []string{k, raw8(s)}
		p.Init = append(p.Init, o)
	}
	for n := r.Range(2, 6); n > 0; n-- {
		ge := g.c.gen(r, allTypes[r.N(len(allTypes))], docPts(r, g))
		s := wktOf(ge, []string{",", ", "}[r.N(2)])
		if r.P(0.25) {
			s = damageText(r, s, wktTokens)
		}
		o := p.op("wkt")
		o.S = []string{raw8(s)}
		p.Init = append(p.Init, o)
	}
}

var codecSpec = &callSpec{kinds: codecKinds, modes: []int{cmTinyGrid, cmGrid, cmUnit, cmUniform, cmCluster, cmDegrees, cmBig, cmFar, cmTiny, cmThin, cmHuge, cmWorld},
	types: allTypes, poolMax: 7, ptsMax: 7, share: true, minTask: 1, setup: setupCodec, genMore: genCodecDocs}

type c09 struct{}

func (c09) ID() string { return "C09" }
func (c09) Runs(t string) int {
	if t == "thorough" {
		return 1500000
	}
	return 16000
}
func (c09) RaceRuns(t string) int {
	if t == "thorough" {
		return 150000
	}
	return 1600
}
func (c09) OrderRuns(t string) int { return c09{}.Runs(t) / 4 }
func (c09) Real() []string {
	return append([]string{"encoding/json, regexp, strconv (not preempted inside)"}, libReal...)
}
func (c09) Stub() []string { return callStub }
func (c09) Rule() string {
	return "a run makes 2-60 encoding, decoding and property calls from 1-5 tasks on a shared pool of geometries of all twelve types, features, collections and documents (some damaged); then owners overwrite the sources, documents and up to five results; every call is first made alone on a private copy; non-trivial when two or more calls ran in at least two tasks with a preemption inside them; states are hashes of (call, result)"
}
func (c09) Gen(r *Rng, idx int) *Plan          { return genCalls(r, codecSpec) }
func (c09) Exec(p *Plan, st *Stats) *Violation { return execCalls(p, st, codecSpec) }

func init() { register(c09{}) }
