package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"

	"geosim/simrt"
)

// ---- C10 and C11: documents on a disk
//
// Clients encode geometries, features and collections with the library, write
// them to the simulated disk (in pieces, retrying what fails), sync and
// acknowledge. The machine crashes at any of these steps. Readers read into
// buffers that they reuse and decode with the library.

// prop is one property of a feature as the program set it.
type prop struct {
	k string
	v interface{}
}

// featSpec is what a program puts into a feature; it follows from a seed.
type featSpec struct {
	id    interface{}
	props []prop
	bbox  []float64
	box   bool // SetBoundingBox
	crs   map[string]interface{}
	g     Geom
}

var strs = []string{"", "a", "Zürich 北京", "q\"uote\\back", "<a&b>", "line\nbreak\ttab", "\u2028", "null", "true", "1.5", "{}", "NaN", "x y,z"}

func randNum(r *Rng) float64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return float64(r.Range(-1000, 1000))
	case 3:
		return r.F()*2000 - 1000
	case 4:
		return math.Float64frombits(r.U64()&^(0x7ff<<52) | uint64(r.Range(1, 2046))<<52)
	case 5:
		return []float64{5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 1e21, 1e20, 1e-7, 1e-6, 0.1, 9007199254740993, 123456789.123456789}[r.N(10)]
	case 6:
		return float64(int64(r.U64()>>11)) * float64(1-2*r.N(2))
	}
	return float64(r.N(100)) / 8
}

func randValue(r *Rng, depth int) interface{} {
	switch r.N(9) {
	case 0:
		return r.P(0.5)
	case 1:
		return r.Range(-1<<31, 1<<31)
	case 2:
		return int(int64(r.U64()>>11) * int64(1-2*r.N(2)))
	case 3, 4:
		return randNum(r)
	case 5, 6:
		return strs[r.N(len(strs))]
	case 7:
		return nil
	}
	if depth > 1 {
		return r.N(9)
	}
	if r.P(0.5) {
		l := []interface{}{}
		for k := r.N(4); k > 0; k-- {
			l = append(l, randValue(r, depth+1))
		}
		return l
	}
	m := map[string]interface{}{}
	for k := r.N(4); k > 0; k-- {
		m[strs[r.N(len(strs))]] = randValue(r, depth+1)
	}
	return m
}

// randDoc is any object with one to three members.
func randDoc(r *Rng) map[string]interface{} {
	m := map[string]interface{}{}
	for k := r.Range(1, 3); k > 0; k-- {
		m[[]string{"type", "properties", "name", "href", "", "größe"}[r.N(6)]] = randValue(r, 0)
	}
	return m
}

func newFeatSpec(seed int, g Geom) featSpec {
	r := newRng(uint64(seed), 99)
	f := featSpec{g: g}
	switch r.N(5) {
	case 0:
	case 1:
		f.id = strs[r.N(len(strs))]
	case 2:
		f.id = r.Range(-5, 1<<30)
	case 3:
		f.id = randNum(r)
	default:
		f.id = fmt.Sprintf("feature-%d", r.N(1000))
	}
	seen := map[string]bool{}
	for k := r.Pick(2, 2, 3, 2, 1); k > 0; k-- {
		n := []string{"name", "height", "open", "count", "", "type", "geometry", "id", "k\"ey", "größe"}[r.N(10)]
		if r.P(0.02) {
			n = strings.Repeat(n+"k", []int{30, 60, 200, 500}[r.N(4)])
		}
		if !seen[n] {
			seen[n] = true
			f.props = append(f.props, prop{n, randValue(r, 0)})
		}
	}
	switch r.N(4) {
	case 0:
		f.box = true
	case 1:
		f.bbox = []float64{randNum(r), randNum(r), randNum(r), randNum(r)}
	case 2:
		f.bbox = []float64{randNum(r), randNum(r), randNum(r), randNum(r), randNum(r), randNum(r)}
	}
	if r.P(0.3) {
		f.crs = map[string]interface{}{"type": "name", "properties": map[string]interface{}{"name": "EPSG:" + fmt.Sprint(4326+r.N(3)), "n": randNum(r)}}
		if r.P(0.3) {
			f.crs = randDoc(r)
		}
	}
	return f
}

// build makes the library's feature.
func (s *featSpec) build() *geojson.Feature {
	v := s.g.Build()
	f := geojson.NewFeature(v)
	f.ID = deepCopy(s.id)
	for _, p := range s.props {
		f.SetProperty(p.k, deepCopy(p.v))
	}
	if s.box {
		f.SetBoundingBox()
	} else if s.bbox != nil {
		f.BoundingBox = append([]float64(nil), s.bbox...)
	}
	if s.crs != nil {
		f.CRS = deepCopy(s.crs).(map[string]interface{})
	}
	return f
}

func (s *featSpec) wantBox() []float64 {
	if s.box {
		b := geo.BoundingBox(s.g.Build())
		return []float64{b.MinX, b.MinY, b.MaxX, b.MaxY}
	}
	return s.bbox
}

func num2(x interface{}) interface{} {
	switch v := x.(type) {
	case int:
		return float64(v)
	case []interface{}:
		out := make([]interface{}, len(v))
		for i := range v {
			out[i] = num2(v[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range v {
			out[k] = num2(e)
		}
		return out
	}
	return x
}

// accessors compares the typed accessors with what the program set.
func (s *featSpec) accessors(f *geojson.Feature) string {
	for _, p := range append(append([]prop(nil), s.props...), prop{"\x01none", nil}) {
		k := p.k
		bad := func(n string, got interface{}) string {
			return fmt.Sprintf("%s(%q) = %s where the property is %s", n, k, head(canon(got), 100), head(canon(p.v), 100))
		}
		wb, isB := p.v.(bool)
		if b, err := f.PropertyBool(k); (err == nil) != isB || b != wb {
			return bad("PropertyBool", vals(b, err))
		}
		if b := f.PropertyMustBool(k, true); isB && b != wb || !isB && !b {
			return bad("PropertyMustBool", b)
		}
		if b := f.PropertyMustBool(k); b != wb {
			return bad("PropertyMustBool", b)
		}
		ws, isS := p.v.(string)
		if x, err := f.PropertyString(k); (err == nil) != isS || x != ws {
			return bad("PropertyString", vals(x, err))
		}
		if x := f.PropertyMustString(k, "dflt"); isS && x != ws || !isS && x != "dflt" {
			return bad("PropertyMustString", x)
		}
		if x := f.PropertyMustString(k); x != ws {
			return bad("PropertyMustString", x)
		}
		wi, isI := p.v.(int)
		wf, isF := p.v.(float64)
		if !isI { // a whole number comes back as float64
			if x, err := f.PropertyFloat64(k); (err == nil) != isF || math.Float64bits(x) != math.Float64bits(wf) {
				return bad("PropertyFloat64", vals(x, err))
			}
			if x := f.PropertyMustFloat64(k, 2.5); isF && x != wf || !isF && x != 2.5 {
				return bad("PropertyMustFloat64", x)
			}
			if x := f.PropertyMustFloat64(k); x != wf {
				return bad("PropertyMustFloat64", x)
			}
		}
		if isF && math.Abs(wf) > 1<<53 {
			continue
		}
		if isF {
			wi = int(wf)
		}
		if x, err := f.PropertyInt(k); (err == nil) != (isI || isF) || x != wi {
			return bad("PropertyInt", vals(x, err))
		}
		if x := f.PropertyMustInt(k, 77); (isI || isF) && x != wi || !isI && !isF && x != 77 {
			return bad("PropertyMustInt", x)
		}
		if x := f.PropertyMustInt(k); x != wi {
			return bad("PropertyMustInt", x)
		}
	}
	return ""
}

func sameFloats(a, b []float64) bool { return len(a) == len(b) && eqPos(a, b) }

// same compares a decoded feature with what was put; raw is its generic reading.
func (s *featSpec) same(f *geojson.Feature, raw interface{}) string {
	if f == nil {
		return "no feature"
	}
	if a, b := canon(num2(s.id)), canon(num2(f.ID)); a != b {
		return fmt.Sprintf("ID %s, it was %s", b, a)
	}
	if w := s.wantBox(); !sameFloats(w, f.BoundingBox) {
		return fmt.Sprintf("bounding box %v, it was %v", f.BoundingBox, w)
	}
	if a, b := canon(num2(map[string]interface{}(s.crs))), canon(num2(f.CRS)); len(s.crs)+len(f.CRS) > 0 && a != b {
		return fmt.Sprintf("CRS %s, it was %s", b, a)
	}
	if len(f.Properties) != len(s.props) {
		return fmt.Sprintf("%d properties, there were %d", len(f.Properties), len(s.props))
	}
	for _, p := range s.props {
		v, ok := f.Properties[p.k]
		if a, b := canon(num2(p.v)), canon(num2(v)); !ok || a != b {
			return fmt.Sprintf("property %q %s, it was %s", p.k, head(b, 200), head(a, 200))
		}
	}
	if t := s.accessors(f); t != "" {
		return t
	}
	if f.GeometryJson == nil {
		return "no geometry"
	}
	if t := s.g.inDoc(f.GeometryJson.Type, f.GeometryJson.Coordinates); t != "" {
		return t
	}
	if m, ok := raw.(map[string]interface{}); ok {
		if m["type"] != "Feature" {
			return fmt.Sprintf("type %v", m["type"])
		}
		if t := s.g.inRaw(m["geometry"]); t != "" {
			return t
		}
	} else {
		return "no object in the document"
	}
	return s.g.decoded(f.GeometryJson)
}

func (g Geom) inRaw(x interface{}) string {
	m, ok := x.(map[string]interface{})
	if !ok {
		return "no geometry object in the document"
	}
	t, _ := m["type"].(string)
	return g.inDoc(t, m["coordinates"])
}

func (g Geom) inDoc(t string, c interface{}) string {
	got, bad := geomOf(t, c)
	if bad != "" {
		return fmt.Sprintf("geometry with %s, it was %s", bad, g)
	}
	if !eqGeom(got, g) {
		return fmt.Sprintf("geometry %s, it was %s", got, g)
	}
	return ""
}

func (g Geom) single() bool {
	t := strings.TrimSuffix(g.T, "Z")
	return t == "Point" || t == "LineString" || t == "Polygon"
}

// decoded decodes to geometry, where the library does that.
func (g Geom) decoded(gj *geojson.GeoJson) string {
	v, err := geojson.UnmarshalGeo(gj)
	if err != nil {
		if g.single() {
			return fmt.Sprintf("error %v for %s", err, g)
		}
		return ""
	}
	if v == nil {
		return fmt.Sprintf("neither geometry nor error for %s", g)
	}
	if got := specOf(v); !eqGeom(got, g) {
		return fmt.Sprintf("geometry %s, it was %s", got, g)
	}
	return ""
}

// doc is one document: what it must say when it is read.
type doc struct {
	op     *Op
	kind   string // geo, feature, collection, wkt
	fs     []featSpec
	bbox   []float64
	crs    map[string]interface{}
	g      Geom
	acked  bool
	given  int    // attempts
	from   []byte // the document it is a revision of
	fields []int  // what the revision does to each feature
}

func (w *docWorld) newDoc(op *Op) *doc {
	p := w.r.p
	d := &doc{op: op, kind: op.s(0)}
	r := newRng(uint64(op.n(1)), 5)
	switch d.kind {
	case "feature":
		d.fs = []featSpec{newFeatSpec(op.n(1), p.Pool[op.n(0)%len(p.Pool)])}
	case "collection":
		for k := r.N(4); k > 0; k-- {
			d.fs = append(d.fs, newFeatSpec(r.N(1<<20), p.Pool[r.N(len(p.Pool))]))
		}
		if r.P(0.4) {
			d.bbox = []float64{randNum(r), randNum(r), randNum(r), randNum(r)}
		}
		if r.P(0.4) {
			d.crs = map[string]interface{}{"type": "link", "properties": map[string]interface{}{"href": strs[r.N(len(strs))]}}
			if r.P(0.4) {
				d.crs = randDoc(r)
			}
		}
	default:
		d.g = p.Pool[op.n(0)%len(p.Pool)]
	}
	return d
}

// encode calls the library. After it returns the owner changes his values.
func (d *doc) encode(mutate bool) (b []byte, err error) {
	if d.from != nil {
		return d.reencode(mutate)
	}
	switch d.kind {
	case "geo":
		v := d.g.Build()
		if d.op.n(1)%3 == 0 {
			shareParts(v, d.g)
		}
		b, err = geojson.MarshalGeo(v)
		if mutate {
			scribbleResult(v, 1)
		}
	case "feature":
		f := d.fs[0].build()
		if s := d.fs[0].accessors(f); s != "" {
			return nil, fmt.Errorf("before encoding: %s", s)
		}
		if d.op.n(1)%2 == 0 {
			b, err = f.MarshalJSON()
		} else {
			b, err = json.Marshal(f)
		}
		if mutate {
			scribbleResult(f, 1)
		}
	case "collection":
		fc := geojson.NewFeatureCollection()
		for i := range d.fs {
			fc.AddFeature(d.fs[i].build())
		}
		fc.BoundingBox = append([]float64(nil), d.bbox...)
		fc.CRS = d.crs
		if d.op.n(1)%2 == 0 {
			b, err = fc.MarshalJSON()
		} else {
			b, err = json.Marshal(fc)
		}
		if mutate {
			scribbleResult(fc.Features, 1)
		}
	case "wkt":
		v := d.g.Build()
		if d.op.n(1)%3 == 0 {
			shareParts(v, d.g)
		}
		s := wkt.Encode(v)
		b = []byte(s)
		if mutate {
			scribbleResult(v, 1)
		}
	}
	return
}

// revise makes the document that a program gets which reads d, whose text is
// given, changes something, and writes it again.
func (d *doc) revise(text []byte, op *Op) *doc {
	r := newRng(uint64(op.n(1)), 6)
	n := &doc{op: op, kind: d.kind, bbox: d.bbox, crs: d.crs, g: d.g, from: append([]byte(nil), text...)}
	n.fs = append([]featSpec(nil), d.fs...)
	for i := range n.fs {
		s := &n.fs[i]
		k := r.N(4)
		n.fields = append(n.fields, k)
		switch k {
		case 1: // a property is set
			v := randValue(r, 0)
			old := s.props
			s.props = nil
			for _, p := range old {
				if p.k != "name" {
					s.props = append(s.props, p)
				}
			}
			s.props = append(s.props, prop{"name", v})
		case 2: // the bounding box is computed
			if s.g.single() {
				s.box = true
			}
		case 3:
			s.id = fmt.Sprintf("revised-%d", r.N(100))
		}
	}
	return n
}

func (d *doc) reencode(mutate bool) (b []byte, err error) {
	text := append([]byte(nil), d.from...)
	direct := d.op.n(1)%2 == 0
	change := func(f *geojson.Feature, i int) {
		s := &d.fs[i]
		switch d.fields[i] {
		case 1:
			f.SetProperty("name", deepCopy(s.props[len(s.props)-1].v))
		case 2:
			if s.g.single() {
				f.SetBoundingBox()
			}
		case 3:
			f.ID = s.id
		}
	}
	switch d.kind {
	case "geo":
		gj := &geojson.GeoJson{}
		if err = json.Unmarshal(text, gj); err != nil {
			return
		}
		if direct || !d.g.single() {
			return json.Marshal(gj)
		}
		var v geo.Geometry
		if v, err = geojson.UnmarshalGeo(gj); err != nil {
			return
		}
		b, err = geojson.MarshalGeo(v)
		if mutate {
			scribbleResult(v, 1)
		}
	case "feature":
		var f *geojson.Feature
		if f, err = geojson.UnmarshalFeature(text); err != nil {
			return
		}
		change(f, 0)
		if direct {
			b, err = f.MarshalJSON()
		} else {
			b, err = json.Marshal(f)
		}
		if mutate {
			scribbleResult(f, 1)
		}
	case "collection":
		var fc *geojson.FeatureCollection
		if fc, err = geojson.UnmarshalFeatureCollection(text); err != nil {
			return
		}
		for i, f := range fc.Features {
			change(f, i)
		}
		if direct {
			b, err = fc.MarshalJSON()
		} else {
			b, err = json.Marshal(fc)
		}
		if mutate {
			scribbleResult(fc.Features, 1)
		}
	case "wkt":
		var v geo.Geometry
		if v, err = wkt.Decode(string(text)); err != nil {
			return
		}
		b = []byte(wkt.Encode(v))
		if mutate {
			scribbleResult(v, 1)
		}
	}
	return
}

// decode reads b with the library. It returns the decoding error, or how the
// result differs from the document, and a function that compares again later.
func (d *doc) decode(b []byte) (err error, diff string, again func() string) {
	var raw interface{}
	switch d.kind {
	case "geo":
		gj := &geojson.GeoJson{}
		if err = json.Unmarshal(b, gj); err != nil {
			return
		}
		json.Unmarshal(append([]byte(nil), b...), &raw)
		again = func() string {
			if s := d.g.inDoc(gj.Type, gj.Coordinates); s != "" {
				return s
			}
			if s := d.g.inRaw(raw); s != "" {
				return s
			}
			return d.g.decoded(gj)
		}
	case "feature":
		var f *geojson.Feature
		if f, err = geojson.UnmarshalFeature(b); err != nil {
			return
		}
		json.Unmarshal(append([]byte(nil), b...), &raw)
		again = func() string { return d.fs[0].same(f, raw) }
	case "collection":
		var fc *geojson.FeatureCollection
		if fc, err = geojson.UnmarshalFeatureCollection(b); err != nil {
			return
		}
		json.Unmarshal(append([]byte(nil), b...), &raw)
		again = func() string { return d.sameColl(fc, raw) }
	case "wkt":
		var g geo.Geometry
		if g, err = wkt.Decode(string(b)); err != nil {
			return
		}
		again = func() string {
			if g == nil {
				return fmt.Sprintf("neither geometry nor error for %s", d.g)
			}
			if got := specOf(g); !eqGeom(got, d.g) {
				return fmt.Sprintf("geometry %s, it was %s", got, d.g)
			}
			return ""
		}
	}
	return nil, again(), again
}

func (d *doc) sameColl(fc *geojson.FeatureCollection, raw interface{}) string {
	m, _ := raw.(map[string]interface{})
	l, ok := m["features"].([]interface{})
	if fc == nil || !ok {
		return "no collection"
	}
	if m["type"] != "FeatureCollection" {
		return fmt.Sprintf("type %v", m["type"])
	}
	if len(fc.Features) != len(d.fs) || len(l) != len(d.fs) {
		return fmt.Sprintf("%d features, there were %d", len(fc.Features), len(d.fs))
	}
	if !sameFloats(d.bbox, fc.BoundingBox) {
		return fmt.Sprintf("bounding box %v, it was %v", fc.BoundingBox, d.bbox)
	}
	if a, b := canon(num2(d.crs)), canon(num2(fc.CRS)); len(d.crs)+len(fc.CRS) > 0 && a != b {
		return fmt.Sprintf("CRS %s, it was %s", b, a)
	}
	for i := range d.fs {
		if s := d.fs[i].same(fc.Features[i], l[i]); s != "" {
			return fmt.Sprintf("feature %d: %s", i, s)
		}
	}
	return ""
}

type heldDoc struct {
	op    int
	again func() string
}

type docWorld struct {
	r     *run
	disk  *simDisk
	docs  []*doc // by file
	bufs  [][]byte
	held  []heldDoc
	acks  int
	reads int
	torn  int

	revised int
}

// load reads a whole file into the reader's buffer.
func (w *docWorld) load(t, f int, r *Rng) []byte {
	n := len(w.disk.files[f].cache)
	if cap(w.bufs[t]) < n+8 {
		w.bufs[t] = make([]byte, 2*n+64)
	}
	b := w.bufs[t][:n]
	for off := 0; off < n; {
		k, err := w.disk.read(f, off, b[off:], r)
		if err != nil || k == 0 {
			b = b[:off]
			break
		}
		off += k
	}
	return b
}

// verify reads one file.
func (w *docWorld) verify(t, f int, op *Op, r *Rng) {
	d := *w.docs[f] // as it is when reading starts
	b := w.load(t, f, r)
	text := string(b)
	var err error
	var diff string
	var again func() string
	if !w.r.lib(op, func() { err, diff, again = d.decode(b) }) {
		return
	}
	w.reads++
	switch {
	case err != nil && d.acked:
		w.r.fail(op.ID, "lost:"+d.kind, "acknowledged document %s does not decode: %v", head(text, 500), err)
	case err != nil:
		w.torn++
	case diff != "" && d.acked:
		w.r.fail(op.ID, "different:"+d.kind, "acknowledged document %s: %s", head(text, 400), diff)
	case diff != "":
		w.r.fail(op.ID, "torn-accepted:"+d.kind, "a document whose write did not complete, %q, decodes: %s", head(text, 400), diff)
	default:
		w.r.st.state(hashStr(text))
		if len(w.held) < 48 {
			w.held = append(w.held, heldDoc{op.ID, again})
		}
	}
}

// put makes a document durable; it reports whether it was acknowledged.
func (w *docWorld) put(op *Op, d *doc, r *Rng) bool {
	ep := w.disk.epoch
	for try := 0; try < 3; try++ {
		d.given++
		var b []byte
		var err error
		if !w.r.lib(op, func() { b, err = d.encode(r.P(0.5)) }) {
			return false
		}
		if err != nil {
			w.r.fail(op.ID, "not-encoded:"+d.kind, "%v", err)
			return false
		}
		if ep != w.disk.epoch {
			return false // the process that encoded this is gone
		}
		dd := *d // a file for each attempt
		f := w.disk.create()
		w.docs = append(w.docs, &dd)
		chunk := []int{1 << 20, 64, 16, 7, 200}[r.N(5)]
		ok := true
		for off := 0; off < len(b) && ok; {
			e := off + chunk
			if e > len(b) {
				e = len(b)
			}
			n, err := w.disk.write(ep, f, b[off:e], r)
			off += n
			if err != nil || n == 0 && e > off {
				ok = n > 0 && err == errIO // a partial write goes on
			}
		}
		if ok && w.disk.sync(ep, f, r) == nil {
			dd.acked = true
			w.acks++
			return true
		}
		if ep != w.disk.epoch {
			return false
		}
	}
	return false
}

func (w *docWorld) do(t int, op *Op) {
	r := newRng(w.r.p.Seed, uint64(op.ID), uint64(w.r.p.Index), 11)
	switch op.K {
	case "put":
		d := w.newDoc(op)
		w.put(op, d, r)
	case "get":
		if len(w.docs) > 0 {
			w.verify(t, op.n(0)%len(w.docs), op, r)
		}
	case "revise":
		if len(w.docs) == 0 {
			return
		}
		f := op.n(0) % len(w.docs)
		if d := *w.docs[f]; d.acked {
			ep := w.disk.epoch
			b := w.load(t, f, r)
			if w.verify(t, f, op, r); !w.r.failed() && ep == w.disk.epoch && len(b) > 0 {
				w.revised++
				w.put(op, d.revise(b, op), r)
			}
		}
	case "crash":
		w.disk.crash(r)
		w.verifyAll(t, op, r)
	}
}

func (w *docWorld) verifyAll(t int, op *Op, r *Rng) {
	for f := range w.docs {
		if w.r.failed() {
			return
		}
		w.verify(t, f, op, r)
	}
}

func execDocs(p *Plan, st *Stats) *Violation {
	r := newRun(p, st)
	w := &docWorld{r: r, bufs: make([][]byte, len(p.Tasks)+1)}
	w.disk = &simDisk{st: st, faults: true, every: p.Cfg["every"], room: 1 << 30}
	if p.Cfg["room"] > 0 {
		w.disk.room = p.Cfg["room"]
	}
	most := 0
	for i := range p.Pool {
		if n := p.Pool[i].npoints(); n > most {
			most = n
		}
	}
	r.tasks(func(o *Op) int { return 1<<24 + 60000*most }, func(t int, o *Op) {
		st.C["op:"+o.K]++
		w.do(t, o)
	})
	// The faults stop: a last crash, everything is read, and a client can write.
	w.disk.faults = false
	w.disk.room = 1 << 30
	end := &Op{ID: 0, K: "recover"}
	fr := newRng(p.Seed, uint64(p.Index), 12)
	crashes := 0
	for t := range p.Tasks {
		for k := range p.Tasks[t] {
			if p.Tasks[t][k].K == "crash" {
				crashes++
			}
		}
	}
	if !r.failed() {
		simrt.Solo(1<<26+200000*most, func() {
			w.disk.crash(fr)
			w.verifyAll(len(p.Tasks), end, fr)
			for t := range p.Tasks {
				for k := range p.Tasks[t] {
					o := &p.Tasks[t][k]
					if o.K == "put" && !r.failed() {
						if !w.put(o, w.newDoc(o), fr) && !r.failed() {
							r.fail(o.ID, "no-progress", "a document could not be written although the faults have stopped")
						}
						if n := len(w.docs) - 1; !r.failed() {
							w.verify(len(p.Tasks), n, o, fr)
						}
						break
					}
				}
			}
		})
	}
	for i := range w.bufs {
		b := w.bufs[i][:cap(w.bufs[i])]
		copy(b, bytes.Repeat([]byte{0xff}, len(b)))
	}
	for _, h := range w.held {
		if r.failed() {
			break
		}
		if s := h.again(); s != "" {
			r.fail(h.op, "changed-later", "a decoded document changed: %s", s)
		}
	}
	st.add("outcome:acknowledged", w.acks)
	st.add("outcome:decoded", w.reads-w.torn)
	st.add("outcome:torn-refused", w.torn)
	st.add("outcome:revised", w.revised)
	st.note(fmt.Sprint(w.acks, w.reads, w.torn))
	st.Nontrivial = w.acks > 0 && crashes > 0 && w.reads > 1
	return r.finish()
}

// extreme replaces coordinates by values at the edge of the number range.
func extreme(r *Rng, g Geom) {
	ring := strings.HasPrefix(g.T, "Polygon") || strings.HasPrefix(g.T, "MultiPolygon")
	for _, p := range g.C {
		for _, l := range p {
			for i := range l {
				for j := range l[i] {
					if r.P(0.4) {
						l[i][j] = randNum(r)
					}
				}
			}
			if ring && len(l) > 1 {
				copy(l[len(l)-1], l[0])
			}
		}
	}
}

// repeatPart makes two parts of a geometry the same.
func repeatPart(r *Rng, g Geom) {
	switch {
	case strings.HasPrefix(g.T, "MultiPolygon") && len(g.C) > 1:
		i := r.Range(1, len(g.C)-1)
		g.C[i] = Geom{C: g.C[i-1 : i]}.clone().C[0]
	case strings.HasPrefix(g.T, "MultiLineString") && len(g.C[0]) > 1:
		i := r.Range(1, len(g.C[0])-1)
		l := g.C[0]
		l[i] = clonePts(l[i-1])
	}
}

// shareParts makes equal neighbouring parts of a value the same slices.
func shareParts(v geo.Geometry, g Geom) {
	n := len(g.C)
	if g.T == "MultiLineString" {
		n = len(g.C[0])
	}
	for i := 1; i < n; i++ {
		switch x := v.(type) {
		case geo.MultiPolygon:
			if eqGeom(Geom{C: g.C[i-1 : i]}, Geom{C: g.C[i : i+1]}) {
				x[i] = x[i-1]
			}
		case geo.MultiPolygonZ:
			if eqGeom(Geom{C: g.C[i-1 : i]}, Geom{C: g.C[i : i+1]}) {
				x[i] = x[i-1]
			}
		case geo.MultiLineString:
			if eqGeom(Geom{C: [][][][]float64{g.C[0][i-1 : i]}}, Geom{C: [][][][]float64{g.C[0][i : i+1]}}) {
				x[i] = x[i-1]
			}
		default:
			return
		}
	}
}

func genDocs(r *Rng, kinds []string) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	c := newCoords(r, docModes[r.N(len(docModes))])
	ext := r.P(0.3)
	big := r.P(0.004)
	items, usual := r.Range(1, 4), 6
	if big {
		items, usual = 1, []int{70, 140, 300, 600, 1100, 2100}[r.Pick(4, 4, 3, 2, 2, 1)]
	}
	for k := items; k > 0; k-- {
		m := usual
		if r.P(0.1) && !big {
			m = 40
		}
		g := c.genUpTo(r, allTypes[r.N(len(allTypes))], m, big)
		if ext {
			extreme(r, g)
		}
		if r.P(0.1) {
			repeatPart(r, g)
		}
		p.Pool = append(p.Pool, g)
		if big || r.P(0.05) { // almost the same
			h := g.clone()
			q := h.C[r.N(len(h.C))]
			l := q[r.N(len(q))]
			if i := r.N(len(l)); i > 0 && i < len(l)-1 || len(l) == 1 {
				l[i][r.N(len(l[i]))] = float64(r.Range(-9, 9))
			}
			p.Pool = append(p.Pool, h)
		}
	}
	p.Cfg["every"] = []int{0, 4, 8, 25}[r.N(4)]
	if r.P(0.15) {
		p.Cfg["room"] = r.Range(1, 3000)
		if big {
			p.Cfg["room"] *= 50
		}
	}
	for t := r.Range(1, 4); t > 0; t-- {
		var ops []Op
		most := 6
		if big {
			most = 3
		}
		for k := r.Range(1, most); k > 0; k-- {
			o := p.op("put")
			switch r.Pick(6, 2, 2, 2) {
			case 3:
				o.K = "revise"
				o.N = []int{r.N(64), r.N(1 << 30)}
			case 0:
				o.S = []string{kinds[r.N(len(kinds))]}
				o.N = []int{r.N(len(p.Pool)), r.N(1 << 30)}
			case 1:
				o.K = "get"
				o.N = []int{r.N(64)}
			default:
				o.K = "crash"
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = randSched(r)
	return p
}

type cDocs struct {
	id    string
	kinds []string
}

func (c cDocs) ID() string { return c.id }
func (c cDocs) Runs(t string) int {
	if t == "thorough" {
		return 4000000
	}
	return map[string]int{"C10": 200000, "C11": 400000}[c.id]
}
func (c cDocs) Gen(r *Rng, idx int) *Plan          { return genDocs(r, c.kinds) }
func (c cDocs) Exec(p *Plan, st *Stats) *Violation { return execDocs(p, st) }
func (c cDocs) Real() []string {
	return append([]string{"encoding/json, regexp, strconv (not preempted inside)"}, libReal...)
}
func (c cDocs) Stub() []string {
	return []string{"disk: append-only files with page cache, fsync and crash semantics", "the program that stores documents (harness)", "goroutine scheduling, sync primitives, clock and math/rand of library code"}
}
func (c cDocs) Rule() string {
	return "a run writes 1-24 documents from 1-4 tasks to a simulated disk with short, failing and slow writes, failing syncs, full disk and crashes at any I/O step, and reads them back into reused buffers after every crash; non-trivial when a document was acknowledged, a crash of the plan happened and two or more documents were read; states are hashes of document texts that decoded"
}

func init() {
	register(cDocs{"C10", []string{"geo", "feature", "feature", "collection"}})
	register(cDocs{"C11", []string{"wkt"}})
}
