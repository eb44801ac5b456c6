package main

import (
	"encoding/json"
	"fmt"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"

	"geosim/simrt"
)

// ---- C12 and C13: documents that storage or a network damaged
//
// Reader tasks take what the simulated medium delivers (into a buffer that each
// reader reuses) and decode it. An operation carries the delivered bytes.

func isNilGeom(g geo.Geometry) bool {
	return g == nil // a typed nil slice is a geometry without points
}

// judgeGeo compares the outcome of UnmarshalGeo with what the document says.
func judgeGeo(gj *geojson.GeoJson, g geo.Geometry, err error) string {
	if err != nil {
		return ""
	}
	if isNilGeom(g) {
		return "neither geometry nor error"
	}
	got := specOf(g)
	if gj == nil {
		return fmt.Sprintf("%s from no document", got)
	}
	want, bad := geomOf(gj.Type, gj.Coordinates)
	if bad != "" {
		return fmt.Sprintf("%s though %s", got, bad)
	}
	if !sameGeom(got, want) {
		return fmt.Sprintf("%s where the document has %s", got, want)
	}
	return ""
}

// refGeo finds the geometry value of generic JSON without repeated or
// differently spelled names; ok is false when that is ambiguous.
func exactNames(x interface{}) bool {
	switch v := x.(type) {
	case map[string]interface{}:
		for k, e := range v {
			for _, n := range []string{"type", "coordinates", "geometry", "geometries", "features", "properties", "id", "bbox", "crs"} {
				if k != n && strings.EqualFold(k, n) {
					return false
				}
			}
			if !exactNames(e) {
				return false
			}
		}
	case []interface{}:
		for _, e := range v {
			if !exactNames(e) {
				return false
			}
		}
	}
	return true
}

// refDoc is the generic reading of a document; nil when it has none that is
// certain (repeated names: the tree re-encodes to a shorter text).
func refDoc(b []byte) interface{} {
	var x interface{}
	if json.Unmarshal(b, &x) != nil || !exactNames(x) || repeatedNames(b) {
		return nil
	}
	return x
}

func repeatedNames(b []byte) bool {
	d := json.NewDecoder(strings.NewReader(string(b)))
	type frame struct {
		names map[string]bool
		key   bool
	}
	var st []*frame
	val := func() {
		if n := len(st); n > 0 && st[n-1].names != nil {
			st[n-1].key = true
		}
	}
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		if s, ok := t.(string); ok && len(st) > 0 && st[len(st)-1].names != nil && st[len(st)-1].key {
			f := st[len(st)-1]
			if f.names[s] {
				return true
			}
			f.names[s] = true
			f.key = false
			continue
		}
		switch t {
		case json.Delim('{'):
			st = append(st, &frame{names: map[string]bool{}, key: true})
		case json.Delim('['):
			st = append(st, &frame{})
		case json.Delim('}'), json.Delim(']'):
			st = st[:len(st)-1]
			val()
		default:
			val()
		}
	}
}

// judgeRef compares a decoded geometry with the generic reading of its place.
func judgeRef(x interface{}, g geo.Geometry, err error) string {
	if err != nil {
		return ""
	}
	m, ok := x.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("%s from %v", specOf(g), head(fmt.Sprint(x), 200))
	}
	t, _ := m["type"].(string)
	want, bad := geomOf(t, m["coordinates"])
	if bad != "" {
		return fmt.Sprintf("%s though the document has %s", specOf(g), bad)
	}
	if got := specOf(g); !sameGeom(got, want) {
		return fmt.Sprintf("%s where the document has %s", got, want)
	}
	return ""
}

type heldGeom struct {
	op   int
	g    geo.Geometry
	want Geom
}

type damageRun struct {
	r    *run
	bufs [][]byte
	held []heldGeom
	ok   int
	bad  int
}

// deliver puts the bytes into the task's buffer, as the medium would.
func (d *damageRun) deliver(t int, s string) []byte {
	if cap(d.bufs[t]) < len(s) {
		d.bufs[t] = make([]byte, 0, 2*len(s)+16)
	}
	b := d.bufs[t][:len(s)]
	copy(b, s)
	return b
}

func (d *damageRun) fail(op *Op, class, format string, a ...interface{}) {
	d.r.fail(op.ID, class, format, a...)
}

func (d *damageRun) keep(op *Op, g geo.Geometry, err error) {
	if err == nil && !isNilGeom(g) {
		d.ok++
		if len(d.held) < 64 {
			d.held = append(d.held, heldGeom{op.ID, g, specOf(g)})
		}
	} else {
		d.bad++
	}
}

func (d *damageRun) json(t int, op *Op) {
	text := un8(op.s(1))
	b := d.deliver(t, text)
	ref := refDoc([]byte(text))
	one := func(gj *geojson.GeoJson, at interface{}) {
		var g geo.Geometry
		var err error
		if !d.r.lib(op, func() { g, err = geojson.UnmarshalGeo(gj) }) {
			return
		}
		if s := judgeGeo(gj, g, err); s != "" {
			d.fail(op, "incomplete:"+op.s(0), "decoding %.2000s gave %s", text, s)
		} else if ref != nil {
			if s := judgeRef(at, g, err); s != "" {
				d.fail(op, "incomplete:"+op.s(0), "decoding %.2000s gave %s", text, s)
			}
		}
		d.keep(op, g, err)
	}
	member := func(x interface{}, k string) interface{} {
		m, _ := x.(map[string]interface{})
		return m[k]
	}
	switch op.s(0) {
	case "geo":
		gj := &geojson.GeoJson{}
		var err error
		d.r.lib(op, func() { err = json.Unmarshal(b, gj) })
		if err == nil {
			one(gj, ref)
		} else {
			d.bad++
		}
	case "feature":
		var f *geojson.Feature
		var err error
		if !d.r.lib(op, func() { f, err = geojson.UnmarshalFeature(b) }) {
			return
		}
		switch {
		case err != nil:
			d.bad++
		case f == nil:
			d.fail(op, "incomplete:feature", "decoding %.2000s gave neither feature nor error", text)
		default:
			one(f.GeometryJson, member(ref, "geometry"))
		}
	case "collection":
		var fc *geojson.FeatureCollection
		var err error
		if !d.r.lib(op, func() { fc, err = geojson.UnmarshalFeatureCollection(b) }) {
			return
		}
		switch {
		case err != nil:
			d.bad++
		case fc == nil:
			d.fail(op, "incomplete:collection", "decoding %.2000s gave neither collection nor error", text)
		default:
			l, _ := member(ref, "features").([]interface{})
			if ref != nil && len(l) != len(fc.Features) {
				d.fail(op, "incomplete:collection", "decoding %.2000s gave %d features of %d", text, len(fc.Features), len(l))
				return
			}
			for i, f := range fc.Features {
				if f == nil {
					continue // "null" in the list: visibly no feature
				}
				var at interface{}
				if i < len(l) {
					at = member(l[i], "geometry")
				}
				one(f.GeometryJson, at)
				if d.r.failed() {
					return
				}
			}
		}
	}
}

func (d *damageRun) wkt(op *Op, text string, class string) {
	var g geo.Geometry
	var err error
	if !d.r.lib(op, func() { g, err = wkt.Decode(text) }) {
		return
	}
	got := Geom{}
	if err == nil && !isNilGeom(g) {
		got = specOf(g)
	}
	if s := judgeWKT(text, isNilGeom(g), got, err != nil); s != "" {
		d.fail(op, class, "decoding %q: %s", head(text, 600), s)
	}
	d.keep(op, g, err)
}

func (d *damageRun) do(t int, op *Op) {
	switch op.K {
	case "json":
		d.json(t, op)
	case "wkt":
		text := un8(op.s(0))
		d.wkt(op, string(d.deliver(t, text)), "incomplete:wkt")
	case "prefix":
		// every proper prefix of what the library wrote, or some of a long text
		var text string
		g := d.r.p.Pool[op.n(0)%len(d.r.p.Pool)]
		v := g.Build()
		if !d.r.lib(op, func() { text = wkt.Encode(v) }) {
			return
		}
		step := 1 + len(text)/40
		for n := len(text) - 1 - op.n(1)%step; n >= 0; n -= step {
			var got geo.Geometry
			var err error
			if !d.r.lib(op, func() { got, err = wkt.Decode(text[:n]) }) {
				return
			}
			if err == nil {
				s := "nothing"
				if !isNilGeom(got) {
					s = specOf(got).String()
				}
				d.fail(op, "prefix-accepted", "the first %d bytes of %q decode to %s", n, head(text, 400), s)
				return
			}
			d.bad++
			d.r.st.add("fault:truncated", 1)
		}
	case "jprefix":
		var b []byte
		g := d.r.p.Pool[op.n(0)%len(d.r.p.Pool)]
		v := g.Build()
		var err error
		if !d.r.lib(op, func() { b, err = geojson.NewFeature(v).MarshalJSON() }) || err != nil {
			return
		}
		step := 1 + len(b)/30
		for n := len(b) - 1 - op.n(1)%step; n >= 0; n -= step {
			var f *geojson.Feature
			if !d.r.lib(op, func() { f, err = geojson.UnmarshalFeature(b[:n]) }) {
				return
			}
			if err == nil {
				d.fail(op, "prefix-accepted", "the first %d bytes of %.2000s decode to %s", n, b, head(canon(f), 300))
				return
			}
			d.bad++
			d.r.st.add("fault:truncated", 1)
		}
	}
}

func execDamage(p *Plan, st *Stats) *Violation {
	r := newRun(p, st)
	d := &damageRun{r: r, bufs: make([][]byte, len(p.Tasks))}
	most := 0
	for i := range p.Pool {
		if n := p.Pool[i].npoints(); n > most {
			most = n
		}
	}
	r.tasks(func(o *Op) int { return 1<<23 + 20000*most + 200*len(o.s(0)) + 200*len(o.s(1)) }, func(t int, o *Op) {
		st.C["op:"+o.K]++
		for k := 0; k < o.n(2); k++ {
			simrt.Y(0)
		}
		d.do(t, o)
		if len(o.S) > 2 {
			st.C["fault:"+o.s(2)]++
		}
	})
	if !r.failed() {
		for _, h := range d.held {
			if got := specOf(h.g); !eqGeom(got, h.want) {
				r.fail(h.op, "changed-later", "a decoded geometry became %s, it was %s", got, h.want)
				break
			}
			st.state(hashStr(h.want.String()))
		}
	}
	st.add("outcome:geometry", d.ok)
	st.add("outcome:error", d.bad)
	st.note(fmt.Sprint(d.ok, d.bad))
	st.Nontrivial = d.ok+d.bad > 1
	return r.finish()
}

// docFor makes a document of one of the kinds.
func docFor(r *Rng, c *coords, types []string, usual int, big bool) (kind string, v interface{}) {
	g := c.genUpTo(r, types[r.N(len(types))], usual, big)
	switch r.Pick(5, 4, 2) {
	case 0:
		return "geo", geoVal(g)
	case 1:
		return "feature", featVal(r, g, r.N(9))
	}
	fs := []interface{}{}
	for k := r.Range(1, 3); k > 0; k-- {
		fs = append(fs, featVal(r, c.gen(r, types[r.N(len(types))], 4), k))
	}
	return "collection", map[string]interface{}{"type": "FeatureCollection", "features": fs}
}

var docModes = []int{cmTinyGrid, cmGrid, cmUnit, cmUniform, cmCluster, cmDegrees, cmBig, cmFar, cmTiny, cmThin, cmHuge, cmWorld}

func genDamage(r *Rng, isJSON bool) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	c := newCoords(r, docModes[r.N(len(docModes))])
	big := r.P(0.006)
	usual, most := 5, 8
	if big {
		usual, most = []int{20, 40, 90, 250, 700, 1500}[r.Pick(4, 4, 3, 2, 2, 1)], 3
	}
	for k := r.Range(1, 3); k > 0; k-- {
		p.Pool = append(p.Pool, c.genUpTo(r, allTypes[r.N(len(allTypes))], usual, big))
	}
	single := []string{"Point", "PointZ", "LineString", "LineStringZ", "Polygon", "PolygonZ"}
	for t := r.Range(1, 4); t > 0; t-- {
		var ops []Op
		for k := r.Range(1, most); k > 0; k-- {
			var o Op
			if r.P(0.12) {
				if isJSON {
					o = p.op("jprefix")
				} else {
					o = p.op("prefix")
				}
				o.N = []int{r.N(3), r.N(100), 0}
			} else if isJSON {
				ts := single
				if r.P(0.15) {
					ts = allTypes
				}
				kind, v := docFor(r, c, ts, usual, big)
				s := jsonText(v)
				f := "undamaged"
				whole := s
				if r.P(0.96) {
					f = "damaged-text"
					d := damageJSON(r, v, s)
					var x interface{}
					if json.Unmarshal([]byte(d), &x) == nil {
						f = "damaged-value"
					}
					s = d
				}
				o = p.op("json")
				o.S = []string{kind, raw8(s), f}
				o.N = []int{0, 0, r.N(3)}
				if f != "undamaged" && r.P(0.12) { // the document arrives whole as well
					o2 := p.op("json")
					o2.S, o2.N = []string{kind, raw8(whole), "undamaged"}, []int{0, 0, 0}
					ops = append(ops, o2)
				}
			} else {
				g := c.genUpTo(r, allTypes[r.N(len(allTypes))], usual, big)
				s := wktOf(g, []string{",", ", "}[r.N(2)])
				if r.P(0.15) {
					s = strings.Replace(s, "(", " (", 1)
				}
				if r.P(0.2) { // spliced with another document
					s2 := wktOf(c.gen(r, allTypes[r.N(len(allTypes))], 3), ",")
					a, b := r.N(len(s)+1), r.N(len(s2)+1)
					s = s[:a] + s2[b:]
				}
				if r.P(0.1) { // arrives whole as well
					o2 := p.op("wkt")
					o2.S, o2.N = []string{raw8(s), "", "undamaged"}, []int{0, 0, 0}
					ops = append(ops, o2)
				}
				s = damageText(r, s, wktTokens)
				o = p.op("wkt")
				o.S = []string{raw8(s), "", "damaged-text"}
				o.N = []int{0, 0, r.N(3)}
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = randSched(r)
	return p
}

type cDamage struct {
	id   string
	json bool
}

func (c cDamage) ID() string { return c.id }
func (c cDamage) Runs(t string) int {
	if t == "thorough" {
		return 20000000
	}
	return 250000
}
func (c cDamage) Gen(r *Rng, idx int) *Plan          { return genDamage(r, c.json) }
func (c cDamage) Exec(p *Plan, st *Stats) *Violation { return execDamage(p, st) }
func (c cDamage) Real() []string {
	return append([]string{"encoding/json, regexp, strconv (not preempted inside)"}, libReal...)
}
func (c cDamage) Stub() []string {
	return []string{"storage and network: a medium that delivers damaged bytes into the reader's reused buffer", "goroutine scheduling, sync primitives, clock and math/rand of library code"}
}
func (c cDamage) Rule() string {
	return "a run delivers 1-32 damaged documents (bit flips, lost, inserted, repeated, swapped, zeroed and spliced bytes and tokens, truncations, and for JSON well-formed text with missing, null, nested, mistyped, moved or mixed-dimension values) to 1-4 concurrent readers that reuse their buffers; non-trivial when at least two decodes finished; states are hashes of the geometries that came out"
}

func init() {
	register(cDamage{"C12", true})
	register(cDamage{"C13", false})
}
