package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	geo "github.com/hzw456/go-geo"
)

// env holds the shared values of one execution of a call plan: pool geometries
// laid out in arenas (spare room before and after every array, filled with
// sentinels), so that a write outside a geometry shows as well.
type env struct {
	vals []geo.Geometry
	pts  [][]geo.Point // first array of item i, for storage sharing
	recs []memRec
	pre  bool // fill spare capacity of the arrays with sentinels
	aux  interface{}
	full bool // for the tasks, not for a call alone
}

type memRec interface {
	changed() string
	scribble(k float64)
}

type arr[T any] struct {
	name      string
	buf, want []T
	same      func(a, b T) bool
	mk        func(k float64) T
}

func (a *arr[T]) changed() string {
	for i := range a.buf {
		if !a.same(a.buf[i], a.want[i]) {
			return fmt.Sprintf("%s element %d of %d: %v was %v", a.name, i-1, len(a.buf)-1, show(a.buf[i]), show(a.want[i]))
		}
	}
	return ""
}

func show(x interface{}) string { return head(fmt.Sprint(x), 120) }

// scribble is what the owner does to his geometry.
func (a *arr[T]) scribble(k float64) {
	if a.mk == nil {
		return
	}
	for i := range a.buf {
		a.buf[i] = a.mk(k + float64(i))
		a.want[i] = a.buf[i]
	}
}

func bits2(a, b geo.Point) bool {
	return math.Float64bits(a.X) == math.Float64bits(b.X) && math.Float64bits(a.Y) == math.Float64bits(b.Y)
}
func bits3(a, b geo.PointZ) bool {
	return math.Float64bits(a.X) == math.Float64bits(b.X) && math.Float64bits(a.Y) == math.Float64bits(b.Y) && math.Float64bits(a.Z) == math.Float64bits(b.Z)
}

func hdr[S ~[]E, E any](a, b S) bool {
	return len(a) == len(b) && cap(a) == cap(b) && unsafe.SliceData(a) == unsafe.SliceData(b)
}

// lay places xs in an arena: one sentinel before, slack sentinels after.
func lay[T any](e *env, name string, xs []T, sent func(k float64) T, same func(a, b T) bool, edit bool) []T {
	n := len(xs)
	slack := 3 + n%3
	buf := make([]T, 1+n+slack)
	buf[0] = sent(1)
	copy(buf[1:], xs)
	for i := 1 + n; i < len(buf); i++ {
		buf[i] = sent(float64(i))
	}
	r := &arr[T]{name: name, buf: buf, want: append([]T(nil), buf...), same: same}
	if edit {
		r.mk = sent
	}
	e.recs = append(e.recs, r)
	return buf[1 : 1+n]
}

func sent2(k float64) geo.Point  { return geo.Point{X: -7.25e11 - k, Y: 3.5e11 + k} }
func sent3(k float64) geo.PointZ { return geo.PointZ{X: -7.25e11 - k, Y: 3.5e11 + k, Z: k} }

func (e *env) l2(name string, ps [][]float64) []geo.Point {
	return lay(e, name, pts2(ps), sent2, bits2, true)
}
func (e *env) l3(name string, ps [][]float64) []geo.PointZ {
	return lay(e, name, pts3(ps), sent3, bits3, true)
}

func outer[S ~[]E, E any](e *env, name string, xs []S, s E) []S {
	return lay(e, name, xs, func(k float64) S { return S{s} }, hdr[S, E], false)
}

func newEnv(pool []Geom) *env {
	e := &env{}
	for i, g := range pool {
		e.add(fmt.Sprintf("geometry %d (%s)", i, g.T), g)
	}
	return e
}

func (e *env) add(name string, g Geom) {
	var first []geo.Point
	var v geo.Geometry
	if len(g.Sub) == 3 && g.Sub[0] < len(e.pts) && len(e.pts[g.Sub[0]]) > 0 {
		// a view of another item's array, with that item's points as spare capacity
		p := e.pts[g.Sub[0]]
		a, b := g.Sub[1], g.Sub[2]
		if b > len(p) {
			b = len(p)
		}
		if a > b {
			a = b
		}
		first = p[a:b]
		switch g.T {
		case "MultiPoint":
			v = geo.MultiPoint(first)
		default:
			v = geo.LineString(first)
		}
		e.pts = append(e.pts, first)
		e.vals = append(e.vals, v)
		return
	}
	poly := func(rs [][][]float64) geo.Polygon {
		var ls []geo.LinearRing
		for i, r := range rs {
			l := e.l2(fmt.Sprintf("%s ring %d", name, i), r)
			if first == nil {
				first = l
			}
			ls = append(ls, l)
		}
		return geo.Polygon(outer(e, name+" rings", ls, sent2(9)))
	}
	polyZ := func(rs [][][]float64) geo.PolygonZ {
		var ls []geo.LinearRingZ
		for i, r := range rs {
			ls = append(ls, e.l3(fmt.Sprintf("%s ring %d", name, i), r))
		}
		return geo.PolygonZ(outer(e, name+" rings", ls, sent3(9)))
	}
	switch g.T {
	case "Point":
		v = pt2(g.C[0][0][0])
	case "PointZ":
		v = pt3(g.C[0][0][0])
	case "MultiPoint":
		first = e.l2(name, g.C[0][0])
		v = geo.MultiPoint(first)
	case "LineString":
		first = e.l2(name, g.C[0][0])
		v = geo.LineString(first)
	case "MultiPointZ":
		v = geo.MultiPointZ(e.l3(name, g.C[0][0]))
	case "LineStringZ":
		v = geo.LineStringZ(e.l3(name, g.C[0][0]))
	case "MultiLineString":
		var ls []geo.LineString
		for i, r := range g.C[0] {
			l := e.l2(fmt.Sprintf("%s line %d", name, i), r)
			if first == nil {
				first = l
			}
			ls = append(ls, l)
		}
		v = geo.MultiLineString(outer(e, name+" lines", ls, sent2(9)))
	case "MultiLineStringZ":
		var ls []geo.LineStringZ
		for i, r := range g.C[0] {
			ls = append(ls, e.l3(fmt.Sprintf("%s line %d", name, i), r))
		}
		v = geo.MultiLineStringZ(outer(e, name+" lines", ls, sent3(9)))
	case "Polygon":
		v = poly(g.C[0])
	case "PolygonZ":
		v = polyZ(g.C[0])
	case "MultiPolygon":
		var ps []geo.Polygon
		for _, p := range g.C {
			ps = append(ps, poly(p))
		}
		v = geo.MultiPolygon(outer(e, name+" polygons", ps, geo.LinearRing{sent2(9)}))
	case "MultiPolygonZ":
		var ps []geo.PolygonZ
		for _, p := range g.C {
			ps = append(ps, polyZ(p))
		}
		v = geo.MultiPolygonZ(outer(e, name+" polygons", ps, geo.LinearRingZ{sent3(9)}))
	default:
		harnessBug("pool type " + g.T)
	}
	e.pts = append(e.pts, first)
	e.vals = append(e.vals, v)
}

// altered reports the first piece of caller memory that is not as it was.
func (e *env) altered() string {
	for _, r := range e.recs {
		if s := r.changed(); s != "" {
			return s
		}
	}
	return ""
}

func (e *env) scribble(k float64) {
	for i, r := range e.recs {
		r.scribble(k + float64(i)*64)
	}
}

// edit is an owner's change of one coordinate of his geometry.
func (e *env) edit(i, k int, x, y float64) {
	if i >= len(e.pts) || len(e.pts[i]) == 0 {
		return
	}
	p := e.pts[i]
	k %= len(p)
	set := func(k int) {
		p[k] = geo.Point{X: x, Y: y}
		for _, r := range e.recs {
			if a, ok := r.(*arr[geo.Point]); ok && len(p) > 0 {
				for j := range a.buf {
					if &a.buf[j] == &p[k] {
						a.want[j] = p[k]
					}
				}
			}
		}
	}
	closed := len(p) > 2 && p[0] == p[len(p)-1]
	set(k)
	if closed && k == 0 {
		set(len(p) - 1)
	} else if closed && k == len(p)-1 {
		set(0)
	}
}

// ---- canonical text of results

var ptrRe = regexp.MustCompile(`0x[0-9a-f]+`)

func canon(x interface{}) string {
	var sb strings.Builder
	canonV(&sb, reflect.ValueOf(x), 0)
	return sb.String()
}

func canonAll(xs []interface{}) string {
	var sb strings.Builder
	for i, x := range xs {
		if i > 0 {
			sb.WriteString(" | ")
		}
		canonV(&sb, reflect.ValueOf(x), 0)
	}
	return sb.String()
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func fl(f float64) string {
	if f != f {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

var (
	listType = reflect.TypeOf([]interface{}(nil))
	docType  = reflect.TypeOf(map[string]interface{}(nil))
)

// canonI is canonV for the values documents are made of.
//
//go:norace
func canonI(sb *strings.Builder, x interface{}, depth int) {
	if depth > 40 {
		sb.WriteString("...")
		return
	}
	el := func(e interface{}) {
		switch y := e.(type) {
		case nil:
			sb.WriteString("nil")
		case float64:
			if depth+2 > 40 {
				sb.WriteString("float64:...")
				return
			}
			sb.WriteString("float64:")
			sb.WriteString(fl(y))
		case []interface{}:
			sb.WriteString("[]interface {}:")
			canonI(sb, y, depth+2)
		case map[string]interface{}:
			sb.WriteString("map[string]interface {}:")
			canonI(sb, y, depth+2)
		default:
			r := reflect.ValueOf(e)
			sb.WriteString(typeName(r.Type()) + ":")
			canonV(sb, r, depth+2)
		}
	}
	switch y := x.(type) {
	case []interface{}:
		sb.WriteString("[]interface {}[")
		for i := range y {
			if i > 0 {
				sb.WriteString(" ")
			}
			el(y[i])
		}
		sb.WriteString("]")
	case map[string]interface{}:
		ks := make([]string, 0, len(y))
		qs := map[string]string{}
		for k := range y {
			q := strconv.Quote(k) + "="
			qs[q] = k
			ks = append(ks, q)
		}
		sort.Strings(ks)
		sb.WriteString("map[")
		for i, q := range ks {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(q)
			el(y[qs[q]])
		}
		sb.WriteString("]")
	}
}

func canonV(sb *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if depth > 40 {
		sb.WriteString("...")
		return
	}
	t := v.Type()
	if (t == listType || t == docType) && v.CanInterface() {
		canonI(sb, v.Interface(), depth)
		return
	}
	if t.Kind() != reflect.Interface && t.Implements(errType) {
		if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Map) && v.IsNil() {
			sb.WriteString("nil-error")
			return
		}
		if v.CanInterface() {
			sb.WriteString("error(" + ptrRe.ReplaceAllString(v.Interface().(error).Error(), "0x") + ")")
			return
		}
	}
	switch v.Kind() {
	case reflect.Float64, reflect.Float32:
		sb.WriteString(fl(v.Float()))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteString("&")
		}
		e := v.Elem()
		if v.Kind() == reflect.Interface {
			sb.WriteString(typeName(e.Type()) + ":")
		}
		canonV(sb, e, depth+1)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			sb.WriteString(strconv.Quote(string(v.Bytes())))
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteString(typeName(t) + "[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			canonV(sb, v.Index(i), depth+1)
		}
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			canonV(sb, v.Field(i), depth+1)
		}
		sb.WriteString("}")
	case reflect.Map:
		ks := v.MapKeys()
		ts := make([]string, len(ks))
		for i, k := range ks {
			var a strings.Builder
			canonV(&a, k, depth+1)
			a.WriteString("=")
			canonV(&a, v.MapIndex(k), depth+1)
			ts[i] = a.String()
		}
		sort.Strings(ts)
		sb.WriteString("map[" + strings.Join(ts, " ") + "]")
	case reflect.Func:
		sb.WriteString("func")
	default:
		sb.WriteString("?" + v.Kind().String())
	}
}

func typeName(t reflect.Type) string {
	if t.Name() != "" {
		return t.Name()
	}
	return t.String()
}

// scribbleResult is what the receiver of a result does to it: he overwrites
// everything reachable, spare capacity included.
func scribbleResult(x interface{}, k float64) { scribV(reflect.ValueOf(x), k, 0) }

func scribV(v reflect.Value, k float64, depth int) {
	if !v.IsValid() || depth > 30 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scribV(v.Elem(), k, depth+1)
		}
	case reflect.Ptr:
		if !v.IsNil() && !v.Type().Implements(errType) {
			scribV(v.Elem(), k, depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			scribV(w.Index(i), k+float64(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribV(v.Index(i), k+float64(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribV(v.Field(i), k+float64(i)*17, depth+1)
		}
	case reflect.Map:
		if v.IsNil() || v.Type().Key().Kind() != reflect.String {
			return
		}
		for _, key := range v.MapKeys() {
			scribV(v.MapIndex(key), k, depth+1)
		}
		if v.Type().Elem().Kind() == reflect.Interface && v.Type().Elem().NumMethod() == 0 {
			v.SetMapIndex(reflect.ValueOf("\x00scribble").Convert(v.Type().Key()), reflect.ValueOf(k))
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(4.25e11 + k)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77 - int64(k))
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77 + uint64(k))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	}
}

var errPanic = errors.New("panic")
