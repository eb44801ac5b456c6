package main

import (
	"bytes"
	"container/heap"
	"fmt"
	"hash/crc32"
	"sort"
	"strconv"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"

	"geosim/simrt"
)

// ---- C16: a replicated geo service
//
// Node 0 takes updates, makes them durable as documents (encoded by the
// library) in a log on its own disk, applies them to its index, acknowledges,
// and ships them to replicas over a network that loses, repeats, delays,
// reorders and partitions. Nodes crash at I/O steps, restart, and rebuild their
// index from their documents. Discrete-event simulation: every event runs to
// its end or to the crash of its node.

// srec is a record of a log or snapshot. What it means (objs, id) is written
// beside the documents, so that recovery is judged without the library.
type srec struct {
	lsn  int
	kind byte // U update, D delete, S object of a snapshot, T tombstone of one, E its end
	objs []int
	id   string
	docs []byte
	sp   []geo.Spatial
}

func (c *srec) bytes() []byte {
	h := fmt.Sprintf("%d %c %v %q %d", c.lsn, c.kind, strings.Trim(fmt.Sprint(c.objs), "[]"), c.id, len(c.docs))
	h = strings.ReplaceAll(h, "\n", " ")
	return append(append([]byte(fmt.Sprintf("%08x %s\n", crc32.ChecksumIEEE([]byte(h)), h)), c.docs...), '\n')
}

// parseRec reads one record; nil when there is no whole one.
func parseRec(b []byte) (*srec, []byte) {
	i := bytes.IndexByte(b, '\n')
	if i < 10 {
		return nil, nil
	}
	h := string(b[9:i])
	if string(b[:9]) != fmt.Sprintf("%08x ", crc32.ChecksumIEEE([]byte(h))) {
		return nil, nil
	}
	c := &srec{}
	q := strings.IndexByte(h, '"')
	f := strings.Fields(h[:q])
	c.lsn, _ = strconv.Atoi(f[0])
	c.kind = f[1][0]
	for _, x := range f[2:] {
		v, _ := strconv.Atoi(x)
		c.objs = append(c.objs, v)
	}
	var n int
	e := strings.LastIndexByte(h, ' ')
	c.id, _ = strconv.Unquote(h[q:e])
	n, _ = strconv.Atoi(h[e+1:])
	b = b[i+1:]
	if len(b) < n+1 || b[n] != '\n' {
		return nil, nil
	}
	c.docs = b[:n:n]
	return c, b[n+1:]
}

type nodeCrash struct{}

type snode struct {
	sv    *service
	id    int
	w     *world
	up    bool
	inc   int
	disk  *simDisk
	snap  int   // file of the snapshot, -1
	segs  []int // closed and current log files, oldest first
	seg   int   // file being appended to, -1
	ver   map[string]int
	have  map[int]bool
	upto  int // every update up to here is applied
	log   map[int]*srec
	late  map[int]*srec // received out of order
	stall int
	armed int // I/O calls until a crash
	down  int // how long
	ticks int
}

type sevent struct {
	at, seq, node int
	f             func()
}

type sheap []*sevent

func (h sheap) Len() int { return len(h) }
func (h sheap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h sheap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *sheap) Push(x interface{}) { *h = append(*h, x.(*sevent)) }
func (h *sheap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type service struct {
	r      *run
	st     *Stats
	p      *Plan
	nodes  []*snode
	now    int
	seq    int
	q      sheap
	wktDoc bool
	order  bool // replicas apply in order; otherwise last writer by number wins
	calm   bool // faults have stopped
	cut    []int
	heard  []int // last known position of each replica, -1 unknown
	hinc   []int
	sent   map[[2]int]int
	acked  map[int]bool
	batch  map[int]string // what the update of a number is, as first made durable
	rng    *Rng
	trace  uint64
	asked  int
	conv   int
	rec    int
	over   bool
	phase0 int
}

func (s *service) at(t, node int, f func()) {
	s.seq++
	heap.Push(&s.q, &sevent{t, s.seq, node, f})
}

func (s *service) hit(r *Rng, pct string) bool { return !s.calm && r.N(100) < s.p.Cfg[pct] }

// send delivers f at node to, unless the network does not.
func (s *service) send(from, to int, key string, f func()) {
	r := newRng(s.p.Seed, uint64(s.p.Index), hashStr(key))
	n := 1
	switch {
	case s.hit(r, "loss"):
		n = 0
		s.st.C["fault:message-lost"]++
	case s.hit(r, "dup"):
		n = 2
		s.st.C["fault:message-duplicated"]++
	}
	for ; n > 0; n-- {
		d := 1 + r.N(3)
		if s.hit(r, "delay") {
			d += r.N(40)
			s.st.C["fault:message-delayed"]++
		}
		s.at(s.now+d, to, func() {
			link := to + from // node 0 is always one end
			if !s.calm && s.now < s.cut[link] {
				s.st.C["fault:message-cut-off"]++
				return
			}
			if n := s.nodes[to]; n.up {
				f()
			}
		})
	}
	s.st.C["message"]++
}

// ---- node: storage

func (n *snode) crash() {
	n.disk.crash(newRng(n.sv.p.Seed, uint64(n.id), uint64(n.inc), 31))
	n.die()
}

func (n *snode) die() {
	n.up, n.armed, n.inc = false, 0, n.inc+1
	n.w, n.log, n.late, n.have, n.ver = nil, nil, nil, nil, nil
	n.seg = -1
	d := n.down
	if d < 1 {
		d = 5
	}
	n.sv.at(n.sv.now+d, n.id, func() { n.start() })
}

// io counts an I/O step, at which the node may crash.
func (n *snode) io() {
	if n.armed > 0 && !n.sv.calm {
		n.armed--
		if n.armed == 0 {
			n.sv.st.C["fault:crash-in-io"]++
			n.crash()
			panic(nodeCrash{})
		}
	}
}

// append makes bytes durable at the end of a file.
func (n *snode) append(f int, b []byte) error {
	r := newRng(n.sv.p.Seed, uint64(n.id), uint64(n.inc), uint64(f), uint64(len(n.disk.files[f].cache)))
	for off := 0; off < len(b); {
		e := off + 256
		if r.P(0.3) {
			e = off + 1 + r.N(100)
		}
		if e > len(b) {
			e = len(b)
		}
		n.io()
		k, err := n.disk.write(n.disk.epoch, f, b[off:e], r)
		if err != nil {
			return err
		}
		off += k
	}
	n.io()
	return n.disk.sync(n.disk.epoch, f, r)
}

// persist writes a record to the log; after repeated failure the node gives up
// and restarts.
func (n *snode) persist(c *srec) {
	for try := 0; try < 3; try++ {
		if n.seg < 0 {
			n.seg = n.disk.create()
			n.segs = append(n.segs, n.seg)
		}
		if n.append(n.seg, c.bytes()) == nil {
			return
		}
		n.seg = -1
	}
	n.sv.st.C["outcome:fail-stop"]++
	n.crash()
	panic(nodeCrash{})
}

func (n *snode) readAll(f int) []byte {
	r := newRng(n.sv.p.Seed, uint64(n.id), uint64(n.inc), uint64(f), 77)
	var b []byte
	buf := make([]byte, 64+r.N(4000))
	for {
		n.io()
		k, _ := n.disk.read(f, len(b), buf, r)
		if k == 0 {
			return b
		}
		b = append(b, buf[:k]...)
	}
}

// ---- node: documents

func (n *snode) lib(k string, f func()) bool {
	return n.sv.r.lib(&Op{K: k}, f)
}

// encode makes the documents of some objects.
func (n *snode) encode(objs []geo.Spatial) []byte {
	var out []byte
	bad := func(err error) {
		n.sv.r.fail(0, "not-encoded", "%v", err)
	}
	n.lib("encode", func() {
		if n.sv.wktDoc {
			for _, o := range objs {
				out = append(append(out, wkt.Encode(o.Geom)...), ';')
			}
			return
		}
		var fs []*geojson.Feature
		for _, o := range objs {
			f := geojson.NewFeature(o.Geom)
			f.ID = o.ID
			f.SetProperty("seq", o.Properties)
			f.SetBoundingBox()
			fs = append(fs, f)
		}
		var err error
		if len(fs) == 1 {
			out, err = fs[0].MarshalJSON()
		} else {
			c := geojson.NewFeatureCollection()
			for _, f := range fs {
				c.AddFeature(f)
			}
			out, err = c.MarshalJSON()
		}
		if err != nil {
			bad(err)
		}
	})
	return out
}

// decode reads the documents of a record; an error means that they are not whole.
func (n *snode) decode(c *srec) (out []geo.Spatial, err error) {
	objs := n.sv.p.Objs
	b := append([]byte(nil), c.docs...)
	n.lib("decode", func() {
		if n.sv.wktDoc {
			ds := strings.Split(string(b), ";")
			if len(ds) != len(c.objs)+1 {
				err = fmt.Errorf("%d documents", len(ds)-1)
				return
			}
			for i, x := range c.objs {
				g, e := wkt.Decode(ds[i])
				if e != nil {
					err = e
					return
				}
				out = append(out, geo.Spatial{ID: objs[x].ID, Properties: objs[x].Seq, Geom: g})
			}
			return
		}
		var fs []*geojson.Feature
		if len(c.objs) == 1 {
			f, e := geojson.UnmarshalFeature(b)
			if e != nil {
				err = e
				return
			}
			fs = append(fs, f)
		} else {
			fc, e := geojson.UnmarshalFeatureCollection(b)
			if e != nil {
				err = e
				return
			}
			fs = fc.Features
		}
		for _, f := range fs {
			if f == nil || f.GeometryJson == nil {
				err = fmt.Errorf("no feature or no geometry")
				return
			}
			g, e := geojson.UnmarshalGeo(f.GeometryJson)
			if e != nil {
				err = e
				return
			}
			seq, e := f.PropertyInt("seq")
			if e != nil {
				err = e
				return
			}
			id, _ := f.ID.(string)
			out = append(out, geo.Spatial{ID: id, Properties: seq, Geom: g})
		}
	})
	for i := range b {
		b[i] = '#' // the buffer is reused
	}
	if err == nil && !n.sv.r.failed() {
		// complete and as written?
		bad := ""
		if len(out) != len(c.objs) {
			bad = fmt.Sprintf("%d objects, written %d", len(out), len(c.objs))
		} else {
			for i, x := range c.objs {
				if out[i].ID != objs[x].ID || out[i].Properties != objs[x].Seq || !eqGeom(specOf(out[i].Geom), objs[x].G) {
					bad = fmt.Sprintf("object ID %q seq %v %s, written ID %q seq %d %s", out[i].ID, out[i].Properties, specOf(out[i].Geom), objs[x].ID, objs[x].Seq, objs[x].G)
					break
				}
			}
		}
		if bad != "" {
			n.sv.r.fail(0, "different-document", "node %d reads %s from %q", n.id, bad, head(string(c.docs), 300))
		}
	}
	return
}

// ---- node: index

func (n *snode) build(objs []geo.Spatial) bool {
	w := n.w
	return n.lib("build", func() {
		switch w.mode {
		case 1:
			w.tree = geo.NewTree(objs...)
		case 2:
			w.tree = geo.NewTreeWith(objs...)
		default:
			w.tree = geo.NewMinMaxTree(w.minC, w.maxC, objs...)
		}
	})
}

func (n *snode) forget() {
	n.w = newWorld(n.sv.r)
	n.ver, n.have, n.upto = map[string]int{}, map[int]bool{}, 0
	n.log, n.late = map[int]*srec{}, map[int]*srec{}
}

// apply brings an update, already durable and decoded, into the index.
func (n *snode) apply(c *srec) {
	w := n.w
	lww := !n.sv.order && n.id > 0
	op := &Op{K: "apply"}
	touched := map[string]bool{}
	if c.kind == 'D' {
		if !lww || c.lsn > n.ver[c.id] {
			was := 0
			for i := range w.objs {
				if w.objs[i].ID == c.id {
					was += w.count[i]
					w.count[i] = 0
				}
			}
			w.size -= was
			var got bool
			if !n.lib("delete", func() { got = w.tree.DeleteBySpatialID(c.id) }) {
				return
			}
			if got != (was > 0) {
				n.sv.r.fail(0, "wrong-return:delid", "node %d: deleting by ID %q reported %v, %d stored", n.id, c.id, got, was)
			}
			n.ver[c.id] = c.lsn
			touched[c.id] = true
		}
	} else {
		var batch []geo.Spatial
		var which []int
		for k, x := range c.objs {
			id := w.objs[x].ID
			if lww && c.lsn < n.ver[id] {
				continue
			}
			batch = append(batch, c.sp[k])
			which = append(which, x)
			touched[id] = true
		}
		if len(batch) > 0 && !n.lib("upsert", func() { w.tree.UpsertBySpatialID(batch...) }) {
			return
		}
		for i := range batch {
			batch[i] = geo.Spatial{ID: "caller's slice"}
		}
		for _, x := range which {
			for j := range w.objs {
				if w.objs[j].ID == w.objs[x].ID {
					w.size -= w.count[j]
					w.count[j] = 0
				}
			}
			w.count[x] = 1
			w.size++
			n.ver[w.objs[x].ID] = c.lsn
		}
	}
	w.checkSize(op)
	for id := range touched {
		if len(touched) < 4 {
			w.checkID(op, id)
		}
	}
	n.got(c)
}

func (n *snode) got(c *srec) {
	n.have[c.lsn] = true
	for n.have[n.upto+1] {
		n.upto++
	}
	if n.id == 0 {
		n.log[c.lsn] = c
	}
}

// start is the recovery of a node.
func (n *snode) start() {
	s := n.sv
	n.up = true
	n.forget()
	s.rec++
	r := newRng(s.p.Seed, uint64(n.id), uint64(n.inc), 41)
	var objs []geo.Spatial
	base := 0
	if n.snap >= 0 {
		whole := false
		for b := n.readAll(n.snap); len(b) > 0; {
			var c *srec
			if c, b = parseRec(b); c == nil {
				break
			}
			switch c.kind {
			case 'S':
				sp, err := n.decode(c)
				if err != nil {
					s.r.fail(0, "lost-document", "node %d: document %q of a complete snapshot does not decode: %v", n.id, head(string(c.docs), 300), err)
				}
				if s.r.failed() {
					return
				}
				objs = append(objs, sp[0])
				x := c.objs[0]
				n.w.count[x], n.w.size = 1, n.w.size+1
				n.ver[n.w.objs[x].ID] = c.lsn
			case 'T':
				n.ver[c.id] = c.lsn
			case 'E':
				whole = true
				base = c.lsn
				for i := 1; i <= c.lsn; i++ {
					n.have[i] = true
				}
				for _, l := range c.objs {
					n.have[l] = true
				}
			}
		}
		if !whole {
			harnessBug("a synced snapshot is incomplete")
		}
		for n.have[n.upto+1] {
			n.upto++
		}
	}
	var recs []*srec
	for _, f := range n.segs {
		for b := n.readAll(f); len(b) > 0; {
			var c *srec
			if c, b = parseRec(b); c == nil {
				break
			}
			if c.kind == 'U' {
				var err error
				if c.sp, err = n.decode(c); err != nil {
					if n.id == 0 && s.acked[c.lsn] && c.lsn > base && !n.later(recs, f, c.lsn) {
						s.r.fail(0, "lost-document", "acknowledged update %d, documents %q, does not decode: %v", c.lsn, head(string(c.docs), 300), err)
					}
					break // torn: the rest of this file was not durable either
				}
			}
			if s.r.failed() {
				return
			}
			recs = append(recs, c)
		}
	}
	// Either everything is loaded in bulk, or the snapshot is, and the log replayed.
	bulk := r.P(0.4) && !s.r.failed()
	if bulk && (n.id == 0 || s.order) {
		// the documents that are current after the log
		cur := map[string]geo.Spatial{}
		for _, o := range objs {
			cur[o.ID] = o
		}
		for _, c := range recs {
			if c.kind == 'D' {
				delete(cur, c.id)
				n.ver[c.id] = c.lsn
			}
			for k, x := range c.objs {
				cur[n.w.objs[x].ID] = c.sp[k]
				n.ver[n.w.objs[x].ID] = c.lsn
			}
			n.got(c)
		}
		var ids []string
		for id := range cur {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for i := len(ids) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
		objs = nil
		for i := range n.w.count {
			n.w.count[i] = 0
		}
		n.w.size = 0
		for _, id := range ids {
			o := cur[id]
			objs = append(objs, o)
			n.w.count[n.w.seqIx[o.Properties.(int)]] = 1
			n.w.size++
		}
		recs = nil
	}
	if len(objs) > n.w.maxC {
		s.st.C["outcome:bulk-load"]++
	}
	if s.r.failed() || !n.build(objs) {
		return
	}
	for _, c := range recs {
		if s.r.failed() {
			return
		}
		n.apply(c)
	}
	if n.id == 0 {
		for l := range s.acked {
			if !n.have[l] {
				harnessBug(fmt.Sprintf("acknowledged update %d is not in the recovered log", l))
			}
		}
		for l := range n.have {
			if l > n.upto {
				harnessBug("gap in the log of the primary")
			}
		}
		for i := 1; i < len(s.heard); i++ {
			s.heard[i] = -1
		}
	}
	if !s.r.failed() {
		n.w.do(&Op{ID: n.inc, K: "full"})
	}
}

// later reports whether an update was written again, whole, to a later file.
func (n *snode) later(recs []*srec, f, lsn int) bool {
	for _, c := range recs {
		if c.lsn == lsn {
			return true
		}
	}
	for _, g := range n.segs {
		if g <= f {
			continue
		}
		for b := n.disk.files[g].cache; len(b) > 0; {
			var c *srec
			if c, b = parseRec(b); c == nil {
				break
			}
			if c.lsn == lsn {
				return true
			}
		}
	}
	return false
}

// snapshot writes all documents, taken from the index, to a new file.
func (n *snode) snapshot(keep bool) {
	recs := n.dump()
	if n.sv.r.failed() {
		return
	}
	if !n.install(recs) {
		return
	}
	k := len(n.segs)
	if keep && k > 0 {
		k = n.sv.rng.N(k)
	}
	if k > 0 && n.segs[k-1] == n.seg {
		n.seg = -1
	}
	n.segs = append([]int(nil), n.segs[k:]...)
	if n.id == 0 && !keep {
		n.log = map[int]*srec{}
	}
}

// dump exports the contents of the index.
func (n *snode) dump() []*srec {
	w := n.w
	var all []geo.Spatial
	op := &Op{K: "dump"}
	if !n.lib("dump", func() { all = w.tree.SearchIntersect(everything()) }) {
		return nil
	}
	if !w.checkSet(op, "export of everything", all, func(int) bool { return true }) {
		return nil
	}
	live := map[string]bool{}
	var recs []*srec
	for _, o := range all {
		x := w.seqIx[o.Properties.(int)]
		live[o.ID] = true
		recs = append(recs, &srec{lsn: n.ver[o.ID], kind: 'S', objs: []int{x}, docs: n.encode([]geo.Spatial{o})})
	}
	var ids []string
	for id := range n.ver {
		if !live[id] {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		recs = append(recs, &srec{lsn: n.ver[id], kind: 'T', id: id})
	}
	end := &srec{lsn: n.upto, kind: 'E'}
	for l := range n.have {
		if l > n.upto {
			end.objs = append(end.objs, l)
		}
	}
	sort.Ints(end.objs)
	return append(recs, end)
}

func (n *snode) install(recs []*srec) bool {
	f := n.disk.create()
	var b []byte
	for _, c := range recs {
		b = append(b, c.bytes()...)
	}
	if n.append(f, b) != nil {
		return false // try another time
	}
	n.snap = f
	n.sv.st.C["outcome:snapshot"]++
	return true
}

// ---- primary

// update is a client's request.
func (s *service) update(op *Op) {
	n := s.nodes[0]
	if !n.up {
		s.st.C["outcome:unavailable"]++
		return
	}
	c := &srec{lsn: n.upto + 1, kind: 'U'}
	if op.K == "rm" {
		c.kind, c.id = 'D', op.s(0)
	} else {
		for _, x := range op.N[1:] {
			if x < len(s.p.Objs) {
				c.objs = append(c.objs, x)
				c.sp = append(c.sp, s.p.Objs[x].spatial())
			}
		}
		if len(c.objs) == 0 {
			return
		}
		c.docs = n.encode(c.sp)
	}
	if s.r.failed() {
		return
	}
	n.persist(c)
	s.acked[c.lsn] = true
	n.apply(c)
}

// tick ships what replicas lack.
func (s *service) tick() {
	n := s.nodes[0]
	if n.up {
		n.ticks++
		for i := 1; i < len(s.nodes); i++ {
			if s.heard[i] < 0 {
				continue
			}
			for l := s.heard[i] + 1; l <= n.upto && l <= s.heard[i]+6; l++ {
				c := n.log[l]
				s.sent[[2]int{i, l}]++
				key := fmt.Sprintf("u %d %d %d", i, l, s.sent[[2]int{i, l}])
				if c == nil {
					recs := n.dump()
					if s.r.failed() {
						return
					}
					i := i
					s.st.C["outcome:snapshot-sent"]++
					s.send(0, i, key, func() { s.nodes[i].takeSnapshot(recs) })
					break
				}
				cc, i := *c, i
				if s.sent[[2]int{i, l}] > 1 {
					s.st.C["fault:redelivered-update"]++
				}
				s.send(0, i, key, func() { s.nodes[i].receive(&cc) })
			}
		}
	}
	if !s.over {
		s.at(s.now+10, 0, s.tick)
	}
}

// ---- replicas

func (n *snode) beat() {
	s := n.sv
	n.ticks++
	if n.up {
		inc, upto := n.inc, n.upto
		s.send(n.id, 0, fmt.Sprintf("h %d %d", n.id, n.ticks), func() {
			if inc > s.hinc[n.id] || inc == s.hinc[n.id] && upto > s.heard[n.id] {
				s.hinc[n.id], s.heard[n.id] = inc, upto
			} else if s.heard[n.id] < 0 {
				s.heard[n.id] = upto
			}
		})
	}
	if !s.over {
		s.at(s.now+10, n.id, n.beat)
	}
}

func (n *snode) receive(c *srec) {
	s := n.sv
	if n.have[c.lsn] {
		s.st.C["outcome:duplicate-refused"]++
		return
	}
	if s.order && c.lsn != n.upto+1 {
		if len(n.late) < 8 {
			n.late[c.lsn] = c
			s.st.C["outcome:out-of-order"]++
		}
		return
	}
	for c != nil && !s.r.failed() {
		if c.kind == 'U' {
			var err error
			if c.sp, err = n.decode(c); err != nil {
				s.r.fail(0, "lost-document", "node %d: documents %q of update %d do not decode: %v", n.id, head(string(c.docs), 300), c.lsn, err)
				return
			}
		}
		if s.r.failed() {
			return
		}
		n.persist(&srec{lsn: c.lsn, kind: c.kind, objs: c.objs, id: c.id, docs: c.docs})
		n.apply(c)
		c = nil
		if s.order {
			c = n.late[n.upto+1]
			delete(n.late, n.upto+1)
		}
	}
}

func (n *snode) takeSnapshot(recs []*srec) {
	if recs[len(recs)-1].lsn <= n.upto {
		return
	}
	if !n.install(recs) {
		return
	}
	n.segs, n.seg = nil, -1
	inc := n.inc
	n.start()
	n.inc = inc
}

// ---- the run

func (s *service) op(o *Op) {
	s.st.C["op:"+o.K]++
	node := s.nodes[0]
	if o.K != "put" && o.K != "rm" {
		node = s.nodes[o.n(1)%len(s.nodes)]
	}
	switch o.K {
	case "put", "rm":
		s.update(o)
	case "snap":
		if node.up {
			node.snapshot(o.n(2)%2 == 0)
		}
	case "crash":
		if node.up {
			node.down = o.n(2)
			node.crash()
		}
	case "crashio":
		if node.up {
			node.armed, node.down = o.n(2), o.n(3)
		}
	case "wipe":
		if node.up && node.id > 0 {
			s.st.C["fault:disk-lost"]++
			node.down = o.n(2)
			node.disk.files, node.segs, node.snap = nil, nil, -1
			node.die()
		}
	case "part":
		if node.id > 0 {
			s.st.C["fault:partition"]++
			s.cut[node.id] = s.now + o.n(2)
		}
	case "stall":
		s.st.C["fault:node-stalled"]++
		node.stall = s.now + o.n(2)
	default:
		if node.up {
			s.asked++
			q := *o
			q.N = o.N[2:]
			node.w.do(&q)
		}
	}
}

func (s *service) end() {
	s.calm = true
	s.phase0 = s.now
	for _, n := range s.nodes {
		n.disk.faults = false
		n.disk.room = 1 << 30
		n.armed = 0
		n.stall = 0
	}
	s.at(s.now+1, -1, s.watch)
}

// watch waits for convergence.
func (s *service) watch() {
	done := true
	for _, n := range s.nodes {
		if !n.up || n.upto != s.nodes[0].upto {
			done = false
		}
	}
	if done {
		s.conv = s.now - s.phase0
		s.over = true
		for _, n := range s.nodes[1:] {
			for i := range n.w.count {
				if n.w.count[i] != s.nodes[0].w.count[i] {
					harnessBug(fmt.Sprintf("the models of nodes 0 and %d differ after convergence", n.id))
				}
			}
		}
		for _, n := range s.nodes {
			if s.r.failed() {
				return
			}
			n.w.do(&Op{ID: 1, K: "full"})
			for t := range s.p.Tasks {
				for k := range s.p.Tasks[t] {
					o := s.p.Tasks[t][k]
					switch o.K {
					case "box", "id", "nn", "size", "cond":
						o.N = o.N[2:]
						if !s.r.failed() {
							n.w.do(&o)
						}
					}
				}
			}
		}
		if !s.r.failed() {
			s.nodes[0].w.finalNote()
		}
		return
	}
	if s.now-s.phase0 > 400+20*(s.nodes[0].upto+10) {
		var l []int
		for _, n := range s.nodes {
			l = append(l, n.upto)
		}
		s.r.fail(0, "no-convergence", "long after the faults stopped the nodes have reached updates %v", l)
		return
	}
	s.at(s.now+5, -1, s.watch)
}

func execService(p *Plan, st *Stats) *Violation {
	r := newRun(p, st)
	s := &service{r: r, st: st, p: p, wktDoc: p.Cfg["wkt"] > 0, order: p.Cfg["order"] > 0,
		sent: map[[2]int]int{}, acked: map[int]bool{}, rng: newRng(p.Seed, uint64(p.Index), 61)}
	nn := 1 + p.Cfg["replicas"]
	s.cut, s.heard, s.hinc = make([]int, nn), make([]int, nn), make([]int, nn)
	for i := 0; i < nn; i++ {
		n := &snode{sv: s, id: i, snap: -1, seg: -1}
		n.disk = &simDisk{st: st, faults: true, every: p.Cfg["every"], room: 1 << 30}
		if p.Cfg["room"] > 0 {
			n.disk.room = p.Cfg["room"]
		}
		s.heard[i] = -1
		s.nodes = append(s.nodes, n)
		s.at(0, i, n.start)
		if i > 0 {
			s.at(1+i, i, n.beat)
		}
	}
	s.at(5, 0, s.tick)
	last := 0
	for t := range p.Tasks {
		for k := range p.Tasks[t] {
			o := &p.Tasks[t][k]
			nd := o.n(1)
			if o.K == "put" || o.K == "rm" {
				nd = 0
			}
			if o.n(0) > last {
				last = o.n(0)
			}
			s.at(o.n(0), nd%nn, func() { s.op(o) })
		}
	}
	s.at(last+20, -1, s.end)
	pts := 0
	for i := range p.Objs {
		pts += p.Objs[i].G.npoints()
	}
	// one event may replace every object, each found by looking at all the others
	limit := 1<<25 + 200*len(p.Objs)*(8*len(p.Objs)+pts)
	for s.q.Len() > 0 && !r.failed() && !s.over {
		e := heap.Pop(&s.q).(*sevent)
		if e.at > s.now {
			s.now = e.at
		}
		if e.node >= 0 && !s.calm && s.nodes[e.node].stall > s.now {
			s.at(s.nodes[e.node].stall, e.node, e.f)
			continue
		}
		s.trace = mix(s.trace ^ uint64(e.seq)<<20 ^ uint64(s.now))
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(nodeCrash); ok {
						return
					}
					if sl, ok := x.(simrt.StepLimit); ok {
						r.fail(0, "no-progress:event", "%v", sl)
						return
					}
					panic(x)
				}
			}()
			simrt.Solo(limit, e.f)
		}()
	}
	var up []string
	for _, n := range s.nodes {
		up = append(up, fmt.Sprint(n.upto))
	}
	st.Digest = mix(st.Digest ^ s.trace)
	st.note(fmt.Sprint(up, s.asked, s.conv))
	st.add("outcome:recoveries", s.rec-nn)
	st.add("outcome:acknowledged", len(s.acked))
	st.add("simulated-ticks", s.now)
	st.Nontrivial = len(s.acked) > 1 && s.rec > nn
	return r.finish()
}

type c16 struct{}

func (c16) ID() string { return "C16" }
func (c16) Runs(t string) int {
	if t == "thorough" {
		return 2000000
	}
	return 60000
}

func (c16) Gen(r *Rng, idx int) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	n := r.Range(3, 40)
	if r.P(0.08) {
		n = r.Range(60, 150)
	}
	huge := r.P(0.006)
	if huge {
		n = r.Range(150, 420)
	}
	g := newIndexGen(r, p, n, true)
	g.config()
	p.Cfg["wkt"] = r.N(2)
	types := []string{"Point", "LineString", "Polygon", "PointZ", "LineStringZ", "PolygonZ"}
	if p.Cfg["wkt"] > 0 {
		types = allTypes
	} else if r.P(0.5) {
		types = types[:1]
	}
	p.Objs = p.Objs[:0]
	ids := r.Range(2, n/2+2)
	if huge {
		ids = n * r.Range(1, 3)
	}
	idForms := []string{"o", "é ", "a\"b", "x;y"}
	if r.P(0.2) { // like numbers
		idForms = []string{"0", "", "1e", "-"}
	}
	pts := 5
	if r.P(0.03) {
		pts = 60
	}
	for i := 0; i < n; i++ {
		p.Objs = append(p.Objs, Obj{Seq: i + 1, ID: fmt.Sprintf("%s%d", idForms[r.N(4)%(1+i%4)], r.N(ids)),
			G: g.c.gen(r, types[r.N(len(types))], pts)})
	}
	p.Cfg["order"] = r.N(2)
	p.Cfg["replicas"] = r.Pick(1, 3, 3)
	p.Cfg["every"] = []int{0, 0, 6, 20, 60}[r.N(5)]
	p.Cfg["loss"] = []int{0, 5, 20, 40}[r.N(4)]
	p.Cfg["dup"] = []int{0, 10, 30}[r.N(3)]
	p.Cfg["delay"] = []int{0, 10, 50}[r.N(3)]
	if r.P(0.05) {
		p.Cfg["room"] = r.Range(500, 20000)
	}
	big := n >= 60
	var cl, fl []Op
	t := 10
	for at := 0; huge && at < n; { // most of it soon
		o := p.op("put")
		o.N = []int{t}
		for m := r.Range(1, n); m > 0 && at < n; m-- {
			o.N = append(o.N, at)
			at++
		}
		t += r.N(20)
		cl = append(cl, o)
	}
	for k := r.Range(3, 30); k > 0; k-- {
		t += r.N(20)
		var o Op
		switch r.Pick(8, 3, 2, 2, 2, 1) {
		case 0:
			o = p.op("put")
			o.N = []int{t}
			m := r.Pick(0, 5, 3, 2, 1)
			if big {
				m = r.Range(3, 40)
			}
			for ; m > 0; m-- {
				o.N = append(o.N, r.N(n))
			}
			g.model[o.N[len(o.N)-1]] = 1
			g.setLive()
		case 1:
			o = p.op("rm")
			o.N, o.S = []int{t}, []string{p.Objs[r.N(n)].ID}
		default:
			q := g.gen([]string{"box", "id", "nn", "size", "cond"}[r.N(5)])
			q.N = append([]int{t, r.N(4)}, q.N...)
			o = q
		}
		cl = append(cl, o)
	}
	end := t + 30
	for k := r.Range(0, 8); k > 0; k-- {
		var o Op
		at := r.Range(5, end)
		nd := r.N(3)
		switch r.Pick(4, 4, 3, 2, 3, 1) {
		case 0:
			o = p.op("crash")
			o.N = []int{at, nd, r.Range(1, 60)}
		case 1:
			o = p.op("crashio")
			o.N = []int{at, nd, r.Range(1, 12), r.Range(1, 60)}
		case 2:
			o = p.op("part")
			o.N = []int{at, nd, r.Range(10, 150)}
		case 3:
			o = p.op("stall")
			o.N = []int{at, nd, r.Range(5, 60)}
		case 4:
			o = p.op("snap")
			o.N = []int{at, nd, r.N(2)}
		default:
			o = p.op("wipe")
			o.N = []int{at, nd, r.Range(1, 40)}
		}
		fl = append(fl, o)
	}
	p.Tasks = [][]Op{cl, fl}
	return p
}

func (c16) Exec(p *Plan, st *Stats) *Violation { return execService(p, st) }
func (c16) Real() []string {
	return []string{"github.com/hzw456/go-geo (index, geometry types), go-geo/geojson and go-geo/wkt: every statement, from the current tree", "encoding/json, regexp, strconv"}
}
func (c16) Stub() []string {
	return []string{"the service around the library: log, snapshots, replication, recovery (harness)", "disks: append-only files with page cache, fsync and crash semantics, one per node", "network: loss, duplication, delay, reordering, partition", "clock: discrete events"}
}
func (c16) Rule() string {
	return "a run sends 3-30 updates and queries to a primary with 0-2 replicas, each with a simulated disk, connected by a simulated network, with crashes (at events and at I/O steps), restarts, snapshots, lost disks, partitions and stalls; every recovery and the converged end are compared with an exact model; non-trivial when more than one update was acknowledged and at least one node recovered from its documents; states are hashes of (contents, depth, listed boxes) of the primary at the end"
}

func init() {
	register(c16{})
}
