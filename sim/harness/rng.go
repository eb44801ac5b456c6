package main

import "math"

// Rng is the only source of randomness of the harness (splitmix64).
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *Rng {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix(s ^ mix(p))
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range is uniform in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// F is uniform in [0,1).
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.F() < p }

// Pick returns an index drawn with the given weights.
func (r *Rng) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// Coordinate modes: chosen once per run, so that ties, touching edges and
// duplicates are common in some runs and absent in others.
const (
	cmTinyGrid = iota // integers 0..5
	cmGrid            // integers -20..20
	cmUnit            // quarter steps 0..10
	cmUniform         // floats +-1000
	cmCluster         // tight clusters far apart
	cmDegrees         // lon/lat
	cmBig             // +-1e8
	cmLine            // collinear
	cmFar             // floats far from the origin
	cmTiny            // floats next to the origin
	cmHuge            // floats whose squares, and differences, overflow
	cmThin            // collinear but for the last bit
	cmWorld           // lon/lat with the edges of the world
	cmCount
)

type coords struct {
	mode int
	cx   [5][2]float64
	sx   float64
}

func newCoords(r *Rng, mode int) *coords {
	c := &coords{mode: mode, sx: float64(r.Range(1, 4))}
	for i := range c.cx {
		c.cx[i] = [2]float64{r.F()*2000 - 1000, r.F()*2000 - 1000}
	}
	return c
}

func (c *coords) xy(r *Rng) (float64, float64) {
	switch c.mode {
	case cmTinyGrid:
		return float64(r.N(6)), float64(r.N(6))
	case cmGrid:
		return float64(r.Range(-20, 20)), float64(r.Range(-20, 20))
	case cmUnit:
		return float64(r.N(41)) / 4, float64(r.N(41)) / 4
	case cmUniform:
		return r.F()*2000 - 1000, r.F()*2000 - 1000
	case cmCluster:
		k := r.N(5)
		return c.cx[k][0] + r.F(), c.cx[k][1] + r.F()
	case cmDegrees:
		return r.F()*350 - 175, r.F()*160 - 80
	case cmWorld:
		edge := func(m float64) float64 {
			if r.P(0.3) {
				return []float64{m, -m, 0, math.Nextafter(m, 0), math.Copysign(0, -1), m / 2, -m / 2, m * 2}[r.N(8)]
			}
			return (r.F()*2 - 1) * m
		}
		return edge(180), edge(90)
	case cmFar:
		return c.cx[0][0]*3e9 + math.Floor(r.F()*2e9), c.cx[0][1]*3e9 - math.Floor(r.F()*2e9)
	case cmTiny:
		return (r.F()*2 - 1) * 1e-20, (r.F()*2 - 1) * 1e-20
	case cmHuge:
		m := c.scale() * 800
		return (r.F()*2 - 1) * m, (r.F()*2 - 1) * m
	case cmThin:
		x := c.cx[0][0]*0.1 + float64(r.N(40))*0.1
		y := x * c.cx[1][0] * 0.001
		if r.P(0.5) {
			y = math.Nextafter(y, float64(r.Range(-1, 1))*1e4)
		}
		return x, y
	case cmBig:
		return math.Floor((r.F()*2 - 1) * 1e8), math.Floor((r.F()*2 - 1) * 1e8)
	default:
		t := float64(r.Range(-30, 30)) / 2
		return t, t * c.sx
	}
}

// scale is a natural size for small features in this mode.
func (c *coords) scale() float64 {
	switch c.mode {
	case cmTinyGrid, cmUnit:
		return 2
	case cmGrid, cmLine:
		return 6
	case cmUniform:
		return 150
	case cmCluster:
		return 0.3
	case cmDegrees, cmWorld:
		return 2
	case cmFar:
		return 3e7
	case cmTiny:
		return 1e-21
	case cmThin:
		return 0.4
	case cmHuge:
		return []float64{2e152, 2e198, 2e305}[int(c.sx)%3]
	}
	return 1e6
}

func (c *coords) integral() bool { return c.mode <= cmGrid }
