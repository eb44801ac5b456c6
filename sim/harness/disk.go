package main

import (
	"errors"

	"geosim/simrt"
)

// ---- simulated disk
//
// Files are append-only. A write goes to the page cache; fsync makes everything
// written so far durable. At a crash every file keeps its durable bytes and any
// prefix of the rest, of which blocks may be lost (read as zeros).

var (
	errCrashed = errors.New("crashed")
	errIO      = errors.New("input/output error")
	errNoSpace = errors.New("no space left on device")
)

type sfile struct {
	cache []byte
	dur   int // durable length
}

type simDisk struct {
	files  []*sfile
	epoch  int
	room   int // bytes left
	st     *Stats
	faults bool
	every  int // a fault is drawn with probability 1/every per call
}

func (d *simDisk) create() int {
	d.files = append(d.files, &sfile{})
	return len(d.files) - 1
}

func (d *simDisk) hit(r *Rng) bool { return d.faults && d.every > 0 && r.N(d.every) == 0 }

// yield lets others run: a slow device takes longer.
func (d *simDisk) yield(r *Rng) {
	n := 1
	if d.hit(r) {
		n = r.Range(2, 30)
		d.st.C["fault:slow-io"]++
	}
	for ; n > 0; n-- {
		simrt.Y(0)
	}
}

func (d *simDisk) write(ep, f int, b []byte, r *Rng) (int, error) {
	d.yield(r)
	if ep != d.epoch {
		return 0, errCrashed
	}
	n := len(b)
	var err error
	if d.hit(r) {
		n = r.N(n + 1)
		switch r.N(3) {
		case 0:
			d.st.C["fault:short-write"]++
		case 1:
			err = errIO
			d.st.C["fault:write-EIO"]++
		default:
			err = errNoSpace
			d.st.C["fault:ENOSPC"]++
		}
	}
	if d.faults && n > d.room {
		n, err = d.room, errNoSpace
		d.st.C["fault:disk-full"]++
	}
	d.room -= n
	s := d.files[f]
	s.cache = append(s.cache, b[:n]...)
	return n, err
}

func (d *simDisk) sync(ep, f int, r *Rng) error {
	d.yield(r)
	if ep != d.epoch {
		return errCrashed
	}
	s := d.files[f]
	if d.hit(r) {
		// some of it may have reached the disk; the program cannot know
		s.dur += r.N(len(s.cache) - s.dur + 1)
		d.st.C["fault:fsync-EIO"]++
		return errIO
	}
	s.dur = len(s.cache)
	return nil
}

func (d *simDisk) read(f, off int, b []byte, r *Rng) (int, error) {
	d.yield(r)
	s := d.files[f]
	if off >= len(s.cache) {
		return 0, nil
	}
	n := copy(b, s.cache[off:])
	if d.hit(r) && n > 1 {
		n = r.Range(1, n-1)
		d.st.C["fault:short-read"]++
	}
	return n, nil
}

// crash loses what is not durable.
func (d *simDisk) crash(r *Rng) {
	d.epoch++
	d.st.C["fault:crash"]++
	for _, s := range d.files {
		tail := len(s.cache) - s.dur
		if tail == 0 {
			continue
		}
		keep := 0
		switch r.N(4) {
		case 0:
		case 1:
			keep = tail
		case 2:
			keep = tail - 1
		default:
			keep = r.N(tail + 1)
		}
		if keep < tail {
			d.st.C["fault:lost-tail"]++
		}
		s.cache = s.cache[:s.dur+keep]
		if keep > 0 && r.P(0.3) {
			bs := []int{1, 4, 16, 64}[r.N(4)]
			for o := 0; o < keep; o += bs {
				if r.P(0.3) {
					for k := s.dur + o; k < s.dur+o+bs && k < len(s.cache); k++ {
						s.cache[k] = 0
					}
					d.st.C["fault:torn-block"]++
				}
			}
		}
		s.dur = len(s.cache)
	}
}
