package simrt

import "reflect"

// Channels of the library. Operations that would block are scheduling decisions;
// the transfer itself uses the real channel, so the race detector sees the same
// edges. A channel without buffer gets one slot, and its senders wait until the
// value has been taken.

var chanKey int32

type chanSlot struct {
	p          uintptr
	sent, got  int64
	ev         int32
	registered bool
}

var (
	chans  [512]chanSlot
	nChans int
)

//go:norace
func chanSlotOf(p uintptr) *chanSlot {
	for i := 0; i < len(chans) && i < nChans; i++ {
		if chans[i].registered && chans[i].p == p {
			return &chans[i]
		}
	}
	return nil
}

//go:norace
func chanRegister(p uintptr) {
	s := chanSlotOf(p)
	if s == nil {
		s = &chans[nChans%len(chans)]
		nChans++
	}
	*s = chanSlot{p: p, registered: true}
}

//go:norace
func chanForget(p uintptr) {
	if s := chanSlotOf(p); s != nil {
		s.registered = false
	}
}

func ptrOf(ch interface{}) uintptr { return reflect.ValueOf(ch).Pointer() }

// Unbuf notes that c was made without buffer (and got one slot).
func Unbuf[C any](c C) C { chanRegister(ptrOf(c)); return c }

// Buf notes that c was made with a buffer.
func Buf[C any](c C) C { chanForget(ptrOf(c)); return c }

// ChanCap is the size of a buffer made of n slots.
func ChanCap(n int) int {
	if n == 0 {
		return 1
	}
	return n
}

//go:norace
func chanSent(p uintptr) (*chanSlot, int64) {
	s := chanSlotOf(p)
	if s == nil {
		return nil, 0
	}
	s.sent++
	return s, s.sent
}

//go:norace
func chanTaken(s *chanSlot, p uintptr, seq int64) bool {
	if s.p != p || s.got >= seq {
		RaceAcquire(&s.ev)
		return true
	}
	return false
}

// ChanGot notes that a value was taken from ch.
func ChanGot(ch interface{}) { chanGot(ptrOf(ch)) }

//go:norace
func chanGot(p uintptr) {
	if s := chanSlotOf(p); s != nil {
		s.got++
		RaceRelease(&s.ev)
	}
	Wake(&chanKey)
}

// ChanEvent makes everybody who waits for a channel look again.
//
//go:norace
func ChanEvent() { Wake(&chanKey) }

// ChanBlock waits for something to happen on a channel.
func ChanBlock() {
	if !Block(&chanKey) {
		panic("simulator: deadlock: channel operation that nobody will answer")
	}
}

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	Y(0)
	p := ptrOf(ch)
	for !trySend(ch, v) {
		ChanBlock()
	}
	s, seq := chanSent(p)
	ChanEvent()
	if s == nil {
		return
	}
	for !chanTaken(s, p, seq) {
		ChanBlock()
	}
}

func trySend[T any](ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	Y(0)
	for {
		select {
		case v, ok := <-ch:
			if ok {
				chanGot(ptrOf(ch))
			}
			return v, ok
		default:
		}
		ChanBlock()
	}
}

// CloseCh is close(ch).
func CloseCh[T any](ch chan<- T) {
	close(ch)
	ChanEvent()
	Y(0)
}
