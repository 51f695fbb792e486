package simrt

// Stream is the random source of one task: a function of the run's random
// seed and the task's identity, so that a schedule does not change its draws.
type Stream struct {
	s     uint64
	mode  int
	last  uint64
	burst int
	bv    uint64
	Draws int
}

// NewStream makes a stream.
func NewStream(seed uint64, mode int) *Stream { return &Stream{s: Mix(seed), mode: mode} }

// Uint64 draws. Besides uniform draws (mode 0), a stream can repeat itself
// (1), favour the extremes (2) or return bursts of one value (3): all legal
// outcomes of a random source, that uniform sampling would hardly ever visit.
func (s *Stream) Uint64() uint64 {
	s.Draws++
	s.s += 0x9e3779b97f4a7c15
	v := Mix(s.s)
	switch s.mode {
	case 1:
		s.s += 0x9e3779b97f4a7c15
		if Mix(s.s)%3 == 0 {
			v = s.last
		}
	case 2:
		s.s += 0x9e3779b97f4a7c15
		switch Mix(s.s) % 5 {
		case 0:
			v = 0
		case 1:
			v = ^uint64(0)
		}
	case 3:
		if s.burst > 0 {
			s.burst--
			v = s.bv
		} else {
			s.s += 0x9e3779b97f4a7c15
			w := Mix(s.s)
			if w%8 == 0 {
				s.burst = int(w>>8) % 24
				switch (w >> 16) % 3 {
				case 0:
					s.bv = 0
				case 1:
					s.bv = ^uint64(0)
				default:
					s.bv = v
				}
			}
		}
	}
	s.last = v
	return v
}

var outside = NewStream(42, 0)

// CurStream is the current task's stream.
func CurStream() *Stream {
	if !Active() {
		return outside
	}
	if cur.stream == nil {
		cur.stream = NewStream(R.randSd^cur.Path, R.randMd)
	}
	return cur.stream
}

// SetStream gives the current task a fresh identity, key, that its own draws
// and those of the tasks it spawns from now on derive from.
func SetStream(key uint64) {
	cur.stream = NewStream(R.randSd^Mix(key), R.randMd)
	cur.Path = Mix(key ^ 0x51ab)
	cur.Root = key
	cur.nkids = 0
}

// Root is the key of the nearest SetStream of the task or of its ancestors.
func Root() uint64 {
	if cur == nil {
		return 0
	}
	return cur.Root
}

// WithStream runs f with s as the current task's random stream.
func WithStream(s *Stream, f func()) {
	if cur == nil {
		f()
		return
	}
	t := cur
	old := t.stream
	t.stream = s
	defer func() { t.stream = old }()
	f()
}

// StreamOf makes a stream that depends on the run's random seed and on key only.
func StreamOf(key uint64) *Stream { return NewStream(R.randSd^Mix(key), R.randMd) }
