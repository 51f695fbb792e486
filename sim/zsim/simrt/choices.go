// Package simrt is the deterministic simulator: a choice stream, a user-level
// task scheduler, models of Go channels, a virtual clock and random streams.
package simrt

// Choices is the single source of every decision of a simulated run: the
// generated workload, the faults and the schedule. In search mode the values
// come from a PRNG seeded by one integer and are recorded; in replay mode they
// come from a recorded list, and are 0 (the simplest choice) past its end.
type Choices struct {
	state  uint64
	replay []uint64
	isRep  bool
	Rec    []uint64
	Lab    []string
	keep   bool
}

func NewSeeded(seed uint64) *Choices {
	return &Choices{state: Mix(seed ^ 0x9e3779b97f4a7c15)}
}

func NewReplay(vals []uint64) *Choices {
	return &Choices{replay: vals, isRep: true}
}

// KeepLabels makes the stream record what each choice was for.
func (c *Choices) KeepLabels() { c.keep = true }

// Mix is splitmix64's finaliser.
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Next returns a choice in [0,n); 0 is always the simplest one.
func (c *Choices) Next(label string, n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if c.isRep {
		if len(c.Rec) < len(c.replay) {
			v = c.replay[len(c.Rec)]
			if v >= n {
				v %= n
			}
		}
	} else {
		c.state += 0x9e3779b97f4a7c15
		v = Mix(c.state) % n
	}
	c.Rec = append(c.Rec, v)
	if c.keep {
		c.Lab = append(c.Lab, label)
	}
	return v
}

// Int returns a choice in [lo,hi]; lo is the simplest.
func (c *Choices) Int(label string, lo, hi int) int {
	return lo + int(c.Next(label, uint64(hi-lo+1)))
}

// Chance is true with probability p; false is the simplest.
func (c *Choices) Chance(label string, p float64) bool {
	const den = 1 << 16
	return float64(c.Next(label, den)) >= (1-p)*den
}

// Word returns 64 bits to seed a derived stream.
func (c *Choices) Word(label string) uint64 { return c.Next(label, 1<<63) }
