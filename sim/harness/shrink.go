//go:build go1.21

package main

// Reduction candidates for a failing run, most aggressive first. The driver
// runs each in a fresh process and keeps the first that still shows the same
// violation.

func candidates(s *Spec) []*Spec {
	var out []*Spec
	add := func(f func(c *Spec) bool) {
		c := s.clone()
		if f(c) {
			out = append(out, c)
		}
	}
	// no preemption at all
	if s.Sched.Mode != 0 {
		add(func(c *Spec) bool { c.Sched = Sched{}; return true })
	}
	// fewer tasks and operations
	if len(s.Tasks) > 1 {
		for i := range s.Tasks {
			i := i
			add(func(c *Spec) bool { c.Tasks = append(c.Tasks[:i:i], c.Tasks[i+1:]...); return true })
		}
	}
	for i := range s.Tasks {
		if len(s.Tasks[i]) < 2 {
			continue
		}
		for j := range s.Tasks[i] {
			i, j := i, j
			add(func(c *Spec) bool { c.Tasks[i] = append(c.Tasks[i][:j:j], c.Tasks[i][j+1:]...); return true })
		}
	}
	// fewer faults
	if len(s.K.Faults) > 1 {
		add(func(c *Spec) bool { c.K.Faults = nil; return true })
	}
	for i := range s.K.Faults {
		i := i
		add(func(c *Spec) bool { c.K.Faults = append(c.K.Faults[:i:i], c.K.Faults[i+1:]...); return true })
	}
	for _, f := range []func(c *Spec) bool{
		func(c *Spec) bool { ok := c.K.Capacity != 0; c.K.Capacity = 0; return ok },
		func(c *Spec) bool { ok := c.K.Quota != 0; c.K.Quota = 0; return ok },
		func(c *Spec) bool { ok := c.K.WriteMax != 0; c.K.WriteMax = 0; return ok },
		func(c *Spec) bool { ok := c.K.ReadMax != 0; c.K.ReadMax = 0; return ok },
		func(c *Spec) bool { ok := len(c.K.Prior) != 0; c.K.Prior = nil; return ok },
		func(c *Spec) bool {
			ok := c.Crash != nil && c.Crash.Torn != 0
			if ok {
				c.Crash.Torn = 0
			}
			return ok
		},
		func(c *Spec) bool {
			ok := c.Crash != nil && c.Crash.At > 0
			if ok {
				c.Crash.At /= 2
			}
			return ok
		},
		func(c *Spec) bool {
			ok := c.Crash != nil && c.Crash.At > 0
			if ok {
				c.Crash.At--
			}
			return ok
		},
	} {
		add(f)
	}
	// smaller models
	shrinkInt := func(get func(c *Spec) *int, lo int) {
		v := *get(s)
		seen := map[int]bool{v: true}
		for _, w := range []int{lo, v / 2, v - v/4, v - 1} {
			if w < lo || seen[w] || w > v {
				continue
			}
			seen[w] = true
			w := w
			add(func(c *Spec) bool { *get(c) = w; return true })
		}
	}
	if s.Shape != nil {
		for _, n := range shrinkNode(s.Shape) {
			n := n
			add(func(c *Spec) bool { c.Shape = n; return true })
		}
		shrinkInt(func(c *Spec) *int { return &c.Cells }, 2)
	}
	for i := range s.Tasks {
		for j := range s.Tasks[i] {
			i, j := i, j
			o := &s.Tasks[i][j]
			if o.Shape != nil {
				for _, n := range shrinkNode(o.Shape) {
					n := n
					old := shapeKey(o.Shape)
					add(func(c *Spec) bool {
						for a := range c.Tasks {
							for b := range c.Tasks[a] {
								if q := &c.Tasks[a][b]; q.Shape != nil && shapeKey(q.Shape) == old {
									q.Shape = n
								}
							}
						}
						return true
					})
				}
				shrinkInt(func(c *Spec) *int { return &c.Tasks[i][j].Cells }, 2)
			}
			if o.N > 0 {
				shrinkInt(func(c *Spec) *int { return &c.Tasks[i][j].N }, 0)
			}
			if o.Conc > 1 {
				shrinkInt(func(c *Spec) *int { return &c.Tasks[i][j].Conc }, 1)
			}
			for q := range o.Steps {
				q := q
				if o.Steps[q].Rep > 0 {
					shrinkInt(func(c *Spec) *int { return &c.Tasks[i][j].Steps[q].Rep }, 0)
				}
				add(func(c *Spec) bool {
					st := c.Tasks[i][j].Steps
					c.Tasks[i][j].Steps = append(st[:q:q], st[q+1:]...)
					return true
				})
			}
			if len(o.Chunk) > 1 {
				for q := range o.Chunk {
					q := q
					add(func(c *Spec) bool {
						st := c.Tasks[i][j].Chunk
						c.Tasks[i][j].Chunk = append(st[:q:q], st[q+1:]...)
						return true
					})
				}
			}
		}
	}
	if len(s.Steps) > 1 {
		add(func(c *Spec) bool { c.Steps = c.Steps[len(c.Steps)/2:]; return true })
		add(func(c *Spec) bool { c.Steps = c.Steps[:len(c.Steps)/2]; return true })
	}
	for q := range s.Steps {
		q := q
		add(func(c *Spec) bool { c.Steps = append(c.Steps[:q:q], c.Steps[q+1:]...); return true })
	}
	if len(s.Chunk) > 1 {
		for q := range s.Chunk {
			q := q
			add(func(c *Spec) bool { c.Chunk = append(c.Chunk[:q:q], c.Chunk[q+1:]...); return true })
		}
	}
	for q := range s.Chunk {
		q := q
		shrinkInt(func(c *Spec) *int { return &c.Chunk[q] }, 1)
	}
	if s.Conc > 1 {
		shrinkInt(func(c *Spec) *int { return &c.Conc }, 1)
	}
	if s.N > 0 {
		shrinkInt(func(c *Spec) *int { return &c.N }, 0)
	}
	if s.M > 0 {
		shrinkInt(func(c *Spec) *int { return &c.M }, 0)
	}
	if p := properties[s.Prop]; p != nil && p.shrink != nil {
		out = append(out, p.shrink(s)...)
	}
	// fewer context switches
	if s.Sched.Mode == 3 {
		n := len(s.Sched.Tape)
		cut := func(i, j int) {
			add(func(c *Spec) bool {
				c.Sched.Tape = append(c.Sched.Tape[:i:i], c.Sched.Tape[j:]...)
				return j > i
			})
		}
		if n > 0 {
			for parts := 2; parts <= 16 && parts <= n; parts *= 2 {
				for p := 0; p < parts; p++ {
					cut(p*n/parts, (p+1)*n/parts)
				}
			}
			if n <= 40 {
				for i := 0; i < n; i++ {
					cut(i, i+1)
				}
			} else {
				for p := 0; p < 32; p++ {
					cut(p*n/32, (p+1)*n/32)
				}
			}
		}
	}
	return out
}
