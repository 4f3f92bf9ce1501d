package engine

// Candidates lists simpler variants of a plan, most drastic first.
func Candidates(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *Plan) bool) {
		q := p.Clone()
		if f(q) {
			out = append(out, q)
		}
	}
	chunks := func(n int, cut func(q *Plan, a, b int)) {
		for sz := n; sz >= 1; sz /= 2 {
			for a := 0; a < n; a += sz {
				b := a + sz
				if b > n {
					b = n
				}
				a, b := a, b
				add(func(q *Plan) bool { cut(q, a, b); return true })
			}
		}
	}
	chunks(len(p.Traps), func(q *Plan, a, b int) { q.Traps = append(q.Traps[:a:a], q.Traps[b:]...) })
	chunks(len(p.Pre), func(q *Plan, a, b int) { q.Pre = append(q.Pre[:a:a], q.Pre[b:]...) })
	chunks(len(p.Crash), func(q *Plan, a, b int) { q.Crash = append(q.Crash[:a:a], q.Crash[b:]...) })
	chunks(len(p.Parts), func(q *Plan, a, b int) { q.Parts = append(q.Parts[:a:a], q.Parts[b:]...) })
	if len(p.Tasks) > 1 {
		chunks(len(p.Tasks), func(q *Plan, a, b int) { q.Tasks = append(q.Tasks[:a:a], q.Tasks[b:]...) })
	}
	for i := range p.Tasks {
		i := i
		chunks(len(p.Tasks[i].Ops), func(q *Plan, a, b int) {
			o := q.Tasks[i].Ops
			q.Tasks[i].Ops = append(o[:a:a], o[b:]...)
		})
	}
	zero := func(n int, isZero func(i int) bool, f func(q *Plan, i int)) {
		for sz := n; sz >= 1; sz /= 2 {
			for a := 0; a < n; a += sz {
				b := a + sz
				if b > n {
					b = n
				}
				any := false
				for i := a; i < b; i++ {
					if !isZero(i) {
						any = true
					}
				}
				if any {
					a, b := a, b
					add(func(q *Plan) bool {
						for i := a; i < b; i++ {
							f(q, i)
						}
						return true
					})
				}
			}
		}
	}
	zero(len(p.Net), func(i int) bool {
		f := p.Net[i]
		return !f.Drop && f.Dup == 0 && f.Delay == 0 && len(f.Flip) == 0 && f.Cut == 0 && f.Grow == 0 && f.Mode == 0
	}, func(q *Plan, i int) { q.Net[i] = Fate{} })
	zero(len(p.Disk), func(i int) bool { return p.Disk[i] == DiskFate{} }, func(q *Plan, i int) { q.Disk[i] = DiskFate{} })
	zero(len(p.Picks), func(i int) bool { return p.Picks[i] == 0 }, func(q *Plan, i int) { q.Picks[i] = 0 })
	zero(len(p.Nodes), func(i int) bool { return len(p.Nodes[i].Off) == 0 }, func(q *Plan, i int) { q.Nodes[i].Off = nil })
	// trailing no-ops
	add(func(q *Plan) bool {
		n := len(q.Picks)
		for n > 0 && q.Picks[n-1] == 0 {
			n--
		}
		if n == len(q.Picks) {
			return false
		}
		q.Picks = q.Picks[:n]
		return true
	})
	add(func(q *Plan) bool {
		n := len(q.Net)
		for n > 0 {
			f := q.Net[n-1]
			if f.Drop || f.Dup != 0 || f.Delay != 0 || len(f.Flip) > 0 || f.Cut != 0 || f.Grow != 0 || f.Mode != 0 {
				break
			}
			n--
		}
		if n == len(q.Net) {
			return false
		}
		q.Net = q.Net[:n]
		return true
	})
	for i := range p.Net {
		i := i
		for j := range p.Net[i].Flip {
			j := j
			if len(p.Net[i].Flip) > 1 {
				add(func(q *Plan) bool {
					f := q.Net[i].Flip
					q.Net[i].Flip = append(f[:j:j], f[j+1:]...)
					return true
				})
			}
		}
	}
	for i := range p.Tasks {
		for j := range p.Tasks[i].Ops {
			i, j := i, j
			e := p.Tasks[i].Ops[j].E
			if e == nil {
				continue
			}
			if len(e.Chunk) > 0 {
				add(func(q *Plan) bool { q.Tasks[i].Ops[j].E.Chunk = nil; return true })
			}
			for k := range e.Fault {
				k := k
				add(func(q *Plan) bool {
					f := q.Tasks[i].Ops[j].E.Fault
					q.Tasks[i].Ops[j].E.Fault = append(f[:k:k], f[k+1:]...)
					return true
				})
			}
			if e.Mode != 0 {
				add(func(q *Plan) bool { q.Tasks[i].Ops[j].E.Mode = 0; return true })
			}
		}
	}
	shrinkInt := func(v int) []int {
		var r []int
		if v == 0 {
			return nil
		}
		r = append(r, 0)
		if v > 1 {
			r = append(r, v/2)
			if v > 2 {
				r = append(r, v-1)
			}
			if v > 16 {
				r = append(r, v-v/8)
			}
		}
		return r
	}
	for i := range p.Tasks {
		for j := range p.Tasks[i].Ops {
			for k := range p.Tasks[i].Ops[j].I {
				for _, v := range shrinkInt(p.Tasks[i].Ops[j].I[k]) {
					i, j, k, v := i, j, k, v
					add(func(q *Plan) bool { q.Tasks[i].Ops[j].I[k] = v; return true })
				}
			}
		}
		for k, x := range p.Tasks[i].P {
			for _, v := range shrinkInt(x) {
				i, k, v := i, k, v
				add(func(q *Plan) bool { q.Tasks[i].P[k] = v; return true })
			}
		}
	}
	for i := range p.Traps {
		for _, v := range shrinkInt(p.Traps[i].After) {
			i, v := i, v
			add(func(q *Plan) bool { q.Traps[i].After = v; return true })
		}
		if p.Traps[i].N > 1 {
			for _, v := range []int{1, p.Traps[i].N / 2, p.Traps[i].N - 1} {
				i, v := i, v
				add(func(q *Plan) bool { q.Traps[i].N = v; return v >= 1 })
			}
		}
	}
	return out
}

// Size orders plans.
func (p *Plan) Size() int {
	n := len(p.Traps)*20 + len(p.Pre)*20 + len(p.Crash)*20 + len(p.Parts)*20
	for _, t := range p.Tasks {
		n += 50
		for _, o := range t.Ops {
			n += 30
			for _, v := range o.I {
				if v < 0 {
					v = -v
				}
				for v > 0 {
					n++
					v >>= 1
				}
			}
			if o.E != nil {
				n += len(o.E.Chunk) + 5*len(o.E.Fault) + o.E.Mode
			}
		}
	}
	for _, f := range p.Net {
		n += 1 + len(f.Flip)
		if f.Drop || f.Dup > 0 || f.Delay > 0 || f.Cut > 0 || f.Grow > 0 {
			n += 3
		}
	}
	return n
}
