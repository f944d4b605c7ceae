package main

// Shared memory. Between freeze and thaw the memory which was there before is
// shared: any other goroutine may run the same code at the same time. Each
// access to it is recorded with the locks held, as in Eraser: memory which is
// written needs a lock which every access to it holds. What an access is
// ordered by otherwise (sync.Once, sync/atomic) is treated as a lock held from
// then on.
type shareState struct {
	cells map[*Val]bool
	maps  map[*Map]bool
	acc   map[any]*access
	after []*Val // once done, atomics used
}

type access struct {
	wrote bool
	locks []*Val
	where string
}

func (e *Engine) freeze(f Val) {
	s := &shareState{cells: map[*Val]bool{}, maps: map[*Map]bool{}, acc: map[any]*access{}}
	seen := map[any]bool{}
	var cell func(c *Val)
	var val func(v Val)
	cell = func(c *Val) {
		if c == nil || s.cells[c] {
			return
		}
		s.cells[c] = true
		val(*c)
		switch n := e.natives[c].(type) {
		case *Map:
			// of a sync.Map: its values are shared, its entries are guarded
			for _, en := range n.ents {
				val(en.k)
				val(en.v)
			}
		}
	}
	val = func(v Val) {
		switch p := v.P.(type) {
		case *Val:
			cell(p)
		case *Agg:
			if p == nil || seen[p] {
				return
			}
			seen[p] = true
			for i := range p.E {
				cell(&p.E[i])
			}
		case *Slice:
			if p == nil || seen[p] {
				return
			}
			seen[p] = true
			all := p.S[:cap(p.S)]
			if len(all) > 0 && s.cells[&all[0]] && s.cells[&all[len(all)-1]] {
				return
			}
			for i := range all {
				cell(&all[i])
			}
		case *SlicePtr:
			val(Val{P: &Slice{p.s}})
		case *SymPtr:
			for i := range p.arr {
				cell(&p.arr[i])
			}
		case *Iface:
			if p != nil && !seen[p] {
				seen[p] = true
				val(p.V)
			}
		case *Closure:
			if p != nil && !seen[p] {
				seen[p] = true
				for _, b := range p.bind {
					val(b)
				}
			}
		case *Map:
			if p == nil || s.maps[p] {
				return
			}
			s.maps[p] = true
			for _, en := range p.ents {
				val(en.k)
				val(en.v)
			}
		case *Chan:
			for _, it := range p.q {
				val(it.v)
			}
		case []Val:
			for _, x := range p {
				val(x)
			}
		}
	}
	val(f)
	// the global variables of the repository and of what it uses besides the
	// standard library
	e.P.sh.mu.RLock()
	list := e.P.sh.glist
	e.P.sh.mu.RUnlock()
	for i, c := range e.globals {
		if c != nil && list[i].Pkg != nil && hasDot(list[i].Pkg.Pkg.Path()) {
			cell(c)
		}
	}
	old := e.share
	e.share = s
	e.onUndo(func() { e.share = old })
}

func (e *Engine) thaw() {
	old := e.share
	e.share = nil
	e.onUndo(func() { e.share = old })
}

// held are the locks which guard an access.
func (e *Engine) held(write bool) []*Val {
	var out []*Val
	for c, n := range e.locks {
		if e.mutexes[c] && (n < 0 || n > 0 && !write) {
			out = append(out, c)
		}
	}
	return append(out, e.share.after...)
}

// ordered notes that what follows comes after what others did before.
func (e *Engine) ordered(c *Val) {
	s := e.share
	if s == nil {
		return
	}
	for _, x := range s.after {
		if x == c {
			return
		}
	}
	n := len(s.after)
	s.after = append(s.after[:n:n], c)
	e.onUndo(func() { s.after = s.after[:n] })
}

func (e *Engine) access(key any, write bool) {
	s := e.share
	switch k := key.(type) {
	case *Val:
		if !s.cells[k] {
			return
		}
	case *Map:
		if !s.maps[k] {
			return
		}
	}
	old := s.acc[key]
	h := e.held(write)
	n := &access{wrote: write, locks: h}
	if old != nil {
		if old.wrote == (old.wrote || write) && sameLocks(old.locks, h) {
			return
		}
		n.wrote = n.wrote || old.wrote
		n.locks = nil
		for _, x := range old.locks {
			for _, y := range h {
				if x == y {
					n.locks = append(n.locks, x)
				}
			}
		}
		n.where = old.where
	}
	if n.where == "" || write {
		n.where = e.where()
	}
	s.acc[key] = n
	e.onUndo(func() {
		if old == nil {
			delete(s.acc, key)
		} else {
			s.acc[key] = old
		}
	})
	if n.wrote && len(n.locks) == 0 {
		e.sample("race", "memory which calls share is written, and not every access to it holds the same lock"+n.where)
		panic(pathEnd{kind: "violation"})
	}
}

func sameLocks(a, b []*Val) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}

// wrote and read are called for every access while memory is shared.
func (e *Engine) wrote(c *Val) {
	if e.share != nil && !e.sync {
		e.access(c, true)
	}
}

func (e *Engine) read(c *Val) {
	e.access(c, false)
	if a, ok := c.P.(*Agg); ok {
		for i := range a.E {
			e.read(&a.E[i])
		}
	}
}

func (e *Engine) readAll(s []Val) {
	if e.share != nil {
		for i := range s {
			e.read(&s[i])
		}
	}
}

func (e *Engine) touchMap(m *Map, write bool) {
	if e.share != nil && m != nil && !e.sync {
		e.access(m, write)
	}
}

// synced runs an operation of sync or sync/atomic, which is no plain access.
func (e *Engine) synced(f func() Val) Val {
	old := e.sync
	e.sync = true
	defer func() { e.sync = old }()
	return f()
}

func hasDot(path string) bool {
	for i := 0; i < len(path) && path[i] != '/'; i++ {
		if path[i] == '.' {
			return true
		}
	}
	return false
}
