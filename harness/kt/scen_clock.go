package kt

import (
	"github.com/Bren2010/katie/tree/transparency"
)

// clockConf draws bounds on time that are so small that they matter.
func clockConf(w *World, c Conf) Conf {
	r := w.Rng
	any := func(vs ...uint64) uint64 { return vs[r.Intn(len(vs))] }
	c.Ahead = any(0, 1, 100, 1000, 5000, Never)
	c.Behind = any(0, 500, 2000, 5000, 20000, Never)
	c.Rmw = any(0, 1, 200, 1000, 1000, 4000, Never)
	c.Life = 0
	if c.Rmw != Never && r.Intn(2) == 0 {
		c.Life = c.Rmw + any(1, 2, 300, 1000, 6000)
	}
	if c.Mode == 3 {
		c.Lag = any(0, 1, 500, 2000, 10000, Never)
		c.Astart = uint64(r.Intn(6))
		if r.Intn(2) == 0 {
			c.Astart = 0
		}
	}
	return c
}

// around draws v or a neighbour of it.
func (e *E2E) around(v uint64) uint64 {
	switch e.R.Intn(4) {
	case 0:
		if v > 0 {
			return v - 1
		}
	case 1:
		return v + 1
	}
	return v
}

// Boundary draws an amount of time that is about one of the configuration's.
func (e *E2E) Boundary() uint64 {
	c := e.S.Conf
	v := []uint64{c.Ahead, c.Behind, c.Rmw, c.Life, c.Lag, 300}[e.R.Intn(6)]
	if v == Never {
		v = uint64(e.R.Intn(3000))
	}
	return e.around(v)
}

// lenient is a handle to the same log that answers whatever the time is.
func (e *E2E) lenient(h *Handle) *Handle {
	cfg := e.S.Cfg
	cfg.MaxAhead, cfg.MaxBehind = Never, Never
	out := *h
	err := Try(func() (err error) {
		out.Tree, err = transparency.NewTree(cfg, e.S.Rec, out.upd)
		return err
	})
	if err != nil {
		e.W.Never("store can not be opened: " + err.Error())
		return h
	}
	return &out
}

// ScenClock: what is fresh enough, what is expired, and what is distinguished,
// when entries are just about as old as the configuration has it; and what
// becomes of users when the configuration changes.
func ScenClock(w *World, idx int) {
	r := w.Rng
	base := RandConf(r, 1+idx%3)
	c := clockConf(w, base)
	w.Wire = r.Intn(3) == 0
	Sleep(30000)
	e := NewE2E(w, c, 1+r.Intn(2))
	e.noAudit = true
	if r.Intn(2) == 0 {
		e.Labels = e.Labels[:2]
	}
	var last uint64
	v := w.NewEvil(e.S, 0, 0)
	reopen := func() bool {
		h := w.Open(e.S)
		if h == nil {
			return false
		}
		e.H = h
		return true
	}
	audit := func() bool {
		n := e.H.Size()
		if c.Mode != 3 || n == 0 {
			return true
		}
		k := max(1, n-r.Intn(3))
		if r.Intn(3) == 0 {
			k = 1 + r.Intn(n)
		}
		ts := tsAt(e.S, k-1)
		if r.Intn(2) == 0 {
			ts = last - min(last, e.around([]uint64{e.S.Conf.Lag, 0, 0}[r.Intn(3)]))
			if e.S.Conf.Lag == Never {
				ts = last - uint64(r.Intn(2000))
			}
		}
		w.ForgeAudit(e.S, k, ts, k)
		return reopen()
	}
	sync := func() { v.n = uint64(e.H.Size()); last = tsAt(e.S, e.H.Size()-1); v.ts = last }
	for i := 0; i < 42 && !w.Broken; i++ {
		u := e.user()
		n := e.H.Size()
		switch k := r.Intn(20); {
		case k < 3 || n == 0: // an entry by the log itself
			var lv []string
			for j := 1 + r.Intn(3); j > 0; j-- {
				lv = append(lv, e.label(), e.value())
			}
			if _, err := w.Mutate(e.H, e.S.Adds(nil, lv...), nil); err == nil {
				sync()
				if !audit() {
					return
				}
			} else if n == 0 {
				return
			}
		case k < 6: // an entry at some time
			ts := v.now()
			switch r.Intn(4) {
			case 0:
				if a := e.S.Conf.Ahead; a != Never {
					ts += e.around(a)
				}
			case 1:
				ts = last + e.Boundary()
			case 2:
				ts = last + uint64(r.Intn(2))
			}
			if !v.Append(max(ts, last), nil) || !reopen() {
				return
			}
			sync()
			if !audit() {
				return
			}
		case k < 8: // time passes
			d := e.Boundary()
			if b := e.S.Conf.Behind; r.Intn(2) == 0 && b != Never && last+b > v.now() {
				d = e.around(last + b - v.now())
			}
			Sleep(int(d))
		case k < 9:
			if !audit() {
				return
			}
		case k < 10 && r.Intn(2) == 0: // another configuration
			c2 := e.S.Conf
			switch r.Intn(4) {
			case 0:
				c2 = clockConf(w, base)
			case 1:
				c2.Lag, c2.Astart = clockConf(w, base).Lag, uint64(r.Intn(4))
			case 2:
				c2.Ahead, c2.Behind = clockConf(w, base).Ahead, clockConf(w, base).Behind
			default:
				x := clockConf(w, base)
				c2.Rmw, c2.Life = x.Rmw, x.Life
			}
			if c2.Mode != 3 {
				c2.Lag, c2.Astart = 0, 0
			}
			w.Reconf(e.S, c2)
			if !reopen() {
				return
			}
			for _, u := range e.Users {
				if r.Intn(4) > 0 && !w.ReconfUser(u, c2) {
					return
				}
			}
		case k < 11: // users follow
			if u.Conf.J()["ahead"] != nil && !w.ReconfUser(u, e.S.Conf) {
				return
			}
		default:
			h, quiet := e.H, false
			if r.Intn(3) == 0 {
				h, quiet = e.lenient(e.H), true
			}
			kind, label := "search", ""
			var ver *uint32
			switch r.Intn(8) {
			case 0, 1, 2:
				label, ver = e.searchTarget()
			case 3:
				kind, label = "oinit", e.label()
			case 4:
				if c.Mode != 2 && !quiet {
					for _, l := range sortedKeys(u.S.Labels) {
						e.Update(u, l, []string{e.value(), e.value()}[:r.Intn(3)])
						break
					}
					sync()
					continue
				}
				fallthrough
			default:
				kind = "monitor"
			}
			p := w.Request(u, kind, label, ver, nil)
			if p == nil {
				continue
			}
			res, err := w.Ask(h, p.Req, quiet)
			if err != nil || w.Broken {
				continue
			}
			if b := e.S.Conf.Behind; r.Intn(3) == 0 && b != Never { // on the way for a while
				if t := last + e.around(b); t > v.now() {
					Sleep(int(t - v.now()))
				}
			}
			w.VerifyFrom(h.Name, p, res)
		}
	}
}

// tsAt returns the timestamp of a log entry.
func tsAt(s *Store, pos int) uint64 {
	raw, err := s.Rec.Under.BatchGet([]uint64{uint64(pos)})
	if err != nil || len(raw[uint64(pos)]) < 8 {
		return 0
	}
	var ts uint64
	for _, b := range raw[uint64(pos)][:8] {
		ts = ts<<8 | uint64(b)
	}
	return ts
}
