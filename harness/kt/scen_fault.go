package kt

import (
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// faulty runs f with the n-th operation of the kind failing, for a random n. It
// returns whether the failure happened.
func (w *World) faulty(kind string, max int, f func()) bool {
	w.Arm(kind, w.Rng.Intn(max))
	x := w.fault
	f()
	w.fault = nil
	return x.fired != ""
}

// ScenFaults has stores and signers fail at every kind of operation. Each of
// these is to report it and leave everything as it was, so that the operations
// that follow go on as if it had not happened.
func ScenFaults(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	e := NewE2E(w, c, 2)
	e.auditLazily = w.Rng.Intn(2) == 0
	e.allowRemove = w.Rng.Intn(3) == 0
	for w.Rng.Intn(3) > 0 {
		e.Grow(3)
	}
	for range 14 {
		if w.Broken {
			return
		}
		e.Run(1 + w.Rng.Intn(3))
		u := e.user()
		again := true // until the operation goes through
		for try := 0; again && try < 4 && !w.Broken; try++ {
			again = false
			switch w.Rng.Intn(9) {
			case 0:
				again = w.faulty("log", 7, func() {
					if h := w.Open(e.S); h != nil {
						e.H = h
					}
				})
			case 1, 2:
				var lv, rem []string
				for i := w.Rng.Intn(4); i > 0; i-- {
					lv = append(lv, e.label(), e.value())
				}
				if e.allowRemove && w.Rng.Intn(3) == 0 {
					rem = append(rem, e.label())
				}
				add := e.S.Adds(rem, lv...)
				Sleep(e.R.Intn(e.gap + 1))
				var upd *structs.AuditorUpdate
				var err error
				failed := w.faulty("log", 3+10*w.Rng.Intn(3), func() { upd, err = w.Mutate(e.H, add, rem) })
				if failed && w.Rng.Intn(3) == 0 { // the same entry is added next
					upd, err = w.Mutate(e.H, add, rem)
				}
				if err == nil && e.A != nil {
					e.pendingAud = append(e.pendingAud, upd)
					e.AuditAll()
				}
				again = failed
			case 3: // server
				p := w.Request(u, []string{"search", "search", "oinit", "monitor"}[w.Rng.Intn(4)], e.label(), nil, nil)
				if p == nil {
					continue
				}
				h := e.Server()
				again = w.faulty("log", 6, func() { w.Ask(h, p.Req, false) })
				if res, err := w.Ask(h, p.Req, false); err == nil {
					w.VerifyFrom(h.Name, p, res)
				}
			case 4: // request
				kind, l := []string{"search", "oinit", "monitor", "update"}[w.Rng.Intn(4)], e.label()
				again = w.faulty("user", 4, func() { w.Request(u, kind, l, nil, nil) })
			case 5, 6: // verification
				kind := []string{"search", "search", "oinit", "monitor"}[w.Rng.Intn(4)]
				l := e.label()
				again = w.faultyVerify(e, u, kind, l)
			case 7: // updates
				if c.Mode == 2 || len(u.S.Labels) == 0 {
					continue
				}
				for _, l := range sortedKeys(u.S.Labels) {
					if again = w.faultyUpdate(e, u, l, []string{e.value()}); again {
						break
					}
				}
			case 8:
				if e.A == nil {
					continue
				}
				if e.H.Size() > 0 && len(e.pendingAud) == 0 {
					upd, err := w.Mutate(e.H, e.S.Adds(nil, e.label(), e.value()), nil)
					if err == nil {
						e.pendingAud = append(e.pendingAud, upd)
					}
				}
				for _, x := range e.pendingAud {
					w.Audit(e.A, x)
				}
				e.pendingAud = nil
				again = w.faulty("auditor", 3, func() { w.AuditorCommit(e.A) })
				if again && w.Rng.Intn(3) == 0 {
					// Everything that was not committed is lost, and so is
					// the auditor's ability to go on.
					continue
				}
				e.AuditAll()
			}
		}
	}
}

// faultyVerify makes a request, and has the user fail to process the response.
// The same request is made again after that.
func (w *World) faultyVerify(e *E2E, u *User, kind, l string) bool {
	p := w.Request(u, kind, l, nil, nil)
	if p == nil {
		return false
	}
	h := e.Server()
	res, err := w.Ask(h, p.Req, false)
	if err != nil {
		return false
	}
	if !w.faulty("user", 4, func() { w.VerifyFrom(h.Name, p, res) }) {
		return false
	}
	if p = p.Again(); p != nil {
		if w.Rng.Intn(2) == 0 {
			if res, err = w.Ask(h, p.Req, false); err != nil {
				return true
			}
		}
		w.VerifyFrom(h.Name, p, res)
	}
	return true
}

// faultyUpdate runs an update during which something fails.
func (w *World) faultyUpdate(e *E2E, u *User, l string, vals []string) bool {
	failed := false
	p := w.Request(u, "update", l, nil, vals)
	if p == nil {
		return false
	}
	h := w.Open(e.S)
	if h == nil {
		return false
	}
	var st *Stream
	if w.Rng.Intn(3) == 0 {
		failed = w.faulty("log", 4, func() { st = w.StartUpdate(h, p.Req.(*structs.UpdateRequest)) })
		if st == nil {
			return failed
		}
		defer st.Close()
	} else if st = w.StartUpdate(h, p.Req.(*structs.UpdateRequest)); st == nil {
		return false
	} else {
		defer st.Close()
	}
	at := w.Rng.Intn(3)
	var x *fault
	arm := func() { w.Arm("log", w.Rng.Intn(5)); x = w.fault }
	if at == 1 {
		w.beforeReload = arm
	}
	for i := 0; i < 20 && !w.Broken; i++ {
		if at == 0 && w.Rng.Intn(2) == 0 {
			arm()
		}
		res, ok := w.Next(st, func(r transparency.UpdateRequest) (uint64, bool) {
			w.fault = nil
			var add []Add
			for _, v := range r.Values {
				add = append(add, Add{Label: string(r.Label), Value: string(v.Value)})
			}
			if !e.Commit(add, nil) {
				return 0, false
			}
			return uint64(e.H.Size() - 1), true
		})
		w.fault, w.beforeReload = nil, nil
		failed = failed || x != nil && x.fired != ""
		if !ok {
			break
		}
		if at == 2 && w.Rng.Intn(2) == 0 {
			if w.faulty("user", 4, func() { w.VerifyFrom(st.Name, p, res) }) {
				return true
			}
			continue
		}
		if w.VerifyFrom(st.Name, p, res) != nil {
			break
		}
	}
	return failed
}
