package kt

import (
	"fmt"
	"math/rand"
	"slices"
	"strings"
	"time"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// RandConf draws a configuration.
func RandConf(rng *rand.Rand, mode int) Conf {
	c := Conf{Mode: mode, Sk: "log", Vk: "vrf", Ahead: 60000, Behind: 10000000,
		Rmw: []uint64{1, 300, 1000, 1000, 1000, 3000, Never}[rng.Intn(7)]}
	if rng.Intn(3) == 0 {
		c.Life = c.Rmw*uint64(2+rng.Intn(5)) + uint64(rng.Intn(500))
		if c.Rmw == Never {
			c.Life = 0
		}
	}
	if rng.Intn(3) == 0 {
		c.Vb, c.Vg = rng.Intn(2), 1+rng.Intn(8)
	}
	switch mode {
	case 2:
		c.Lk = "leaf"
	case 3:
		c.Ak, c.Lag = "aud", 10000000
	}
	return c
}

func Sleep(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }

// E2E is a random execution of an honest log with honest users.
type E2E struct {
	W      *World
	R      *rand.Rand
	S      *Store
	H      *Handle // the handle that mutates
	A      *Auditor
	Users  []*User
	Labels []string
	step   int
	// AudEvery: how likely the auditor's head is published after an update.
	auditLazily bool
	noAudit     bool
	allowRemove bool
	owners      bool // users own labels, and update them
	gap         int
	pendingAud  []*structs.AuditorUpdate
	old         []*Handle                // handles with older tree heads
	tamper      *Mutator                 // alters the responses to updates
	sweep       func(req, res any) []any // does so too
}

func NewE2E(w *World, c Conf, users int) *E2E {
	return NewE2EOn(w, c, users, w.NewStore(c, nil))
}

// NewE2EOn is NewE2E on an existing store.
func NewE2EOn(w *World, c Conf, users int, s *Store) *E2E {
	e := &E2E{W: w, R: w.Rng, Labels: []string{"a", "b", "c", "d", "alice", ""}[:2+w.Rng.Intn(5)]}
	if w.Rng.Intn(4) == 0 { // labels are any bytes
		for i := range e.Labels {
			if w.Rng.Intn(2) == 0 {
				e.Labels[i] = []string{"\x00", "\xff\xfe", "a\x00", "a:1", "A", strings.Repeat("l", 255),
					strings.Repeat("l", 254), "\x00\x00\x00\x01", "0", "a1"}[w.Rng.Intn(10)]
			}
		}
		slices.Sort(e.Labels)
		e.Labels = slices.Compact(e.Labels)
	}
	e.gap = []int{1, 100, 500, 2000}[e.R.Intn(4)]
	e.S = s
	e.H = w.Open(e.S)
	if c.Mode == 3 {
		e.A = w.NewAuditor(c)
	}
	for i := 0; i < users; i++ {
		e.Users = append(e.Users, w.NewUser(c))
	}
	return e
}

func (e *E2E) label() string { return e.Labels[e.R.Intn(len(e.Labels))] }
func (e *E2E) user() *User   { return e.Users[e.R.Intn(len(e.Users))] }
func (e *E2E) value() string {
	e.step++
	if e.R.Intn(12) == 0 {
		return ""
	}
	v := fmt.Sprintf("value-%d", e.step)
	if e.R.Intn(200) == 0 {
		n := []int{127, 128, 255, 256, 257, 1000, 65535, 65536, 70000}[e.R.Intn(9)]
		v = (v + strings.Repeat(" ", n))[:n]
	}
	return v
}

// Grow adds a log entry with random new versions.
func (e *E2E) Grow(max int) bool {
	Sleep(e.R.Intn(e.gap + 1))
	var lv []string
	for i := e.R.Intn(max + 1); i > 0; i-- {
		lv = append(lv, e.label(), e.value())
	}
	var rem []string
	if e.allowRemove && e.R.Intn(4) == 0 {
		rem = append(rem, e.label())
		if e.R.Intn(3) == 0 {
			rem = append(rem, e.label())
		}
	}
	return e.Commit(e.S.Adds(rem, lv...), rem)
}

// Commit adds a log entry and has it audited.
func (e *E2E) Commit(add []Add, rem []string) bool {
	u, err := e.W.Mutate(e.H, add, rem)
	if err != nil {
		return false
	}
	if e.A != nil {
		e.pendingAud = append(e.pendingAud, u)
		if e.noAudit {
			return true
		}
		if !e.auditLazily || e.R.Intn(3) == 0 || e.H.Size() == 1 {
			e.AuditAll()
		}
	}
	return true
}

func (e *E2E) AuditAll() {
	for _, u := range e.pendingAud {
		e.W.Audit(e.A, u)
		e.W.Rec("aagrees", M{"a": e.A.Name, "s": e.S.Name})
	}
	e.pendingAud = nil
	if head := e.W.AuditorCommit(e.A); head != nil {
		e.W.PutAuditorHead(e.S, head)
	}
	if e.R.Intn(4) == 0 {
		e.W.ReopenAuditor(e.A)
	}
	e.Reopen()
}

// Reopen makes the mutating handle pick up new auditor tree heads.
func (e *E2E) Reopen() {
	if h := e.W.Open(e.S); h != nil {
		if e.R.Intn(6) == 0 {
			e.old = append(e.old, e.H)
		}
		e.H = h
	}
}

// Server is a handle to serve a request from: usually the current one, at
// times an older one.
func (e *E2E) Server() *Handle {
	if len(e.old) > 0 && e.R.Intn(10) == 0 {
		return e.old[e.R.Intn(len(e.old))]
	}
	return e.H
}

// Search performs a search by a random user.
func (e *E2E) Search(u *User) {
	l := e.label()
	if e.R.Intn(12) == 0 {
		l = "nobody"
	}
	var ver *uint32
	if e.R.Intn(2) == 0 {
		v := uint32(e.R.Intn(e.S.Vers[l] + 1))
		if e.R.Intn(8) > 0 && e.S.Vers[l] > 0 {
			v = uint32(e.R.Intn(e.S.Vers[l]))
		}
		ver = &v
	}
	e.W.Do(e.Server(), u, "search", l, ver)
}

// Update runs an update by the user that owns the label.
func (e *E2E) Update(u *User, label string, vals []string) {
	w := e.W
	p := w.Request(u, "update", label, nil, vals)
	if p == nil {
		return
	}
	h := w.Open(e.S)
	if h == nil {
		return
	}
	st := w.StartUpdate(h, p.Req.(*structs.UpdateRequest))
	if st == nil {
		return
	}
	defer st.Close()
	failed := false
	for {
		res, ok := w.Next(st, func(r transparency.UpdateRequest) (uint64, bool) {
			if failed {
				return 0, false
			}
			var add []Add
			for _, v := range r.Values {
				add = append(add, Add{Label: string(r.Label), Value: string(v.Value), Sig: v.Signature, HasSig: v.Signature != nil})
			}
			// Other labels may change in the same log entry.
			if e.R.Intn(3) == 0 {
				o := e.label()
				if o != label {
					add = append(add, e.S.Adds(nil, o, e.value())...)
				}
			}
			Sleep(e.R.Intn(e.gap + 1))
			if !e.Commit(add, nil) {
				return 0, false
			}
			pos := uint64(e.H.Size() - 1)
			for e.R.Intn(3) == 0 {
				e.Grow(2)
			}
			return pos, true
		})
		if !ok {
			return
		}
		if e.tamper != nil {
			for range 4 {
				if alt := w.Alter(e.tamper, u.Cfg, p.Req, res); alt != nil && !w.Broken {
					if cl := w.CloneUser(u); cl != nil {
						if q := w.Request(cl, "update", label, nil, vals); q != nil {
							w.Verify(q, alt)
						}
					}
				}
			}
			e.tamper.Learn(res)
		}
		if e.sweep != nil {
			for _, alt := range e.sweep(p.Req, res) {
				if w.Broken {
					return
				}
				if cl := w.CloneUser(u); cl != nil {
					if q := w.Request(cl, "update", label, nil, vals); q != nil {
						w.Verify(q, alt)
					}
				}
			}
		}
		if w.Broken {
			return
		}
		if w.VerifyFrom(st.Name, p, res) != nil {
			return
		}
		if e.R.Intn(6) == 0 { // concurrent use of the user's state
			e.Search(u)
		}
	}
}

// Run executes n random steps.
func (e *E2E) Run(n int) {
	for i := 0; i < n && !e.W.Broken; i++ {
		u := e.user()
		r := e.R.Intn(20)
		if e.owners && e.R.Intn(3) == 0 && e.H.Size() > 0 {
			r = []int{12, 14, 18, 18}[e.R.Intn(4)]
		}
		switch {
		case r < 6 || e.H.Size() == 0:
			e.Grow(3)
		case r < 12:
			e.Search(u)
		case r < 14:
			e.W.Do(e.Server(), u, "oinit", e.label(), nil)
		case r < 18:
			e.W.Do(e.Server(), u, "monitor", "", nil)
		case r < 19:
			if e.S.Conf.Mode != 2 {
				var vals []string
				n := e.R.Intn(4)
				if e.R.Intn(12) == 0 {
					n = e.R.Intn(40)
				}
				for ; n > 0; n-- {
					vals = append(vals, e.value())
				}
				for _, l := range sortedKeys(u.S.Labels) {
					if e.R.Intn(2) == 0 {
						e.Update(u, l, vals)
						break
					}
				}
			}
		default:
			if e.R.Intn(3) == 0 {
				if c := e.W.CloneUser(u); c != nil {
					e.Users = append(e.Users, c)
				}
			} else {
				e.Reopen()
			}
		}
	}
}

// ScenE2E is the generic honest scenario.
func ScenE2E(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	w.Wire = w.Rng.Intn(2) == 0
	late := w.Rng.Intn(16) == 0
	if late {
		c.Rmw = []uint64{1, 50, 300}[w.Rng.Intn(3)]
		c.Life = 0
	}
	e := NewE2E(w, c, 1+w.Rng.Intn(3))
	e.auditLazily = w.Rng.Intn(2) == 0
	e.allowRemove = w.Rng.Intn(4) == 0
	if late {
		e.allowRemove = false
		e.Late()
		return
	}
	switch w.Rng.Intn(10) {
	case 0:
		e.Versions()
	case 1:
		e.Long()
	case 2, 3, 4:
		e.owners = true
		e.Run(50)
	default:
		e.Run(50)
	}
}

// Versions: labels with many versions, many of which are added at once.
func (e *E2E) Versions() {
	for range 1 + e.R.Intn(3) {
		e.Many(10 + e.R.Intn(70))
		e.Run(6)
	}
	for i := 0; i < 4 && !e.W.Broken; i++ {
		e.Many(1 + e.R.Intn(20))
		e.Run(5)
	}
}

// Many adds n versions of a label, or some of them of another one.
func (e *E2E) Many(n int) bool {
	var lv []string
	l := e.label()
	for i := 0; i < n; i++ {
		if e.R.Intn(30) == 0 {
			l = e.label()
		}
		lv = append(lv, l, e.value())
	}
	return e.Commit(e.S.Adds(nil, lv...), nil)
}

// Long: a log with many entries, most of which add nothing.
func (e *E2E) Long() {
	lazy := e.auditLazily
	for i := 20 + e.R.Intn(110); i > 0 && !e.W.Broken; i-- {
		e.auditLazily = e.R.Intn(10) > 0
		e.Grow([]int{0, 0, 0, 1, 2}[e.R.Intn(5)])
		if e.R.Intn(12) == 0 {
			e.Search(e.user())
		}
	}
	e.auditLazily = lazy
	e.Run(25)
}

// Late: owners that come back when there is more to monitor than the log answers
// for at once.
func (e *E2E) Late() {
	w := e.W
	e.gap = int(2 * e.S.Conf.Rmw)
	lazy := e.auditLazily
	for range 3 {
		e.Grow(3)
	}
	for _, u := range e.Users {
		w.Do(e.H, u, "search", e.label(), nil)
		for range 1 + e.R.Intn(2) {
			w.Do(e.H, u, "oinit", e.label(), nil)
		}
	}
	for range 2 {
		for i := 15 + e.R.Intn(60); i > 0 && !w.Broken; i-- {
			e.auditLazily = e.R.Intn(10) > 0
			if e.R.Intn(4) > 0 {
				Sleep(int(e.S.Conf.Rmw))
			}
			e.Grow([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 2}[e.R.Intn(10)])
			if u := e.user(); e.R.Intn(15) == 0 && e.S.Conf.Mode != 2 {
				for _, l := range sortedKeys(u.S.Labels) {
					e.Update(u, l, []string{e.value()}[:e.R.Intn(2)])
					break
				}
			}
		}
		e.auditLazily = lazy
		if e.R.Intn(3) == 0 {
			e.Grow(1)
		}
		for range 6 {
			for _, u := range e.Users {
				if !w.Broken && e.R.Intn(4) > 0 {
					w.Do(e.Server(), u, []string{"monitor", "monitor", "monitor", "search"}[e.R.Intn(4)], e.label(), nil)
				}
			}
		}
	}
	e.Run(10)
}

// Pause lets some time pass.
func (e *E2E) Pause() { Sleep(e.R.Intn(e.gap + 1)) }

// NewValue returns a value not used before.
func (e *E2E) NewValue() string { return e.value() }
