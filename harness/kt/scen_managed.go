package kt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

// Operator is a service operator whose log is run by somebody else.
type Operator struct {
	Name string
	W    *World
	Conf Conf
	DB   *memory.ManagedLogStore
	Log  *managed.ManagedLog

	mu    sync.Mutex
	ops   map[string]*operation
	pass  func(o *operation, at string) bool // whether the call succeeds
	fwd   func(o *operation, ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error)
	asker wire.Interface
}

// operation is a call of Update; those in progress at the same time can be told
// apart by label and number of values, and by each of the values.
type operation struct {
	name, label string
	vals        []string
}

func (g *Operator) rec(e string, m M) { g.W.Rec(e, m) }

// NewOperator makes a service operator.
func (w *World) NewOperator(c Conf, key string) *Operator {
	g := &Operator{Name: w.name("g"), W: w, Conf: c, DB: memory.NewManagedLogStore(), ops: map[string]*operation{},
		pass: func(*operation, string) bool { return true }}
	err := Try(func() (err error) {
		g.Log, err = managed.NewManagedLog(c.Public(), opLog{g}, opStore{g}, opSigner{NewSigner(key), g})
		return err
	})
	w.note("operator", err)
	if w.bad("operator", err) {
		return nil
	}
	w.Rec("mnew", M{"g": g.Name, "C": c.J(), "key": key, "ok": err == nil})
	if err != nil {
		return nil
	}
	return g
}

func (g *Operator) find(f func(o *operation) bool) *operation {
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, k := range sortedKeys(g.ops) {
		if f(g.ops[k]) {
			return g.ops[k]
		}
	}
	return nil
}

// Update runs an update through the operator.
func (g *Operator) Update(ctx context.Context, req *structs.UpdateRequest) (*operation, <-chan wire.UpdateResponse, error) {
	g.mu.Lock()
	o := &operation{name: g.W.name("o"), label: string(req.Label)}
	for _, v := range req.Values {
		o.vals = append(o.vals, string(v.Value))
	}
	g.ops[o.name] = o
	g.rec("mstart", M{"o": o.name, "g": g.Name, "req": JReq(req)})
	g.mu.Unlock()
	var ch <-chan wire.UpdateResponse
	err := Try(func() (err error) { ch, err = g.Log.Update(context.WithValue(ctx, g, o), req); return err })
	g.mu.Lock()
	defer g.mu.Unlock()
	delete(g.ops, o.name)
	g.W.note("operator update", err)
	if !g.W.bad("operator update", err) {
		g.rec("mret", M{"o": o.name, "ok": err == nil})
	}
	return o, ch, err
}

type opStore struct{ g *Operator }

var _ db.ManagedLogStore = opStore{}

func (s opStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
	g := s.g
	o := g.find(func(o *operation) bool { return o.label == string(label) && len(o.vals) == count })
	ok := g.pass(o, "count")
	g.mu.Lock()
	defer g.mu.Unlock()
	if o == nil {
		g.W.Never(fmt.Sprintf("operator: counts %d versions of %q", count, label))
		return 0, errors.New("unexpected")
	}
	ev := M{"o": o.name, "label": Hex(label), "n": count, "ok": ok, "prev": 0}
	prev, err := 0, errors.New("injected fault in counter")
	if ok {
		prev, err = g.DB.IncrementGreatestVersion(label, count)
		ev["ok"], ev["prev"] = err == nil, prev
	}
	g.rec("minc", ev)
	return prev, err
}

type opSigner struct {
	*Signer
	g *Operator
}

func (s opSigner) Sign(msg []byte) ([]byte, error) {
	g := s.g
	o := g.find(func(o *operation) bool {
		for _, v := range o.vals {
			if bytes.HasSuffix(msg, []byte(v)) {
				return true
			}
		}
		return false
	})
	ok := g.pass(o, "sign")
	g.mu.Lock()
	defer g.mu.Unlock()
	if o == nil {
		g.W.Never("operator: signs " + Hex(msg))
		return nil, errors.New("unexpected")
	}
	g.rec("msign", M{"o": o.name, "msg": Hex(msg), "ok": ok})
	if !ok {
		return nil, errors.New("injected fault in signer")
	}
	return s.Signer.Sign(msg)
}

// opLog is the log as the operator sees it.
type opLog struct{ g *Operator }

var _ wire.ManagerInterface = opLog{}

func (l opLog) Search(ctx context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	return l.g.asker.Search(ctx, req)
}
func (l opLog) ContactMonitor(ctx context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	return l.g.asker.ContactMonitor(ctx, req)
}
func (l opLog) OwnerInit(ctx context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	return l.g.asker.OwnerInit(ctx, req)
}
func (l opLog) OwnerMonitor(ctx context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	return l.g.asker.OwnerMonitor(ctx, req)
}
func (l opLog) Update(ctx context.Context, req *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	l.g.mu.Lock()
	l.g.W.Never("operator: submits without signatures")
	l.g.mu.Unlock()
	return nil, errors.New("unexpected")
}

func jMgr(req *structs.ManagerUpdateRequest) M {
	vals := []M{}
	for _, v := range req.Values {
		vals = append(vals, jValue(v))
	}
	return M{"last": Opt64(req.Last), "label": Hex(req.Label), "gv": Opt32(req.GreatestVersion),
		"sver": unum(uint64(req.SignedVersion)), "vals": vals}
}

func (l opLog) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	g := l.g
	o, _ := ctx.Value(g).(*operation)
	if o == nil { // the context was not passed on
		o = g.find(func(o *operation) bool { return o.label == string(req.Label) && len(o.vals) == len(req.Values) })
	}
	ok := g.pass(o, "submit")
	g.mu.Lock()
	defer g.mu.Unlock()
	if o == nil {
		g.W.Never("operator: submits something else")
		return nil, errors.New("unexpected")
	}
	ev := M{"o": o.name, "req": jMgr(req), "ok": ok}
	g.rec("mfwd", ev)
	if !ok {
		return nil, errors.New("injected fault in submission")
	}
	ch, err := g.fwd(o, ctx, req)
	ev["ok"] = err == nil
	return ch, err
}

///////////////////////////////////////////////////////////////////////////////

// ManagerUpdate submits signed versions to the log.
func (w *World) ManagerUpdate(h *Handle, req *structs.ManagerUpdateRequest) (*Stream, error) {
	if w.Wire && h.Store.Conf.Mode == 2 {
		raw, err := structs.Marshal(req)
		if err == nil {
			buf := bytes.NewBuffer(raw)
			var r2 *structs.ManagerUpdateRequest
			r2, err = structs.NewManagerUpdateRequest(h.Store.Cfg.Public(), buf)
			if err == nil && buf.Len() > 0 {
				err = errors.New("trailing data")
			}
			if err == nil {
				req = r2
			}
		}
		if err != nil && len(req.Label) < 256 {
			if !w.bad("request encoding", err) {
				w.Never("request does not survive its encoding: " + err.Error())
			}
			return nil, err
		}
	}
	j := jMgr(req)
	vals := []structs.LabelValue{}
	for _, v := range req.Values {
		vals = append(vals, structs.LabelValue{Value: v.Value})
	}
	plain := &structs.UpdateRequest{Last: req.Last, Label: req.Label, GreatestVersion: req.GreatestVersion, Values: vals}
	s := &Stream{Name: w.name("u"), H: h, Req: plain}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	err := Try(func() (err error) { s.ch, err = h.Tree.ManagerUpdate(ctx, req); return err })
	w.note("server manager update", err)
	if w.bad("server update", err) {
		cancel()
		return nil, err
	}
	ev := M{"u": s.Name, "h": h.Name, "req": JReq(plain), "mgr": []any{j}, "ok": err == nil}
	if err != nil {
		ev = w.faulted("log", ev)
	}
	w.Rec("ustart", ev)
	if err != nil {
		cancel()
		return nil, err
	}
	s.settle(w)
	return s, nil
}

// managedE2E is a log under third-party management with its operator.
type managedE2E struct {
	*E2E
	g *Operator
}

// grow adds versions that the operator signs itself.
func (m *managedE2E) grow(max int) {
	Sleep(m.R.Intn(m.gap + 1))
	var lv []string
	for i := m.R.Intn(max + 1); i > 0; i-- {
		l := m.label()
		prev, err := m.g.DB.IncrementGreatestVersion([]byte(l), 1)
		if err != nil {
			continue
		}
		m.W.Rec("mcnt", M{"g": m.g.Name, "label": Hex([]byte(l)), "n": 1, "prev": prev})
		if prev+1 != m.S.Vers[l]+count(lv, l) {
			continue // versions signed before were never added
		}
		lv = append(lv, l, m.value())
	}
	m.Commit(m.S.Adds(nil, lv...), nil)
}
func count(lv []string, l string) int {
	n := 0
	for i := 0; i < len(lv); i += 2 {
		if lv[i] == l {
			n++
		}
	}
	return n
}

// seq adds what the log asks to be added, unless that is not what is next.
func (m *managedE2E) seq(r transparency.UpdateRequest) (uint64, bool) {
	next := m.S.Vers[string(r.Label)]
	if r.StartingVersion != nil && int(*r.StartingVersion) != next {
		return 0, false
	}
	var add []Add
	for _, v := range r.Values {
		sig := v.Signature
		if sig == nil {
			sig = []byte{}
		}
		add = append(add, Add{Label: string(r.Label), Value: string(v.Value), Sig: sig, HasSig: true})
	}
	Sleep(m.R.Intn(m.gap + 1))
	if !m.Commit(add, nil) {
		return 0, false
	}
	pos := uint64(m.H.Size() - 1)
	for m.R.Intn(4) == 0 {
		m.grow(2)
	}
	return pos, true
}

// mine is usually a label that the user owns.
func (m *managedE2E) mine(u *User) string {
	if ls := sortedKeys(u.S.Labels); len(ls) > 0 && m.R.Intn(10) > 0 {
		return ls[m.R.Intn(len(ls))]
	}
	return m.label()
}

func (m *managedE2E) vals(n int) []string {
	var out []string
	for ; n > 0; n-- {
		m.step++
		out = append(out, fmt.Sprintf("signed-%d.", m.step))
	}
	return out
}

// update runs an update by a user, through the operator or past it.
func (m *managedE2E) update(u *User, label string) {
	w := m.W
	p := w.Request(u, "update", label, nil, m.vals(m.R.Intn(4)))
	if p == nil {
		return
	}
	req := p.Req.(*structs.UpdateRequest)
	h := w.Open(m.S)
	if h == nil {
		return
	}
	var st *Stream
	if m.R.Intn(25) == 0 {
		st = w.StartUpdate(h, req) // unsigned
	} else {
		m.g.fwd = func(o *operation, ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
			s, err := w.ManagerUpdate(h, req)
			if err != nil {
				return nil, err
			}
			st = s
			return s.ch, nil
		}
		fails := ""
		if m.R.Intn(5) == 0 {
			fails = []string{"count", "sign", "submit"}[m.R.Intn(3)]
		}
		nth := m.R.Intn(2)
		m.g.pass = func(o *operation, at string) bool {
			if at != fails {
				return true
			}
			nth--
			return nth != -1
		}
		_, ch, err := m.g.Update(context.Background(), req)
		if err == nil && (st == nil || ch != st.ch) && !w.Broken {
			w.Never("operator: responses are not those of the log")
		}
		if err != nil && st != nil {
			st.Close()
			return
		}
	}
	m.follow(u, p, st)
}

func (m *managedE2E) follow(u *User, p *Pending, st *Stream) {
	if st == nil {
		return
	}
	defer st.Close()
	for {
		res, ok := m.W.Next(st, m.seq)
		if !ok || m.W.Broken {
			return
		}
		if m.W.VerifyFrom(st.Name, p, res) != nil {
			return
		}
	}
}

// forge submits something to the log that the operator did not sign, or not
// like that.
func (m *managedE2E) forge(u *User, label string) {
	w, R := m.W, m.R
	p := w.Request(u, "update", label, nil, m.vals(R.Intn(4)))
	if p == nil {
		return
	}
	req := p.Req.(*structs.UpdateRequest)
	sv := uint32(m.S.Vers[label])
	out := &structs.ManagerUpdateRequest{Last: req.Last, Label: req.Label, GreatestVersion: req.GreatestVersion, SignedVersion: sv}
	c, l, key := m.S.Conf, label, m.S.Conf.Lk
	kind := R.Intn(12)
	switch kind {
	case 1:
		c.Behind++
	case 2:
		l += "x"
	case 3:
		key = "mallory"
	case 4:
		sv++
	case 5:
		c.Vk += "x"
	}
	for i, v := range req.Values {
		tbs, err := structs.Marshal(&structs.UpdateTBS{Config: c.Public(), Label: []byte(l), Version: sv + uint32(i), Value: v.Value})
		if err != nil {
			continue
		}
		sig, _ := NewSigner(key).Sign(tbs)
		out.Values = append(out.Values, structs.UpdateValue{Value: v.Value, UpdateSuffix: structs.UpdateSuffix{Signature: sig}})
	}
	if n := len(out.Values); n > 0 {
		v := &out.Values[R.Intn(n)]
		switch kind {
		case 6:
			v.Signature = bytes.Clone(v.Signature)
			v.Signature[R.Intn(len(v.Signature))] ^= 1 << R.Intn(8)
		case 7:
			v.Signature = []byte{}
		case 8:
			v.Value = append(bytes.Clone(v.Value), 'x')
		case 9:
			x := &out.Values[R.Intn(n)]
			v.Signature, x.Signature = x.Signature, v.Signature
		case 10:
			v.Signature = append(bytes.Clone(v.Signature), 0)
		case 11:
			v.Signature = v.Signature[:len(v.Signature)-1]
		}
	}
	h := w.Open(m.S)
	if h == nil {
		return
	}
	st, err := w.ManagerUpdate(h, out)
	if err == nil && w.Rng.Intn(2) == 0 {
		m.follow(u, p, st)
	} else if err == nil {
		st.Close()
	}
}

// ScenManaged runs a log under third-party management.
func ScenManaged(w *World, idx int) {
	if idx%3 == 0 {
		concurrentOperator(w)
		return
	}
	c := RandConf(w.Rng, 2)
	w.Wire = w.Rng.Intn(2) == 0
	for range 2 { // configurations that are refused
		d, key := RandConf(w.Rng, 1+w.Rng.Intn(3)), "leaf"
		if w.Rng.Intn(2) == 0 {
			key = []string{"log", "leaf2", "", "lea"}[w.Rng.Intn(4)]
		}
		w.NewOperator(d, key)
	}
	g := w.NewOperator(c, "leaf")
	if g == nil {
		return
	}
	m := &managedE2E{NewE2E(w, c, 1+w.Rng.Intn(2)), g}
	m.Labels = []string{"a", "b", "c", "alice", "x", "y", "z", ""}[:3+w.Rng.Intn(6)]
	wrong := w.Rng.Intn(4) == 0 // submissions to a log of another kind
	var other *Handle
	if wrong {
		other = w.Open(w.NewStore(RandConf(w.Rng, 1+2*w.Rng.Intn(2)), nil))
	}
	for i := 0; i < 40 && !w.Broken; i++ {
		u := m.user()
		g.asker = m.H.Tree
		m.H.Via = nil
		if w.Rng.Intn(2) == 0 {
			m.H.Via = g.Log
		}
		switch r := m.R.Intn(20); {
		case r < 4 || m.H.Size() == 0:
			m.grow(3)
		case r < 9:
			l := m.label()
			var ver *uint32
			if n := m.S.Vers[l]; n > 0 && m.R.Intn(2) == 0 {
				v := uint32(m.R.Intn(n))
				ver = &v
			}
			w.Do(m.H, u, "search", l, ver)
		case r < 11:
			w.Do(m.H, u, "oinit", m.label(), nil)
		case r < 13:
			w.Do(m.H, u, "monitor", "", nil)
		case r < 15:
			m.forge(u, m.mine(u))
		default:
			m.update(u, m.mine(u))
		}
		if other != nil && w.Rng.Intn(10) == 0 {
			w.ManagerUpdate(other, &structs.ManagerUpdateRequest{Label: []byte("a"),
				Values: []structs.UpdateValue{{Value: []byte("v"), UpdateSuffix: structs.UpdateSuffix{Signature: []byte("s")}}}})
		}
	}
}

// sched lets one of several goroutines run at a time, from one call to the
// next.
type sched struct {
	rng  *rand.Rand
	park chan *parked
	done chan struct{}
}
type parked struct {
	key string
	go_ chan bool
}

// run releases the goroutines in some order until n are done.
func (s *sched) run(n int, ok func() bool) {
	var ps []*parked
	for n > 0 {
		limit := 25 * time.Millisecond // for those that wait for each other
		if len(ps) == 0 {
			limit = time.Minute
		}
		// Wait until everyone has stopped, if that can be.
		for len(ps) < n {
			select {
			case p := <-s.park:
				ps = append(ps, p)
				continue
			case <-s.done:
				n--
				continue
			case <-time.After(limit):
			}
			break
		}
		if n == 0 {
			return
		}
		if len(ps) == 0 {
			panic("operator: deadlock")
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].key < ps[j].key })
		i := s.rng.Intn(len(ps))
		p := ps[i]
		ps = append(ps[:i:i], ps[i+1:]...)
		p.go_ <- ok()
	}
}

// concurrentOperator runs operations of an operator at the same time, in real
// time: each call that they make out of the operator is a point where another
// may continue.
func concurrentOperator(w *World) {
	g := w.NewOperator(RandConf(w.Rng, 2), "leaf")
	if g == nil {
		return
	}
	s := &sched{rng: w.Rng}
	failing := w.Rng.Intn(3)
	labels := []string{"a", "b"}[:1+w.Rng.Intn(2)]
	if w.Rng.Intn(4) == 0 {
		labels[0] = string(bytes.Repeat([]byte("l"), 250+w.Rng.Intn(10)))
	}
	step := 0
	Outside(func() {
		g.pass = func(o *operation, at string) bool {
			p := &parked{key: at, go_: make(chan bool)}
			if o != nil {
				p.key = o.name + at
			}
			s.park <- p
			return <-p.go_
		}
		g.fwd = func(*operation, context.Context, *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
			return make(chan wire.UpdateResponse), nil
		}
		for range 4 {
			n := 1 + w.Rng.Intn(3)
			s.park, s.done = make(chan *parked), make(chan struct{})
			for i := range n {
				req := &structs.UpdateRequest{Label: []byte(labels[w.Rng.Intn(len(labels))])}
				if w.Rng.Intn(2) == 0 {
					x, y := uint64(w.Rng.Intn(9)), uint32(w.Rng.Intn(9))
					req.Last, req.GreatestVersion = &x, &y
				}
				for range (i + w.Rng.Intn(2)*n) % 7 { // distinct numbers
					step++
					req.Values = append(req.Values, structs.LabelValue{Value: fmt.Appendf(nil, "value-%d.", step)})
				}
				go func() {
					g.Update(context.Background(), req)
					s.done <- struct{}{}
				}()
			}
			s.run(n, func() bool { return failing != 0 || w.Rng.Intn(6) != 0 })
		}
		// The counter itself, from several threads at once.
		label := []byte("counter")
		prev := -1
		for range 3 {
			var wg sync.WaitGroup
			got := make([]M, 8)
			for i := range got {
				wg.Add(1)
				go func() {
					defer wg.Done()
					v, err := g.DB.IncrementGreatestVersion(label, 1+i%3)
					if err != nil {
						v = -100
					}
					got[i] = M{"n": 1 + i%3, "prev": v}
				}()
			}
			wg.Wait()
			sort.Slice(got, func(i, j int) bool { return got[i]["prev"].(int) < got[j]["prev"].(int) })
			w.Rec("mpar", M{"g": g.Name, "label": Hex(label), "prev": prev, "got": got})
			last := got[len(got)-1]
			prev = last["prev"].(int) + last["n"].(int)
		}
	})
}
