package kt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"slices"

	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

///////////////////////////////////////////////////////////////////////////////
// Altered messages

// Alter returns an altered copy of a response, or nil. Half of the time it goes
// through the wire encoding, or the encoding itself is altered.
func (w *World) Alter(m *Mutator, cfg *structs.PublicConfig, req, res any) any {
	if w.Rng.Intn(4) == 0 {
		return w.alterBytes(cfg, req, res)
	}
	out, how := m.Mutate(res)
	for w.Rng.Intn(4) == 0 {
		out, _ = m.Mutate(out)
	}
	w.Notes["altered "+how[:min(len(how), 60)]]++
	return out
}

func (w *World) alterBytes(cfg *structs.PublicConfig, req, res any) any {
	var raw []byte
	err := Try(func() (err error) { raw, err = structs.Marshal(res.(structs.Marshaller)); return err })
	if w.bad("encoding", err) || err != nil {
		return nil
	}
	r := w.Rng
	alt := FlipBytes(r, raw)
	var out any
	err = Try(func() (err error) { out, err = ParseRes(cfg, req, alt); return err })
	w.note("decode altered", err)
	if w.bad("decoding", err) || err != nil {
		return nil
	}
	// What is accepted must be the encoding of what it decodes to.
	var again []byte
	err = Try(func() (err error) { again, err = structs.Marshal(out.(structs.Marshaller)); return err })
	if w.bad("encoding", err) {
		return nil
	} else if err != nil || !bytes.Equal(again, alt) {
		w.Never(fmt.Sprintf("encoding is not canonical: %T %x", out, alt))
		return nil
	}
	return out
}

// FlipBytes alters a byte string a little.
func FlipBytes(r *rand.Rand, raw []byte) []byte {
	alt := bytes.Clone(raw)
	for ok := true; ok; ok = r.Intn(3) == 0 {
		switch k := r.Intn(8); {
		case k == 0 && len(alt) > 0:
			alt = alt[:r.Intn(len(alt))]
		case k == 1:
			alt = append(alt, byte(r.Intn(256)))
		case k == 2 && len(alt) > 0: // remove a byte
			i := r.Intn(len(alt))
			alt = append(alt[:i:i], alt[i+1:]...)
		case k == 3: // insert a byte
			i := r.Intn(len(alt) + 1)
			alt = slices.Insert(alt, i, byte(r.Intn(256)))
		case k == 4 && len(alt) > 8: // extreme number
			i := r.Intn(len(alt) - 7)
			n := []int{1, 2, 4, 8}[r.Intn(4)]
			for j := range n {
				alt[i+j] = []byte{0, 0xff}[i%2]
			}
		case k == 5 && len(alt) > 0: // small byte, where most of the structure is
			i := r.Intn(len(alt))
			alt[i] = byte(r.Intn(4))
		default:
			if len(alt) > 0 {
				alt[r.Intn(len(alt))] ^= 1 << r.Intn(8)
			}
		}
	}
	return alt
}

// DoTampered runs a whole request; before the honest response the user gets
// altered ones.
func (e *E2E) DoTampered(m *Mutator, h *Handle, u *User, kind, label string, ver *uint32, n int) {
	w := e.W
	p := w.Request(u, kind, label, ver, nil)
	if p == nil {
		return
	}
	res, err := w.Ask(h, p.Req, false)
	if err != nil {
		return
	}
	for i := 0; i < n && !w.Broken; i++ {
		if alt := w.Alter(m, u.Cfg, p.Req, res); alt != nil {
			if q := p.Again(); q != nil && sameKindOf(q, p) {
				w.Verify(q, alt)
			}
		}
	}
	// Another request's response.
	if len(m.Donors) > 0 && e.R.Intn(3) == 0 {
		d := DeepCopy2(m.Donors[e.R.Intn(len(m.Donors))])
		if q := p.Again(); q != nil && sameKind(d, res) && sameKindOf(q, p) {
			w.Verify(q, d)
		}
	}
	m.Learn(res)
	if !w.Broken {
		w.VerifyFrom(h.Name, p, res)
	}
	if e.R.Intn(6) == 0 && !w.Broken { // duplicated
		if q := p.Again(); q != nil && sameKindOf(q, p) {
			w.Verify(q, res)
		}
	}
}

func sameKindOf(a, b *Pending) bool { return a.Kind == b.Kind }

func sameKind(a, b any) bool { return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) }

// searchTarget draws what to search for.
func (e *E2E) searchTarget() (string, *uint32) {
	l := e.label()
	if e.R.Intn(2) == 0 {
		v := uint32(e.R.Intn(e.S.Vers[l] + 1))
		return l, &v
	}
	return l, nil
}

// ScenTamper: an honest log, but responses are altered on the way.
func ScenTamper(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	w.Wire = w.Rng.Intn(2) == 0
	e := NewE2E(w, c, 1+w.Rng.Intn(2))
	e.auditLazily = w.Rng.Intn(2) == 0
	m := &Mutator{R: w.Rng}
	for i := 0; i < 22 && !w.Broken; i++ {
		u := e.user()
		switch r := e.R.Intn(14); {
		case r < 4 || e.H.Size() == 0:
			e.Grow(3)
		case r < 9:
			l, v := e.searchTarget()
			e.DoTampered(m, e.Server(), u, "search", l, v, 6)
		case r < 10:
			e.DoTampered(m, e.Server(), u, "oinit", e.label(), nil, 6)
		case r < 13:
			e.DoTampered(m, e.Server(), u, "monitor", "", nil, 6)
		default:
			if c.Mode != 2 {
				for l := range u.S.Labels {
					var vals []string
					for j := e.R.Intn(3); j > 0; j-- {
						vals = append(vals, e.value())
					}
					e.tamper = m
					e.Update(u, l, vals)
					e.tamper = nil
					break
				}
			}
		}
	}
}

///////////////////////////////////////////////////////////////////////////////
// Logs that break the rules

// EvilVer is a version of a label as it is, or was, in the prefix tree.
type EvilVer struct {
	Opening []byte
	Val     structs.UpdateValue
	Com     []byte
}

// Evil is a log whose operator does as it likes. It answers with the honest
// code, from data that was prepared to its liking.
type Evil struct {
	W     *World
	R     *rand.Rand
	S     *Store
	n     uint64
	tree  map[string]map[uint32]EvilVer // what the prefix tree contains
	index map[string][]uint64
	ts    uint64
	// Everything that was ever in the prefix tree.
	Hist map[string]map[uint32][]EvilVer
}

func (w *World) NewEvil(s *Store, n int, ts uint64) *Evil {
	return &Evil{W: w, R: w.Rng, S: s, n: uint64(n), tree: map[string]map[uint32]EvilVer{}, index: map[string][]uint64{}, ts: ts,
		Hist: map[string]map[uint32][]EvilVer{}}
}

// Size is the number of log entries.
func (v *Evil) Size() uint64 { return v.n }

// Ts is the timestamp of the last log entry.
func (v *Evil) Ts() uint64 { return v.ts }

func (v *Evil) put(l string, ver uint32, x EvilVer) {
	if v.tree[l] == nil {
		v.tree[l] = map[uint32]EvilVer{}
	}
	if v.Hist[l] == nil {
		v.Hist[l] = map[uint32][]EvilVer{}
	}
	v.tree[l][ver] = x
	for _, y := range v.Hist[l][ver] {
		if bytes.Equal(x.Com, y.Com) {
			return
		}
	}
	v.Hist[l][ver] = append(v.Hist[l][ver], x)
}

// Learn takes over what the honest log has stored.
func (v *Evil) Learn(labels []string) {
	for _, l := range labels {
		raw, _ := v.S.Rec.Under.BatchGetIndex([][]byte{[]byte(l)})
		if raw[0] == nil {
			continue
		}
		buf := bytes.NewBuffer(raw[0])
		var pos uint64
		for first := true; buf.Len() > 0; first = false {
			d, err := binary.ReadUvarint(buf)
			if err != nil {
				break
			}
			if first {
				pos = d
			} else {
				pos += d
			}
			v.index[l] = append(v.index[l], pos)
		}
		v.tree[l] = map[uint32]EvilVer{}
		for i := range v.index[l] {
			d, _ := v.S.Rec.Under.GetVersion([]byte(l), uint32(i))
			if len(d) < 16 {
				continue
			}
			ov, err := structs.NewOpeningAndValue(v.S.Cfg.Public(), bytes.NewBuffer(d))
			if err != nil {
				continue
			}
			v.put(l, uint32(i), EvilVer{ov.Opening, ov.Value, CommitTo(ov.Opening, []byte(l), uint32(i), ov.Value)})
		}
	}
}

func (v *Evil) vrf(l string, ver uint32) []byte {
	return v.S.Conf.VrfOutput(l, ver)
}

func (v *Evil) newVer(l string, ver uint32, value string) EvilVer {
	x := EvilVer{Opening: make([]byte, 16), Val: structs.UpdateValue{Value: []byte(value)}}
	v.R.Read(x.Opening)
	if v.S.Conf.Mode == 2 {
		x.Val.UpdateSuffix.Signature = SignedAdd(v.S.Conf, l, value, int(ver)).Sig
	}
	x.Com = CommitTo(x.Opening, []byte(l), ver, x.Val)
	return x
}

// evilChange is what a log entry does to one version of a label.
type evilChange struct {
	label string
	ver   uint32
	put   *EvilVer // nil: remove
	store bool     // whether the database follows
}

// Append adds a log entry with the given changes. index is called afterwards to
// decide on the positions the database has for each label changed.
func (v *Evil) Append(ts uint64, changes []evilChange) bool {
	w, tx, cs := v.W, v.S.Rec.Under, NewSuite()
	rem := map[string][]byte{}
	add := map[string]prefix.Entry{}
	for _, c := range changes {
		out := v.vrf(c.label, c.ver)
		if v.tree[c.label] == nil {
			v.tree[c.label] = map[uint32]EvilVer{}
		}
		if _, ok := v.tree[c.label][c.ver]; ok {
			if add[string(out)].VrfOutput == nil {
				rem[string(out)] = out
			}
			delete(v.tree[c.label], c.ver)
		}
		delete(add, string(out))
		if c.put != nil {
			add[string(out)] = prefix.Entry{VrfOutput: out, Commitment: c.put.Com}
			v.put(c.label, c.ver, *c.put)
			if c.store {
				raw, _ := structs.Marshal(&structs.OpeningAndValue{Opening: c.put.Opening, Value: c.put.Val})
				tx.PutVersion([]byte(c.label), c.ver, raw)
			}
		}
	}
	var adds []prefix.Entry
	var rems [][]byte
	for _, k := range sortedKeys(add) {
		adds = append(adds, add[k])
	}
	for _, k := range sortedKeys(rem) {
		rems = append(rems, rem[k])
	}
	var head *structs.TreeHead
	err := Try(func() error {
		root, _, _, err := prefix.NewTree(cs, tx.PrefixStore()).Mutate(v.n, adds, rems)
		if err != nil {
			return err
		}
		le := &structs.LogEntry{Timestamp: ts, PrefixTree: root}
		raw, err := structs.Marshal(le)
		if err != nil {
			return err
		} else if err := tx.Put(v.n, raw); err != nil {
			return err
		}
		leaf, err := le.Hash(cs)
		if err != nil {
			return err
		}
		fs, err := log.NewTree(cs, tx.LogStore()).Append(v.n, leaf)
		if err != nil {
			return err
		}
		lroot, err := log.Root(cs, v.n+1, fs)
		if err != nil {
			return err
		}
		tbs, err := structs.Marshal(&structs.TreeHeadTBS{Config: v.S.Cfg.Public(), TreeSize: v.n + 1, Root: lroot})
		if err != nil {
			return err
		}
		sig, err := v.S.Cfg.SignatureKey.Sign(tbs)
		if err != nil {
			return err
		}
		head = &structs.TreeHead{TreeSize: v.n + 1, Signature: sig}
		raw, err = structs.Marshal(head)
		if err != nil {
			return err
		} else if err := tx.PutTreeHead(raw); err != nil {
			return err
		}
		return nil
	})
	if err != nil {
		if !w.bad("evil", err) {
			w.Never("trees refuse a well-formed change: " + err.Error())
		}
		return false
	}
	for l, idx := range v.index {
		v.putIndex(l, idx)
	}
	tx.Commit()
	v.n++
	v.ts = ts
	w.Rec("evil", M{"s": v.S.Name, "ts": TsNum(ts), "add": jPrefixEntries(adds), "rem": Hexes(rems), "th": jTreeHead(head)})
	return true
}

func (v *Evil) putIndex(l string, idx []uint64) {
	if len(idx) == 0 {
		v.S.Rec.Under.DeleteIndex([]byte(l))
		return
	}
	var raw []byte
	var prev uint64
	for i, p := range idx {
		if i == 0 {
			raw = binary.AppendUvarint(raw, p)
		} else {
			raw = binary.AppendUvarint(raw, p-prev)
		}
		prev = p
	}
	v.S.Rec.Under.PutIndex([]byte(l), raw)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func (v *Evil) now() uint64 { return uint64(Now() + Base) }

// Step adds a log entry, usually one that breaks a rule.
func (v *Evil) Step(labels []string, value func() string) bool {
	r := v.R
	ts := max(v.now(), v.ts)
	switch r.Intn(12) {
	case 0:
		ts = v.ts - min(v.ts, uint64(1+r.Intn(3000))) // goes back
	case 1:
		ts += uint64(r.Intn(70000))
	}
	var ch []evilChange
	for k := 1 + r.Intn(3); k > 0; k-- {
		l := labels[r.Intn(len(labels))]
		idx := v.index[l]
		g := uint32(len(idx))
		some := uint32(0)
		if g > 0 {
			some = uint32(r.Intn(int(g)))
		}
		switch k := r.Intn(10); {
		case k < 3: // a version as it should be
			x := v.newVer(l, g, value())
			ch = append(ch, evilChange{l, g, &x, true})
			v.index[l] = append(idx, v.n)
		case k == 3: // present in the tree but denied
			x := v.newVer(l, g, value())
			ch = append(ch, evilChange{l, g, &x, true})
		case k == 4: // a version that leaves a gap
			x := v.newVer(l, g+1, value())
			ch = append(ch, evilChange{l, g + 1, &x, true})
			if r.Intn(2) == 0 {
				v.index[l] = append(append(idx, v.n), v.n)
			}
		case k == 5 && g > 0: // replaced
			x := v.newVer(l, some, value())
			ch = append(ch, evilChange{l, some, &x, r.Intn(3) > 0})
		case k == 6 && g > 0: // dropped
			ch = append(ch, evilChange{l, some, nil, true})
		case k == 7 && g > 0: // the greatest one is dropped, and not known anymore
			ch = append(ch, evilChange{l, g - 1, nil, true})
			v.index[l] = idx[:g-1]
		case k == 8 && g > 0: // a lie about where a version was created
			i := r.Intn(int(g))
			idx[i] = uint64(r.Intn(int(v.n) + 1))
			slices.Sort(idx)
		case k == 9: // claimed but not in the tree
			v.index[l] = append(idx, v.n)
		}
	}
	return v.Append(ts, ch)
}

// ScenEvil: users of a log that starts to misbehave.
func ScenEvil(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	w.Wire = w.Rng.Intn(3) == 0
	e := NewE2E(w, c, 1+w.Rng.Intn(3))
	if w.Rng.Intn(3) == 0 {
		e.Labels = e.Labels[:1]
	}
	for n := e.R.Intn(12); n > 0 || e.H.Size() == 0; n-- {
		e.Grow(3)
		if e.R.Intn(2) == 0 {
			e.userStep(e.user(), e.H, false)
		}
	}
	if w.Broken {
		return
	}
	// Users go on with one of several versions of the log.
	type side struct {
		s *Store
		v *Evil
		h *Handle
	}
	var sides []*side
	for range 1 + e.R.Intn(3) {
		s := w.Fork(e.S)
		v := w.NewEvil(s, e.H.Size(), 0)
		v.ts = v.now()
		v.Learn(e.Labels)
		sides = append(sides, &side{s, v, w.Open(s)})
	}
	for i := 0; i < 30 && !w.Broken; i++ {
		x := sides[e.R.Intn(len(sides))]
		if e.R.Intn(3) == 0 {
			Sleep(e.R.Intn(e.gap + 1))
			if !x.v.Step(e.Labels, e.value) {
				return
			}
			if c.Mode == 3 { // the auditor colludes, mostly
				w.CollusiveAudit(x.s, int(x.v.n), x.v.ts)
			}
			if x.h = w.Open(x.s); x.h == nil {
				return
			}
			continue
		}
		h := x.h
		if len(sides) > 1 && e.R.Intn(6) == 0 {
			h = sides[e.R.Intn(len(sides))].h
		}
		e.userStep(e.user(), h, true)
	}
}

// CollusiveAudit makes up an auditor's tree head for the log as it is.
func (w *World) CollusiveAudit(s *Store, n int, ts uint64) {
	if w.Rng.Intn(3) == 0 {
		return
	}
	claim := n
	switch w.Rng.Intn(8) {
	case 0:
		ts -= uint64(w.Rng.Intn(2))
	case 1:
		claim--
	}
	w.ForgeAudit(s, n, ts, claim)
}

// LogRootOf returns the root of the log when it had n entries.
func (w *World) LogRootOf(s *Store, n int) []byte {
	cs := NewSuite()
	var root []byte
	err := Try(func() error {
		// Hashes of the full subtrees, from the leaves.
		var fs [][]byte
		for i := 0; i < n; i++ {
			raw, err := s.Rec.Under.BatchGet([]uint64{uint64(i)})
			if err != nil {
				return err
			}
			le, err := structs.NewLogEntry(cs, bytes.NewBuffer(raw[uint64(i)]))
			if err != nil {
				return err
			}
			leaf, err := le.Hash(cs)
			if err != nil {
				return err
			}
			if fs, err = log.Append(cs, uint64(i), fs, leaf); err != nil {
				return err
			}
		}
		var err error
		root, err = log.Root(cs, uint64(n), fs)
		return err
	})
	if err != nil {
		w.Never("root of the log: " + err.Error())
		return nil
	}
	return root
}

// ForgeAudit makes up an auditor's tree head: the root of the first n entries,
// with the given time and size.
func (w *World) ForgeAudit(s *Store, n int, ts uint64, claim int) {
	if head := w.MakeAudit(s, n, ts, claim); head != nil {
		w.PutAuditorHead(s, head)
	}
}

// MakeHead makes a tree head for the first n entries of the log.
func (w *World) MakeHead(s *Store, n int) *structs.TreeHead {
	root := w.LogRootOf(s, n)
	if root == nil {
		return nil
	}
	head := &structs.TreeHead{TreeSize: uint64(n)}
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{Config: s.Cfg.Public(), TreeSize: head.TreeSize, Root: root})
	if err != nil {
		w.Never("forged head: " + err.Error())
		return nil
	}
	head.Signature, _ = NewSigner(s.Conf.Sk).Sign(tbs)
	return head
}

// MakeAudit makes an auditor's tree head.
func (w *World) MakeAudit(s *Store, n int, ts uint64, claim int) *structs.AuditorTreeHead {
	root := w.LogRootOf(s, n)
	if root == nil {
		return nil
	}
	head := &structs.AuditorTreeHead{Timestamp: ts, TreeSize: uint64(claim)}
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{Config: s.Cfg.Public(), Timestamp: head.Timestamp, TreeSize: head.TreeSize, Root: root})
	if err != nil {
		w.Never("forged audit: " + err.Error())
		return nil
	}
	head.Signature, _ = NewSigner(s.Conf.Ak).Sign(tbs)
	return head
}

// SetLabel has the user retain made-up state about a label, or nothing. What the user
// retains then needs not be true anymore, but has to be treated correctly.
func (w *World) SetLabel(u *User, label string, ls *structs.ClientLabelState, terminal uint64) {
	if ls == nil {
		delete(u.S.Labels, label)
	} else {
		raw, err := structs.Marshal(ls)
		if err != nil {
			w.Never("label state: " + err.Error())
			return
		}
		u.S.Labels[label] = LabelRec{raw, terminal}
	}
	st, lab, err := JClientState(u.Cfg, u.S)
	if err != nil {
		w.Never("user's state can not be decoded: " + err.Error())
		return
	}
	w.Rec("setlab", M{"c": u.Name, "st": st, "lab": lab})
}

// userStep makes a random request of a user, against any log.
func (e *E2E) userStep(u *User, h *Handle, quiet bool) {
	w := e.W
	kind, label := "search", ""
	var ver *uint32
	switch r := e.R.Intn(10); {
	case r < 4:
		label, ver = e.searchTarget()
	case r < 5:
		kind, label = "oinit", e.label()
	case r < 9:
		kind = "monitor"
	default:
		kind = "update"
		if u.Conf.Mode != 2 {
			e.evilUpdate(u, h)
		}
		return
	}
	p := w.Request(u, kind, label, ver, nil)
	if p == nil {
		return
	}
	res, err := w.Ask(h, p.Req, quiet)
	if err != nil || w.Broken {
		return
	}
	if quiet {
		w.Verify(p, res)
	} else {
		w.VerifyFrom(h.Name, p, res)
	}
}

// evilUpdate has a user ask for the versions of a label of its own.
func (e *E2E) evilUpdate(u *User, h *Handle) {
	w := e.W
	for _, l := range sortedKeys(u.S.Labels) {
		p := w.Request(u, "update", l, nil, nil)
		if p == nil {
			continue
		}
		out := w.QuietUpdate(h, p.Req.(*structs.UpdateRequest))
		for _, res := range out {
			if w.Broken || w.Verify(p, res) != nil {
				return
			}
		}
		return
	}
}

// QuietUpdate returns the responses to an update that adds nothing.
func (w *World) QuietUpdate(h *Handle, req *structs.UpdateRequest) []any {
	s := w.startQuiet(h, req)
	if s == nil {
		return nil
	}
	defer s.Close()
	var out []any
	for {
		select {
		case r, ok := <-s.ch:
			if !ok {
				s.done = true
				return out
			} else if r.Err != nil {
				s.done = true
				for range s.ch {
				}
				return out
			}
			out = append(out, r.Out)
		case r := <-h.upd:
			close(r.Response)
		}
	}
}

var _ transparency.UpdateRequest

// SetTime has the log's time be now.
func (v *Evil) SetTime() { v.ts = v.now() }

// Flicker adds a log entry after which a label has different versions than
// before, as if it had always been that way: versions come and go, but each has
// only ever one value.
func (v *Evil) Flicker(label string, most int, wild bool, value func() string) bool {
	r := v.R
	ts := max(v.now(), v.ts)
	g := 0
	for _, ok := v.tree[label][uint32(g)]; ok; _, ok = v.tree[label][uint32(g)] {
		g++
	}
	to := min(most, g+1+r.Intn(2)) // number of versions
	switch r.Intn(8) {
	case 0, 1:
		to = r.Intn(g + 1)
	case 2:
		to = g
	case 3:
		to = min(most, g+1+r.Intn(4))
	}
	if wild {
		to = r.Intn(most + 1)
	}
	has := map[uint32]bool{}
	for x := range to {
		has[uint32(x)] = true
	}
	if r.Intn(10) == 0 {
		x := uint32(r.Intn(most))
		has[x] = !has[x]
	}
	var ch []evilChange
	for x := range uint32(most + 1) {
		_, now := v.tree[label][x]
		if now == has[x] {
			continue
		} else if now {
			ch = append(ch, evilChange{label, x, nil, true})
			continue
		}
		var e EvilVer
		if old := v.Hist[label][x]; len(old) > 0 {
			e = old[len(old)-1]
		} else {
			e = v.newVer(label, x, value())
		}
		ch = append(ch, evilChange{label, x, &e, true})
	}
	return v.Append(ts, ch)
}
