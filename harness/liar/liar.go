// Package liar attacks users with proofs made by the code that verifies them.
//
// The log has arbitrary contents, in correct trees. Its answers are produced by
// running the user's own algorithm over a handle that answers truthfully from
// the trees. Where the algorithm finds the log to be wrong, what it consumed so
// far is sent anyway. A user that leaves out a check thus gets a proof that is
// complete and correct in every respect but the one not checked.
package liar

import (
	"bytes"
	"errors"
	"math/rand"
	"slices"

	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"

	"katieverif/kt"
)

var Scenarios = map[string]func(w *kt.World, idx int){"liar": ScenLiar}

// handle is an algorithms.ProofHandle over a log as it is.
type handle struct {
	l     *Liar
	label string

	timestamps []uint64
	proofs     []prefix.PrefixProof
	roots      [][]byte
	com        map[uint32][]byte
	tracker    math.VersionTracker
	stop       int // number of proofs after which to stop, if positive
	stopped    bool
}

func (l *Liar) handle(label string) *handle {
	return &handle{l: l, label: label, com: map[uint32][]byte{}}
}

func (h *handle) GetTimestamp(x uint64) (uint64, error) {
	e, err := h.l.entry(x)
	if err != nil {
		return 0, err
	}
	h.timestamps = append(h.timestamps, e.Timestamp)
	return e.Timestamp, nil
}

// lookup makes a proof about the given versions at a log entry.
func (h *handle) lookup(x uint64, vers []uint32) (prefix.PrefixProof, [][]byte, error) {
	outs := make([][]byte, len(vers))
	for i, v := range vers {
		outs[i] = h.l.v.S.Conf.VrfOutput(h.label, v)
	}
	res, err := prefix.NewTree(h.l.cs, h.l.v.S.Rec.Under.PrefixStore()).Search([]prefix.PrefixSearch{{Version: x + 1, VrfOutputs: outs}})
	if err != nil {
		return prefix.PrefixProof{}, nil, err
	}
	return res[0].Proof, res[0].Commitments, nil
}

func (h *handle) prove(x uint64, vers []uint32) ([]byte, *prefix.PrefixProof, error) {
	e, err := h.l.entry(x)
	if err != nil {
		return nil, nil, err
	}
	p, coms, err := h.lookup(x, vers)
	if err != nil {
		return nil, nil, err
	}
	h.proofs = append(h.proofs, p)
	for i, c := range coms {
		if _, ok := h.com[vers[i]]; c != nil && (!ok || h.l.R.Intn(4) == 0) {
			h.com[vers[i]] = c
		}
	}
	return e.PrefixTree, &p, nil
}

func (h *handle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	li, rn := h.tracker.SearchMaps(x, omit)
	ladder := math.SearchBinaryLadder(ver, ver, li, rn)
	full, _, err := h.lookup(x, ladder)
	if err != nil {
		return nil, 0, err
	}
	// Where does it end, according to who will interpret it?
	end := len(ladder)
	for k := 0; k <= len(ladder); k++ {
		p := prefix.PrefixProof{Results: full.Results[:k]}
		if _, err := math.InterpretSearchLadder(ladder, ver, &p); err == nil {
			end = k
			break
		}
	}
	if h.l.rarely() {
		end = h.l.R.Intn(len(ladder) + 1)
	}
	root, p, err := h.prove(x, ladder[:end])
	if err != nil {
		return nil, 0, err
	}
	res, err := math.InterpretSearchLadder(ladder, ver, p)
	if err != nil {
		return nil, 0, err
	}
	h.tracker.AddResults(x, omit, ladder, p.Results)
	return root, res, nil
}

func (h *handle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	root, _, err := h.prove(x, math.MonitoringBinaryLadder(ver))
	return root, err
}

func (h *handle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	root, _, err := h.prove(x, slices.Clone(vers))
	return root, err
}

func (h *handle) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	out := make([][]byte, len(xs))
	for i, x := range xs {
		e, err := h.l.entry(x)
		if err != nil {
			return nil, err
		}
		out[i] = e.PrefixTree
	}
	h.roots = out
	return slices.Clone(out), nil
}

func (h *handle) Finish() ([][]byte, error) { return nil, errors.New("not used") }

func (h *handle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	inclusion, err := log.NewTree(h.l.cs, h.l.v.S.Rec.Under.LogStore()).GetBatch(leaves, n, nP, m)
	if err != nil {
		return nil, err
	}
	return &structs.CombinedTreeProof{Timestamps: h.timestamps, PrefixProofs: h.proofs, PrefixRoots: h.roots,
		Inclusion: structs.InclusionProof{Elements: inclusion}}, nil
}

func (h *handle) StopCondition(x uint64, greatest int) bool {
	h.stopped = h.stopped || h.stop > 0 && len(h.proofs) >= h.stop
	return h.stopped
}

func (h *handle) Tracker() *math.VersionTracker { return &h.tracker }

// Liar is a log that answers requests itself.
type Liar struct {
	W  *kt.World
	R  *rand.Rand
	v  *kt.Evil
	cs kt.Suite

	heads map[uint64]*structs.TreeHead
	note  func(what string, err error)
}

func NewLiar(v *kt.Evil) *Liar {
	return &Liar{W: v.W, R: v.R, v: v, cs: kt.NewSuite(), heads: map[uint64]*structs.TreeHead{},
		note: func(what string, err error) {
			if err != nil {
				what += ": " + err.Error()
			}
			v.W.Notes["liar "+what]++
		}}
}

func (l *Liar) rarely() bool { return l.R.Intn(60) == 0 }

func (l *Liar) entry(x uint64) (*structs.LogEntry, error) {
	raw, err := l.v.S.Rec.Under.BatchGet([]uint64{x})
	if err != nil {
		return nil, err
	} else if raw[x] == nil {
		return nil, errors.New("no such log entry")
	}
	return structs.NewLogEntry(l.cs, bytes.NewBuffer(raw[x]))
}

// greatest is the greatest version of a label in a row that exists at x, or -1.
func (l *Liar) greatest(label string, x uint64) int {
	h := l.handle(label)
	for v := range uint32(300) {
		_, coms, err := h.lookup(x, []uint32{v})
		if err != nil || coms[0] == nil {
			return int(v) - 1
		}
	}
	return -1
}

// version finds what the user is given for a version with a commitment.
func (l *Liar) version(label string, ver uint32, com []byte) kt.EvilVer {
	hist := l.v.Hist[label][ver]
	for _, x := range hist {
		if bytes.Equal(x.Com, com) {
			return x
		}
	}
	if len(hist) > 0 {
		return hist[l.R.Intn(len(hist))]
	}
	return kt.EvilVer{Opening: make([]byte, 16)}
}

// base prepares what all answers have in common.
type base struct {
	fth  structs.FullTreeHead
	n    uint64
	nP   *uint64
	last *uint64
	prov *algorithms.DataProvider
	h    *handle
}

func (l *Liar) base(u *kt.User, label string, last *uint64) (*base, error) {
	b := &base{last: last, h: l.handle(label)}
	// Which tree head?
	b.n = l.v.Size()
	switch r := l.R.Intn(20); {
	case r == 0 && last != nil:
		b.n = *last
	case r == 1 && last != nil && *last < b.n:
		b.n = *last + 1 + uint64(l.R.Intn(int(b.n-*last)))
	case r == 2:
		b.n = 1 + uint64(l.R.Intn(int(b.n)))
	}
	if last == nil || *last != b.n || l.R.Intn(3) == 0 {
		if b.fth.TreeHead = l.head(b.n); b.fth.TreeHead == nil {
			return nil, errors.New("no head")
		}
	}
	if u.Conf.Mode == 3 && b.fth.TreeHead != nil {
		n := b.n
		if l.R.Intn(3) > 0 { // older
			n = 1 + uint64(l.R.Intn(int(b.n)))
		}
		e, err := l.entry(n - 1)
		if err != nil {
			return nil, err
		}
		if b.fth.AuditorTreeHead = l.W.MakeAudit(l.v.S, int(n), e.Timestamp, int(n)); b.fth.AuditorTreeHead == nil {
			return nil, errors.New("no head")
		}
		b.nP = &n
	}
	return b, l.provider(u, b)
}

func (l *Liar) provider(u *kt.User, b *base) error {
	b.prov = algorithms.NewDataProvider(l.cs, b.h)
	if u.S.State != nil {
		st, err := structs.NewClientState(u.Cfg, bytes.NewBuffer(u.S.State))
		if err != nil {
			return err
		} else if err := b.prov.AddRetained(st.FullSubtrees, st.LogEntries); err != nil {
			return err
		}
	}
	return nil
}

func (l *Liar) head(n uint64) *structs.TreeHead {
	if l.heads[n] == nil {
		l.heads[n] = l.W.MakeHead(l.v.S, int(n))
	}
	return l.heads[n]
}

func (l *Liar) ladder(b *base, label string, vers []uint32, without map[uint32]bool, need []uint32) []structs.BinaryLadderStep {
	out := make([]structs.BinaryLadderStep, len(vers))
	for i, v := range vers {
		raw, err := structs.Marshal(&structs.VrfInput{Label: []byte(label), Version: v})
		if err != nil {
			return nil
		}
		_, out[i].Proof = l.v.S.Cfg.VrfKey.Prove(raw)
		if !without[v] {
			out[i].Commitment = b.h.com[v]
			if out[i].Commitment == nil && (slices.Contains(need, v) || l.rarely()) {
				out[i].Commitment = l.version(label, v, nil).Com
			}
		}
		if l.rarely() {
			out[i].Commitment = nil
		}
	}
	return out
}

// finish makes the proof, whatever the algorithm came to.
func (l *Liar) finish(what string, b *base, err error) (structs.CombinedTreeProof, bool) {
	l.note(what, err)
	var pr *structs.CombinedTreeProof
	oerr := kt.Try(func() (err error) { pr, err = b.prov.Output(b.n, b.nP, b.last); return err })
	if oerr != nil {
		l.note("proof", oerr)
		return structs.CombinedTreeProof{}, false
	}
	return *pr, true
}

// Answer makes a response to a user's request, or nil.
func (l *Liar) Answer(u *kt.User, req any) any {
	var out any
	err := kt.Try(func() error { out = l.answer(u, req); return nil })
	if err != nil {
		// The user's code does not cope with what this log contains.
		l.W.Never("liar: " + err.Error())
		return nil
	}
	return out
}

func (l *Liar) answer(u *kt.User, req any) any {
	switch req := req.(type) {
	case *structs.SearchRequest:
		return l.search(u, req)
	case *structs.OwnerInitRequest:
		return l.oinit(u, req)
	case *structs.ContactMonitorRequest:
		return l.monitor(u, req.Label, req.Last)
	case *structs.OwnerMonitorRequest:
		return l.monitor(u, req.Label, req.Last)
	case *structs.UpdateRequest:
		return l.update(u, req)
	}
	return nil
}

func (l *Liar) search(u *kt.User, req *structs.SearchRequest) any {
	label := string(req.Label)
	b, err := l.base(u, label, req.Last)
	if err != nil {
		l.note("base", err)
		return nil
	}
	res := &structs.SearchResponse{FullTreeHead: b.fth}
	var target uint32
	if req.Version != nil {
		target = *req.Version
	} else {
		target = uint32(max(0, l.greatest(label, b.n-1)))
		if l.R.Intn(4) == 0 {
			target = uint32(l.R.Intn(int(target) + 2))
		}
		res.Version = &target
	}
	err = algorithms.UpdateView(u.Cfg, b.n, b.last, b.prov)
	if err == nil && req.Version == nil {
		_, err = algorithms.GreatestVersionSearch(u.Cfg, target, b.n, b.prov)
	} else if err == nil {
		_, err = algorithms.FixedVersionSearch(u.Cfg, target, b.n, b.prov)
	}
	pr, ok := l.finish("search", b, err)
	if !ok {
		return nil
	}
	x := l.version(label, target, b.h.com[target])
	res.Opening, res.Value, res.Search = x.Opening, x.Val, pr
	res.BinaryLadder = l.ladder(b, label, math.SearchBinaryLadder(target, target, nil, nil), map[uint32]bool{target: true}, nil)
	return res
}

func ladders(vers []uint32) []uint32 {
	set := map[uint32]bool{0: true}
	for _, v := range vers {
		for _, x := range math.SearchBinaryLadder(v, v, nil, nil) {
			set[x] = true
		}
	}
	var out []uint32
	for v := range set {
		out = append(out, v)
	}
	slices.Sort(out)
	return out
}

func (l *Liar) oinit(u *kt.User, req *structs.OwnerInitRequest) any {
	label := string(req.Label)
	b, err := l.base(u, label, req.Last)
	if err != nil {
		l.note("base", err)
		return nil
	}
	// Which versions are there? Asked with another provider, which says where
	// it looks.
	probe := &base{h: l.handle(label)}
	if err := l.provider(u, probe); err != nil {
		return nil
	}
	var vers []uint32
	if m, err := algorithms.NewMonitor(u.Cfg, b.n, probe.prov); err == nil {
		if xs, err := m.InitEntries(req.Start); err == nil {
			for _, x := range xs {
				g := l.greatest(label, x)
				if g < 0 {
					break
				}
				vers = append(vers, uint32(g))
			}
		}
	}
	if len(vers) > 0 && l.R.Intn(6) == 0 {
		switch i := l.R.Intn(len(vers)); l.R.Intn(3) {
		case 0:
			vers[i]++
		case 1:
			vers[i] = uint32(l.R.Intn(int(vers[i]) + 1))
		case 2:
			vers = vers[:i]
		}
	}
	err = algorithms.UpdateView(u.Cfg, b.n, b.last, b.prov)
	if err == nil {
		var m *algorithms.Monitor
		if m, err = algorithms.NewMonitor(u.Cfg, b.n, b.prov); err == nil {
			_, err = m.OwnerInit(req.Start, vers)
		}
	}
	pr, ok := l.finish("oinit", b, err)
	if !ok {
		return nil
	}
	all := ladders(vers)
	without := map[uint32]bool{}
	for _, v := range all {
		without[v] = (len(vers) == 0 || v > vers[0] && !slices.Contains(vers, v)) && !l.rarely()
	}
	return &structs.OwnerInitResponse{FullTreeHead: b.fth, GreatestVersions: vers, Init: pr,
		BinaryLadder: l.ladder(b, label, all, without, vers)}
}

func (l *Liar) labelState(u *kt.User, label string) *structs.ClientLabelState {
	ls, err := structs.NewClientLabelState(l.cs, bytes.NewBuffer(u.S.Labels[label].Raw))
	if err != nil {
		return nil
	}
	return ls
}

func (l *Liar) monitor(u *kt.User, lab []byte, last *uint64) any {
	label := string(lab)
	b, err := l.base(u, label, last)
	if err != nil {
		l.note("base", err)
		return nil
	}
	ls := l.labelState(u, label)
	if ls == nil {
		return nil
	}
	if l.R.Intn(4) == 0 {
		b.h.stop = 1 + l.R.Intn(6)
	}
	what := "contact"
	err = algorithms.UpdateView(u.Cfg, b.n, b.last, b.prov)
	if err == nil {
		var m *algorithms.Monitor
		if m, err = algorithms.NewMonitor(u.Cfg, b.n, b.prov); err == nil {
			m.Contact = algorithms.NewContactState(ls.Contact)
			if ls.Owner != nil {
				what = "owner"
				m.Owner = algorithms.NewOwnerState(ls.Owner)
			}
			err = m.ContactMonitor()
			if err == nil && ls.Owner != nil {
				err = m.OwnerMonitor()
			}
		}
	}
	pr, ok := l.finish(what, b, err)
	if !ok {
		return nil
	}
	if ls.Owner == nil {
		return &structs.ContactMonitorResponse{FullTreeHead: b.fth, Monitor: pr}
	}
	return &structs.OwnerMonitorResponse{FullTreeHead: b.fth, Monitor: pr}
}

func (l *Liar) update(u *kt.User, req *structs.UpdateRequest) any {
	label := string(req.Label)
	b, err := l.base(u, label, last(u))
	if err != nil {
		l.note("base", err)
		return nil
	}
	ls := l.labelState(u, label)
	if ls == nil || ls.Owner == nil {
		return nil
	}
	owner := algorithms.NewOwnerState(ls.Owner)
	start := owner.GreatestVersion() + 1
	if start < 0 || start > 1<<20 {
		return nil
	}
	// Where, and how many?
	pos, cnt := uint64(0), 1
	for pos = owner.LastUpdate() + 1; pos < b.n && l.greatest(label, pos) < start; pos++ {
	}
	if pos < b.n {
		cnt = min(4, l.greatest(label, pos)-start+1)
	}
	switch l.R.Intn(8) {
	case 0:
		pos = uint64(l.R.Intn(int(b.n)))
	case 1:
		cnt += l.R.Intn(3)
	case 2:
		cnt = 1
	case 3:
		pos = b.n - 1
	}
	vers := make([]uint32, cnt)
	news := map[uint32]bool{}
	for i := range vers {
		vers[i] = uint32(start + i)
		news[vers[i]] = true
	}
	err = algorithms.UpdateView(u.Cfg, b.n, b.last, b.prov)
	if err == nil {
		var m *algorithms.Monitor
		if m, err = algorithms.NewMonitor(u.Cfg, b.n, b.prov); err == nil {
			m.Contact, m.Owner = algorithms.NewContactState(ls.Contact), owner.Clone()
			err = m.Update(pos, cnt)
		}
	}
	pr, ok := l.finish("update", b, err)
	if !ok {
		return nil
	}
	res := &structs.UpdateResponse{FullTreeHead: b.fth, Position: pos, Update: pr}
	for _, v := range vers {
		x := l.version(label, v, b.h.com[v])
		res.Info = append(res.Info, structs.UpdateInfo{Opening: x.Opening, UpdateSuffix: x.Val.UpdateSuffix})
		res.Values = append(res.Values, structs.LabelValue{Value: x.Val.Value})
	}
	// Versions that are not retained yet.
	need := map[uint32]bool{}
	end := vers[cnt-1]
	for _, v := range append(math.SearchBinaryLadder(end, end, nil, nil), vers[:cnt-1]...) {
		need[v] = true
	}
	if start > 0 {
		for _, v := range math.SearchBinaryLadder(uint32(start-1), uint32(start-1), nil, nil) {
			delete(need, v)
		}
	} else {
		delete(need, 0)
	}
	var steps []uint32
	for v := range need {
		steps = append(steps, v)
		if v >= uint32(start) {
			news[v] = true
		}
	}
	slices.Sort(steps)
	res.BinaryLadder = l.ladder(b, label, steps, news, nil)
	return res
}

func last(u *kt.User) *uint64 {
	if u.S.State == nil {
		return nil
	}
	st, err := structs.NewClientState(u.Cfg, bytes.NewBuffer(u.S.State))
	if err != nil {
		return nil
	}
	return &st.TreeHead.TreeSize
}

// forge makes up what a user retains about a label.
func (l *Liar) forge(u *kt.User, label, focus string) {
	lst := last(u)
	if lst == nil || *lst == 0 {
		return
	}
	n := *lst
	r := l.R
	ls := &structs.ClientLabelState{}
	at := map[uint64]bool{}
	g := max(0, l.greatest(label, n-1))
	var vers []uint32
	for k := r.Intn(5); k > 0; k-- {
		x := uint64(r.Intn(int(n)))
		if r.Intn(2) == 0 { // somewhere that it is monitored anyway
			if path := math.RightDirectPath(x, n); len(path) > 0 {
				x = path[r.Intn(len(path))]
			}
		}
		if at[x] {
			continue
		}
		at[x] = true
		v := uint32(max(0, l.greatest(label, x)))
		switch r.Intn(5) {
		case 0:
			v = uint32(r.Intn(g + 2))
		case 1, 2:
			if len(vers) > 0 {
				v = vers[len(vers)-1]
			}
		}
		vers = append(vers, v)
		ls.Contact = append(ls.Contact, structs.MonitorMapEntry{Position: x, Version: v})
	}
	slices.SortFunc(ls.Contact, func(a, b structs.MonitorMapEntry) int { return int(a.Position) - int(b.Position) })
	var need []uint32
	for _, v := range vers {
		need = append(need, math.MonitoringBinaryLadder(v)...)
	}
	if len(ls.Contact) == 0 || focus == "owner" || focus == "update" || focus == "" && r.Intn(3) == 0 {
		x := uint64(r.Intn(int(n)))
		if old := l.labelState(u, label); old != nil && old.Owner != nil && r.Intn(2) == 0 {
			x = old.Owner.Starting
		}
		own := &structs.LabelOwnerState{Starting: x, VerAtStarting: l.greatest(label, x)}
		if r.Intn(4) == 0 {
			own.VerAtStarting = r.Intn(g+2) - 1
		}
		for y, v := x+1, own.VerAtStarting; y < n && r.Intn(8) > 0; y++ {
			for w := l.greatest(label, y); v < w && len(own.UpcomingVers) < 10; v++ {
				own.UpcomingVers = append(own.UpcomingVers, y)
			}
		}
		ls.Owner = own
		for v := own.VerAtStarting; v <= own.VerAtStarting+len(own.UpcomingVers); v++ {
			if v >= 0 {
				vers = append(vers, uint32(v))
			}
		}
		need = append(need, ladders(vers)...)
	}
	slices.Sort(need)
	for _, v := range slices.Compact(need) {
		rv := structs.RetainedVersion{Version: v, VrfOutput: l.v.S.Conf.VrfOutput(label, v)}
		if int(v) <= g || r.Intn(4) > 0 {
			rv.Commitment = l.version(label, v, nil).Com
		}
		ls.Versions = append(ls.Versions, rv)
	}
	l.W.SetLabel(u, label, ls, uint64(r.Intn(int(n))))
}

// ScenLiar: users of a log that lies where it thinks it is not noticed.
func ScenLiar(w *kt.World, idx int) {
	c := kt.RandConf(w.Rng, 1+idx%3)
	focus := []string{"", "", "oinit", "contact", "owner", "update", "search"}[idx/3%7]
	c.Rmw = []uint64{1, 1, 300, 1000, 5000, 20000, kt.Never}[w.Rng.Intn(7)]
	switch focus {
	case "contact":
		c.Rmw = []uint64{1000, 5000, 20000}[w.Rng.Intn(3)]
	case "oinit", "owner":
		c.Rmw = []uint64{1, 1, 300, 1000}[w.Rng.Intn(4)]
	}
	c.Life = 0
	if w.Rng.Intn(4) == 0 && c.Rmw != kt.Never {
		c.Life = c.Rmw + 1 + uint64(w.Rng.Intn(4*int(c.Rmw)+1000))
	}
	e := kt.NewE2E(w, c, 1+w.Rng.Intn(2))
	e.Labels = e.Labels[:1+w.Rng.Intn(2)]
	for n := 1 + e.R.Intn(8); n > 0 || e.H.Size() == 0; n-- {
		if !e.Grow(3) {
			return
		}
	}
	if w.Broken {
		return
	}
	v := w.NewEvil(e.S, e.H.Size(), 0)
	v.SetTime()
	v.Learn(e.Labels)
	l := NewLiar(v)
	forging := focus != "" && focus != "search" || w.Rng.Intn(2) == 0
	flicker := focus != "" || w.Rng.Intn(4) > 0
	most := 1 + w.Rng.Intn(7)
	wild := focus == "oinit" || focus != "update" && w.Rng.Intn(3) == 0
	grow := func() bool {
		e.Pause()
		return v.Flicker(e.Labels[e.R.Intn(len(e.Labels))], most, wild, e.NewValue)
	}
	for n := e.R.Intn(20); flicker && n > 0; n-- {
		if !grow() {
			return
		}
	}
	for i := 0; i < 40 && !w.Broken; i++ {
		if e.R.Intn(4) == 0 {
			if flicker {
				if !grow() {
					return
				}
				continue
			}
			e.Pause()
			if !v.Step(e.Labels, e.NewValue) {
				return
			}
			continue
		}
		u := e.Users[e.R.Intn(len(e.Users))]
		label := e.Labels[e.R.Intn(len(e.Labels))]
		kind, ver := "search", (*uint32)(nil)
		switch r := e.R.Intn(12); {
		case r < 2:
		case r < 4:
			x := uint32(e.R.Intn(len(v.Hist[label]) + 1))
			ver = &x
		case focus == "contact" || focus == "owner":
			kind = "monitor"
		case focus == "search":
		case focus != "":
			kind = focus
		case r < 6:
			kind = "oinit"
		case r < 10:
			kind = "monitor"
		default:
			kind = "update"
		}
		if last(u) != nil && kind != "search" && forging && (focus != "" || e.R.Intn(3) == 0) {
			if kind == "oinit" {
				w.SetLabel(u, label, nil, 0)
			} else {
				l.forge(u, label, focus)
			}
		}
		p := w.Request(u, kind, label, ver, nil)
		if p == nil {
			continue
		}
		if res := l.Answer(u, p.Req); res != nil && !w.Broken {
			w.Verify(p, res)
		}
	}
}
