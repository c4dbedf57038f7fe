package kt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"testing/synctest"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

// Conf is a configuration in the shape used by the specification.
type Conf struct {
	Mode                                  int
	Sk, Vk, Lk, Ak                        string
	Vb, Vg                                int // nibbles
	Lag, Astart, Ahead, Behind, Rmw, Life uint64

	// Suite is "" for the ideal one, "ed", or "p256" for that one's VRF with
	// ideal signatures (ECDSA signatures are not a function of the message).
	Suite string
	vt    M // VRF outputs and proofs by input
}

func num(v uint64) int64 {
	if v == Never {
		return -1
	}
	return int64(v)
}

func (c Conf) J() M {
	m := M{"mode": c.Mode, "sk": c.Sk, "vk": c.Vk, "vb": c.Vb, "vg": c.Vg, "lk": c.Lk, "ak": c.Ak,
		"lag": num(c.Lag), "astart": num(c.Astart), "ahead": num(c.Ahead), "behind": num(c.Behind),
		"rmw": num(c.Rmw), "life": num(c.Life), "suite": "ideal"}
	if c.Suite != "" {
		m["suite"], m["vt"] = c.Suite, c.vt
		pub := M{c.Vk: Hex(c.vrfKey().PublicKey().Bytes())}
		for _, k := range []string{c.Sk, c.Lk, c.Ak} {
			if strings.HasPrefix(k, "ed:") {
				pub[k] = Hex(NewSigner(k).Public().Bytes())
			}
		}
		m["pub"] = pub
	}
	return m
}

// Real turns the configuration into one on a real suite.
func (c Conf) Real(rng *rand.Rand, suite string, labels []string, vers int) Conf {
	key := func(p string) string { b := make([]byte, 32); rng.Read(b); return p + ":" + Hex(b) }
	c.Suite, c.Vb, c.Vg = suite, 0, 0
	c.Vk = key(suite)
	if suite == "ed" {
		for _, k := range []*string{&c.Sk, &c.Lk, &c.Ak} {
			if *k != "" {
				*k = key("ed")
			}
		}
	}
	c.vt = M{}
	for _, l := range labels {
		for v := range vers {
			in, _ := structs.Marshal(&structs.VrfInput{Label: []byte(l), Version: uint32(v)})
			o, p := c.vrfKey().Prove(in)
			c.vt[Hex(in)] = []string{Hex(o), Hex(p)}
		}
	}
	return c
}

func (c Conf) suite() suites.CipherSuite {
	switch c.Suite {
	case "ed":
		return suites.KTSha256Ed25519{}
	case "p256":
		return Suite{suites.KTSha256P256{}, 1, 81}
	}
	return NewSuite()
}
func (c Conf) vrfKey() vrf.PrivateKey {
	if c.Suite == "" {
		return &VRF{Name: c.Vk, Bits: 4 * c.Vb, Gap: 4 * c.Vg}
	}
	_, raw, _ := strings.Cut(c.Vk, ":")
	k, err := c.suite().ParseVRFPrivateKey(Unhex(raw))
	if err != nil {
		panic(err)
	}
	return k
}

// VrfOutput returns the VRF output for a version of a label.
func (c Conf) VrfOutput(label string, ver uint32) []byte {
	in, _ := structs.Marshal(&structs.VrfInput{Label: []byte(label), Version: ver})
	out, _ := c.vrfKey().Prove(in)
	return out
}

func (c Conf) Private() structs.PrivateConfig {
	out := structs.PrivateConfig{
		SignatureKey: NewSigner(c.Sk),
		VrfKey:       c.vrfKey(),
		Config: structs.Config{
			Suite: c.suite(), Mode: structs.DeploymentMode(c.Mode),
			MaxAhead: c.Ahead, MaxBehind: c.Behind,
			ReasonableMonitoringWindow: c.Rmw, MaximumLifetime: c.Life,
		},
	}
	switch c.Mode {
	case 2:
		out.LeafPublicKey = NewSigner(c.Lk).Public()
	case 3:
		out.MaxAuditorLag, out.AuditorStartPos = c.Lag, c.Astart
		out.AuditorPublicKey = NewSigner(c.Ak).Public()
	}
	return out
}
func (c Conf) Public() *structs.PublicConfig {
	p := c.Private()
	if c.Suite != "" { // from its encoding, like that of any user
		k, err := c.suite().ParseVRFPublicKey(p.VrfKey.PublicKey().Bytes())
		if err != nil {
			panic(err)
		}
		out := p.Public()
		out.VrfKey = k
		return out
	}
	return p.Public()
}

// World drives the implementation and records what it does.
type World struct {
	Rng  *rand.Rand
	Ev   []M
	Wire bool // pass every message through its wire encoding

	fault        *fault
	beforeReload func()
	next         int
	from         []string
	Broken       bool // something happened that no specification allows
	Notes        map[string]int
}

func NewWorld(rng *rand.Rand) *World { return &World{Rng: rng, Notes: map[string]int{}} }

func (w *World) name(p string) string { w.next++; return fmt.Sprintf("%s%d", p, w.next) }
func (w *World) Rec(e string, m M)    { m["e"] = e; m["now"] = Now(); w.Ev = append(w.Ev, m) }

// fault is a failure that is to happen at the n-th operation of some kind.
type fault struct {
	kind  string
	n     int
	fired string
}

// Arm makes the n-th operation (from 0) on stores and signers of the kind fail:
// log, user or auditor.
func (w *World) Arm(kind string, n int) { w.fault = &fault{kind: kind, n: n} }

// hook returns what is to be called before each operation of the kind.
func (w *World) hook(kind string, after func()) func(op string) error {
	return func(op string) error {
		f := w.fault
		if f == nil || f.kind != kind || f.fired != "" {
			return nil
		}
		if f.n--; f.n >= 0 {
			return nil
		}
		f.fired = op
		if after != nil {
			after()
		}
		return errors.New("injected fault in " + op)
	}
}

// faulted adds to the event whether a fault happened, and ends it.
func (w *World) faulted(kind string, ev M) M {
	if w.fault != nil && w.fault.kind == kind {
		if w.fault.fired != "" {
			ev["fault"] = w.fault.fired
			w.Notes["fault "+kind+" "+w.fault.fired]++
		}
		w.fault = nil
	}
	return ev
}
func (w *World) isFault(kind string) bool {
	return w.fault != nil && w.fault.kind == kind && w.fault.fired != ""
}

func (w *World) note(op string, err error) {
	if err != nil {
		w.Notes[op+": "+err.Error()]++
	} else {
		w.Notes[op+": ok"]++
	}
}

// PanicError is what Try returns if the function panicked.
type PanicError struct{ Msg, Stack string }

func (p *PanicError) Error() string { return "panic: " + p.Msg }

func Try(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = &PanicError{fmt.Sprint(r), string(debug.Stack())}
		}
	}()
	return f()
}

// bad records a panic or something else that is never allowed. It returns
// whether it did.
func (w *World) bad(what string, err error) bool {
	var p *PanicError
	if errors.As(err, &p) {
		w.Rec("never", M{"what": what + ": panic: " + p.Msg, "stack": p.Stack})
		w.Broken = true
		return true
	}
	return false
}
func (w *World) Never(what string) { w.Rec("never", M{"what": what}); w.Broken = true }

///////////////////////////////////////////////////////////////////////////////
// Logs

type Store struct {
	Name string
	Conf Conf
	Cfg  structs.PrivateConfig
	Map  *MapStore // nil if some other store is used
	Rec  *RecStore
	Vers map[string]int // label -> number of versions (for signing and choices)

	Heads   []string               // after each commit
	Commits int                    // number of commits acknowledged
	VersAt  map[int]map[string]int // Vers by size of the tree
}

func (w *World) NewStore(c Conf, under db.TransparencyStore) *Store {
	s := &Store{Name: w.name("s"), Conf: c, Cfg: c.Private(), Vers: map[string]int{}}
	if under == nil {
		s.Map = NewMapStore()
		under = s.Map
	}
	s.Rec = NewRecStore(under)
	w.hookStore(s)
	w.Rec("store", M{"s": s.Name, "C": c.J()})
	return s
}

// hookStore makes faults possible. A write that fails takes what is pending with
// it.
func (w *World) hookStore(s *Store) {
	h := w.hook("log", nil)
	s.Rec.Fail = func(op string) error {
		err := h(op)
		if err != nil && s.Map != nil && !strings.Contains(op, "Get") {
			s.Map.Discard()
		}
		return err
	}
	s.Cfg.SignatureKey.(*Signer).Fail = func() error { return h("Sign") }
}

func (w *World) Fork(s *Store) *Store {
	m := s.Map.Fork()
	out := &Store{Name: w.name("s"), Conf: s.Conf, Cfg: s.Conf.Private(), Map: m, Rec: NewRecStore(m), Vers: map[string]int{}}
	for k, v := range s.Vers {
		out.Vers[k] = v
	}
	w.Rec("fork", M{"s": s.Name, "to": out.Name})
	return out
}

// Reconf changes the configuration of a log. Open handles have to be opened again.
func (w *World) Reconf(s *Store, c Conf) {
	s.Conf, s.Cfg = c, c.Private()
	w.hookStore(s)
	w.Rec("reconf", M{"s": s.Name, "C": c.J()})
}

// ReconfUser has the user go on with another configuration.
func (w *World) ReconfUser(u *User, c Conf) bool {
	u.Conf, u.Cfg = c, c.Public()
	if !w.openUser(u) {
		return false
	}
	w.Rec("reconf", M{"c": u.Name, "C": c.J()})
	return true
}

type Handle struct {
	Name  string
	Store *Store
	Tree  *transparency.Tree
	Via   wire.Interface // what requests go through instead of Tree, if any
	upd   chan transparency.UpdateRequest
}

func (w *World) Open(s *Store) *Handle {
	h := &Handle{Name: w.name("h"), Store: s, upd: make(chan transparency.UpdateRequest)}
	err := Try(func() (err error) {
		h.Tree, err = transparency.NewTree(s.Cfg, s.Rec, h.upd)
		return err
	})
	if w.isFault("log") {
		w.Rec("open", w.faulted("log", M{"s": s.Name, "h": h.Name, "th": []any{}, "ok": err == nil}))
		return nil
	}
	if err != nil {
		w.note("open", err)
		if !w.bad("open", err) {
			w.Never("store can not be opened: " + err.Error())
		}
		return nil
	}
	w.Rec("open", M{"s": s.Name, "h": h.Name, "th": jTreeHead(h.Tree.TreeHead())})
	return h
}

// Size returns the size of the tree the handle operates on.
func (h *Handle) Size() int {
	if th := h.Tree.TreeHead(); th != nil {
		return int(th.TreeSize)
	}
	return 0
}

// Add is a label version to be added.
type Add struct {
	Label, Value string
	Sig          []byte
	HasSig       bool
}

// SignedAdd signs the value like the service operator does in mode 2.
func SignedAdd(c Conf, label, value string, ver int) Add {
	tbs, _ := structs.Marshal(&structs.UpdateTBS{Config: c.Public(), Label: []byte(label), Version: uint32(ver), Value: []byte(value)})
	sig, _ := NewSigner(c.Lk).Sign(tbs)
	return Add{label, value, sig, true}
}

// Adds prepares values for the given labels, signed if that is necessary.
func (s *Store) Adds(removed []string, lv ...string) []Add {
	var out []Add
	cnt := map[string]int{}
	for k, v := range s.Vers {
		cnt[k] = v
	}
	for _, r := range removed {
		cnt[r] = 0
	}
	for i := 0; i < len(lv); i += 2 {
		if s.Conf.Mode == 2 {
			out = append(out, SignedAdd(s.Conf, lv[i], lv[i+1], cnt[lv[i]]))
		} else {
			out = append(out, Add{Label: lv[i], Value: lv[i+1]})
		}
		cnt[lv[i]]++
	}
	return out
}

// Mutate adds a log entry.
func (w *World) Mutate(h *Handle, add []Add, remove []string) (*structs.AuditorUpdate, error) {
	var lvs []transparency.LabelValue
	jadd := []M{}
	for _, a := range add {
		v := structs.UpdateValue{Value: []byte(a.Value)}
		if a.HasSig {
			v.UpdateSuffix.Signature = a.Sig
		}
		lvs = append(lvs, transparency.LabelValue{Label: []byte(a.Label), Value: v})
		jadd = append(jadd, M{"l": Hex([]byte(a.Label)), "v": Hex([]byte(a.Value)), "s": jSuffix(v.Signature)})
	}
	var rem [][]byte
	for _, r := range remove {
		rem = append(rem, []byte(r))
	}
	s := h.Store
	s.Rec.Puts = nil
	var upd *structs.AuditorUpdate
	err := Try(func() (err error) {
		upd, err = h.Tree.Mutate(lvs, rem)
		return err
	})
	w.note("mutate", err)
	if w.bad("mutate", err) {
		return nil, err
	}
	// Openings chosen, by label in order of version.
	sort.SliceStable(s.Rec.Puts, func(i, j int) bool { return s.Rec.Puts[i].Ver < s.Rec.Puts[j].Ver })
	ops := []M{}
	at := map[string]int{}
	for _, p := range s.Rec.Puts {
		l := string(p.Label)
		if _, ok := at[l]; !ok {
			at[l] = len(ops)
			ops = append(ops, M{"l": Hex(p.Label), "o": []string{}})
		}
		n := min(16, len(p.Data))
		ops[at[l]]["o"] = append(ops[at[l]]["o"].([]string), Hex(p.Data[:n]))
	}
	ev := M{"h": h.Name, "add": jadd, "rem": Hexes(rem), "op": ops, "ok": err == nil,
		"th": jTreeHead(h.Tree.TreeHead()), "au": []any{}}
	if err == nil && s.Conf.Mode == 3 {
		ev["au"] = []any{JAuditorUpdate(upd)}
	}
	w.Rec("mutate", w.faulted("log", ev))
	if err == nil {
		for _, r := range remove {
			delete(s.Vers, r)
		}
		for _, a := range add {
			s.Vers[a.Label]++
		}
		s.committed()
		if s.VersAt == nil {
			s.VersAt = map[int]map[string]int{}
		}
		s.VersAt[h.Size()] = maps.Clone(s.Vers)
		if w.Wire && s.Conf.Mode == 3 {
			if raw, merr := structs.Marshal(upd); merr == nil {
				u2, perr := structs.NewAuditorUpdate(s.Cfg.Suite, bytes.NewBuffer(raw))
				if perr != nil {
					w.Never("auditor update does not survive its encoding: " + perr.Error())
				} else {
					upd = u2
				}
			}
		}
	}
	return upd, err
}

// PutAuditorHead stores an auditor tree head with the log.
func (w *World) PutAuditorHead(s *Store, head *structs.AuditorTreeHead) {
	err := Try(func() error {
		raw, err := structs.Marshal(head)
		if err != nil {
			return err
		}
		if err := s.Rec.PutAuditorTreeHead(raw); err != nil {
			return err
		}
		return s.Rec.Commit()
	})
	if err != nil {
		if !w.bad("auditor head", err) {
			w.Never("auditor head can not be stored: " + err.Error())
		}
		return
	}
	s.committed()
	w.Rec("athead", M{"s": s.Name, "ath": jAuditorHead(head)})
}

///////////////////////////////////////////////////////////////////////////////
// Requests and responses

func wireReq(cfg *structs.PublicConfig, req any) (any, error) {
	raw, err := structs.Marshal(req.(structs.Marshaller))
	if err != nil {
		return nil, err
	}
	buf := bytes.NewBuffer(raw)
	var out any
	switch req.(type) {
	case *structs.SearchRequest:
		out, err = structs.NewSearchRequest(buf)
	case *structs.ContactMonitorRequest:
		out, err = structs.NewContactMonitorRequest(buf)
	case *structs.OwnerInitRequest:
		out, err = structs.NewOwnerInitRequest(buf)
	case *structs.OwnerMonitorRequest:
		out, err = structs.NewOwnerMonitorRequest(buf)
	case *structs.UpdateRequest:
		out, err = structs.NewUpdateRequest(buf)
	}
	if err == nil && buf.Len() != 0 {
		err = errors.New("trailing data")
	}
	return out, err
}

// tooLong reports whether a request cannot be encoded, because its label is too
// long.
func tooLong(req any) bool {
	switch r := req.(type) {
	case *structs.SearchRequest:
		return len(r.Label) > 255
	case *structs.ContactMonitorRequest:
		return len(r.Label) > 255
	case *structs.OwnerInitRequest:
		return len(r.Label) > 255
	case *structs.OwnerMonitorRequest:
		return len(r.Label) > 255
	case *structs.UpdateRequest:
		return len(r.Label) > 255
	}
	return false
}

func wireRes(cfg *structs.PublicConfig, req, res any) (any, error) {
	raw, err := structs.Marshal(res.(structs.Marshaller))
	if err != nil {
		return nil, err
	}
	return ParseRes(cfg, req, raw)
}

// ParseRes decodes a response to the given request.
func ParseRes(cfg *structs.PublicConfig, req any, raw []byte) (any, error) {
	buf := bytes.NewBuffer(raw)
	var out any
	var err error
	switch r := req.(type) {
	case *structs.SearchRequest:
		out, err = structs.NewSearchResponse(cfg, r, buf)
	case *structs.ContactMonitorRequest:
		out, err = structs.NewContactMonitorResponse(cfg, buf)
	case *structs.OwnerInitRequest:
		out, err = structs.NewOwnerInitResponse(cfg, buf)
	case *structs.OwnerMonitorRequest:
		out, err = structs.NewOwnerMonitorResponse(cfg, buf)
	case *structs.UpdateRequest:
		out, err = structs.NewUpdateResponse(cfg, buf)
	}
	if err == nil && buf.Len() != 0 {
		err = errors.New("trailing data")
	}
	return out, err
}

// unaudited returns whether the response is one of a log that is supposed to be
// audited but never was; there is no encoding of it.
func unaudited(c Conf, res any) bool {
	f := HeadOf(res)
	return c.Mode == 3 && f.TreeHead != nil && f.AuditorTreeHead == nil
}

// HeadOf returns the response's FullTreeHead.
func HeadOf(res any) *structs.FullTreeHead {
	switch r := res.(type) {
	case *structs.SearchResponse:
		return &r.FullTreeHead
	case *structs.ContactMonitorResponse:
		return &r.FullTreeHead
	case *structs.OwnerInitResponse:
		return &r.FullTreeHead
	case *structs.OwnerMonitorResponse:
		return &r.FullTreeHead
	case *structs.UpdateResponse:
		return &r.FullTreeHead
	}
	panic("unexpected response")
}

func kindOf(req any) string {
	switch req.(type) {
	case *structs.SearchRequest:
		return "search"
	case *structs.ContactMonitorRequest:
		return "contact"
	case *structs.OwnerInitRequest:
		return "oinit"
	case *structs.OwnerMonitorRequest:
		return "omon"
	}
	return "?"
}

// Ask sends a request other than an update to the log. If quiet is set, the
// response is not recorded (the log is not an honest one).
func (w *World) Ask(h *Handle, req any, quiet bool) (any, error) {
	if w.Wire {
		r2, err := wireReq(h.Store.Cfg.Public(), req)
		if (err != nil) != tooLong(req) || w.bad("request encoding", err) {
			w.Never(fmt.Sprintf("request does not survive its encoding: %v", err))
			return nil, err
		}
		if err == nil {
			req = r2
		}
	}
	jreq := JReq(req)
	var res any
	ctx := context.Background()
	var srv wire.Interface = h.Tree
	if h.Via != nil {
		srv = h.Via
	}
	err := Try(func() (err error) {
		switch r := req.(type) {
		case *structs.SearchRequest:
			var x *structs.SearchResponse
			if x, err = srv.Search(ctx, r); err == nil {
				res = x
			}
		case *structs.ContactMonitorRequest:
			var x *structs.ContactMonitorResponse
			if x, err = srv.ContactMonitor(ctx, r); err == nil {
				res = x
			}
		case *structs.OwnerInitRequest:
			var x *structs.OwnerInitResponse
			if x, err = srv.OwnerInit(ctx, r); err == nil {
				res = x
			}
		case *structs.OwnerMonitorRequest:
			var x *structs.OwnerMonitorResponse
			if x, err = srv.OwnerMonitor(ctx, r); err == nil {
				res = x
			}
		}
		return err
	})
	k := kindOf(req)
	w.note("server "+k, err)
	if w.bad("server "+k, err) {
		return nil, err
	}
	if !quiet {
		ev := M{"h": h.Name, "k": k, "req": jreq, "ok": err == nil}
		if err == nil {
			ev["res"] = JRes(res)
		}
		w.Rec("srv", w.faulted("log", ev))
	}
	if err == nil && w.Wire && !unaudited(h.Store.Conf, res) {
		r2, werr := wireRes(h.Store.Cfg.Public(), req, res)
		if werr != nil {
			if !w.bad("response encoding", werr) {
				w.Never("response does not survive its encoding: " + werr.Error())
			}
			return nil, werr
		}
		res = r2
	}
	return res, err
}

///////////////////////////////////////////////////////////////////////////////
// Users

type User struct {
	Name string
	Conf Conf
	Cfg  *structs.PublicConfig
	S    *ClientStore
	C    *transparency.Client
}

func (w *World) NewUser(c Conf) *User {
	u := &User{Name: w.name("c"), Conf: c, Cfg: c.Public(), S: NewClientStore()}
	u.S.Fail = w.hook("user", nil)
	if !w.openUser(u) {
		return nil
	}
	w.Rec("client", M{"c": u.Name, "C": c.J()})
	return u
}
func (w *World) openUser(u *User) bool {
	err := Try(func() (err error) { u.C, err = transparency.NewClient(u.Cfg, u.S); return err })
	if err != nil {
		if !w.bad("client", err) {
			w.Never("client refuses its configuration: " + err.Error())
		}
		return false
	}
	return true
}

// CloneUser makes another user with the same state.
func (w *World) CloneUser(u *User) *User {
	out := &User{Name: w.name("c"), Conf: u.Conf, Cfg: u.Cfg, S: u.S.Clone()}
	out.S.Fail = w.hook("user", nil)
	if !w.openUser(out) {
		return nil
	}
	w.Rec("clone", M{"c": u.Name, "to": out.Name})
	return out
}

// Pending is a request in progress.
type Pending struct {
	Name   string
	Kind   string // search, oinit, contact, owner, update
	User   *User
	Req    any
	verify func(res any) error
	again  func() *Pending
}

// Again makes the same request once more: a response can only be given to a
// request once.
func (p *Pending) Again() *Pending { return p.again() }

// Request makes a request. kind is search, oinit, monitor or update.
func (w *World) Request(u *User, kind, label string, ver *uint32, vals []string) *Pending {
	p := &Pending{Name: w.name("p"), User: u}
	p.again = func() *Pending { return w.Request(u, kind, label, ver, vals) }
	var none bool
	vs := make([][]byte, len(vals))
	for i, v := range vals {
		vs[i] = []byte(v)
	}
	err := Try(func() error {
		switch kind {
		case "search":
			var f transparency.VerifyFunc[*structs.SearchResponse]
			var req *structs.SearchRequest
			var err error
			if ver == nil {
				req, f, err = u.C.GreatestVersionSearch([]byte(label))
			} else {
				req, f, err = u.C.FixedVersionSearch([]byte(label), *ver)
			}
			p.Kind, p.Req, p.verify = "search", req, func(r any) error { return f(r.(*structs.SearchResponse)) }
			return err
		case "oinit":
			req, f, err := u.C.OwnerInit([]byte(label))
			p.Kind, p.Req, p.verify = "oinit", req, func(r any) error { return f(r.(*structs.OwnerInitResponse)) }
			return err
		case "update":
			req, sv, err := u.C.Update([]byte(label), vs)
			p.Kind, p.Req, p.verify = "update", req, func(r any) error { return sv.Verify(r.(*structs.UpdateResponse)) }
			return err
		case "monitor":
			req, f, err := u.C.Monitor()
			if err != nil {
				return err
			} else if req == nil {
				none = true
				return nil
			}
			p.Req, p.verify = req, func(r any) error { return f(r.(structs.Marshaller)) }
			if _, ok := req.(*structs.OwnerMonitorRequest); ok {
				p.Kind = "owner"
			} else {
				p.Kind = "contact"
			}
			return nil
		}
		panic("kind")
	})
	w.note("request "+kind, err)
	if w.bad("request "+kind, err) {
		return nil
	}
	ev := M{"c": u.Name, "p": p.Name, "k": kind, "label": Hex([]byte(label)), "ver": Opt32(ver), "vals": Hexes(vs),
		"ok": err == nil, "kind": p.Kind}
	if err == nil && none {
		ev["kind"] = "none"
	} else if err == nil {
		ev["req"] = JReq(p.Req)
	}
	w.Rec("req", w.faulted("user", ev))
	if err != nil || none {
		return nil
	}
	return p
}

// VerifyFrom gives the response of an honest instance (a handle or stream, by
// name) to the user.
func (w *World) VerifyFrom(from string, p *Pending, res any) error {
	w.from = []string{from}
	defer func() { w.from = nil }()
	return w.Verify(p, res)
}

// Verify gives a response to the user. must says what the outcome has to be,
// if that is known.
func (w *World) Verify(p *Pending, res any, must ...bool) error {
	Saturated = false
	jres := JRes(res)
	if Saturated {
		return errors.New("skipped")
	}
	if must == nil {
		must = []bool{}
	}
	err := Try(func() error { return p.verify(res) })
	w.note("verify "+p.Kind, err)
	if w.bad("verify "+p.Kind, err) {
		return err
	}
	ev := M{"p": p.Name, "res": jres, "ok": err == nil, "must": must, "from": append([]string{}, w.from...)}
	st, lab, serr := JClientState(p.User.Cfg, p.User.S)
	if serr != nil {
		w.Never("user's state can not be decoded: " + serr.Error())
		return err
	}
	ev["st"], ev["lab"] = st, lab
	w.Rec("verify", w.faulted("user", ev))
	return err
}

// Do runs a whole request against an honest log.
func (w *World) Do(h *Handle, u *User, kind, label string, ver *uint32) error {
	p := w.Request(u, kind, label, ver, nil)
	if p == nil {
		return errors.New("no request")
	}
	res, err := w.Ask(h, p.Req, false)
	if err != nil {
		return err
	}
	return w.VerifyFrom(h.Name, p, res)
}

///////////////////////////////////////////////////////////////////////////////
// Updates

// Stream is an update in progress.
type Stream struct {
	Name   string
	H      *Handle
	Req    *structs.UpdateRequest
	ch     <-chan wire.UpdateResponse
	cancel context.CancelFunc
	done   bool
	failed bool // the log reported an error
	fired  string
}

// StartUpdate sends an update request to the log.
func (w *World) StartUpdate(h *Handle, req *structs.UpdateRequest) *Stream {
	if w.Wire {
		r2, err := wireReq(h.Store.Cfg.Public(), req)
		if (err != nil) != tooLong(req) || w.bad("request encoding", err) {
			w.Never(fmt.Sprintf("request does not survive its encoding: %v", err))
			return nil
		}
		if err == nil {
			req = r2.(*structs.UpdateRequest)
		}
	}
	s := &Stream{Name: w.name("u"), H: h, Req: req}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	// The stream's goroutine replaces the tree of the handle it was started
	// on when it is done, so it gets a handle of its own.
	err := Try(func() (err error) {
		s.ch, err = h.Tree.Update(ctx, req)
		return err
	})
	if w.bad("server update", err) {
		cancel()
		return nil
	}
	uev := M{"u": s.Name, "h": h.Name, "req": JReq(req), "mgr": []any{}, "ok": err == nil}
	if err != nil {
		uev = w.faulted("log", uev)
	}
	w.Rec("ustart", uev)
	if err != nil {
		cancel()
		return nil
	}
	s.settle(w)
	return s
}

// settle waits until the stream's goroutine has prepared its next response, and
// notes whether a fault happened to it.
func (s *Stream) settle(w *World) {
	synctest.Wait()
	if w.isFault("log") {
		s.fired = w.fault.fired
	}
}

func (w *World) startQuiet(h *Handle, req *structs.UpdateRequest) *Stream {
	s := &Stream{H: h, Req: req}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	err := Try(func() (err error) {
		s.ch, err = h.Tree.Update(ctx, req)
		return err
	})
	if w.bad("server update", err) || err != nil {
		cancel()
		return nil
	}
	return s
}

// Next receives the next response. If the log asks for new versions to be
// sequenced, seq is called; it returns the position or false.
func (w *World) Next(s *Stream, seq func(transparency.UpdateRequest) (uint64, bool)) (*structs.UpdateResponse, bool) {
	for {
		s.settle(w)
		select {
		case r, ok := <-s.ch:
			s.settle(w)
			if !ok {
				s.done = true
				w.Rec("uend", M{"u": s.Name})
				return nil, false
			}
			if r.Err != nil {
				w.note("stream", r.Err)
				s.done, s.failed = true, true
				ev := M{"u": s.Name, "ok": false}
				if s.fired != "" {
					ev["fault"] = s.fired
					w.Notes["fault stream "+s.fired]++
				}
				w.Rec("unext", ev)
				for range s.ch {
				}
				return nil, false
			}
			w.note("stream", nil)
			w.Rec("unext", M{"u": s.Name, "ok": true, "res": JRes(r.Out)})
			out := r.Out
			if w.Wire && !unaudited(s.H.Store.Conf, out) {
				x, err := wireRes(s.H.Store.Cfg.Public(), s.Req, out)
				if err != nil {
					if !w.bad("response encoding", err) {
						w.Never("response does not survive its encoding: " + err.Error())
					}
					return nil, false
				}
				out = x.(*structs.UpdateResponse)
			}
			return out, true
		case r := <-s.H.upd:
			if s.Name != "" {
				vals := []M{}
				for _, v := range r.Values {
					vals = append(vals, jValue(v))
				}
				w.Rec("useq", M{"u": s.Name, "label": Hex(r.Label), "start": Opt32(r.StartingVersion), "vals": vals})
			}
			pos, ok := seq(r)
			if !ok {
				close(r.Response)
				w.Rec("ufail", M{"u": s.Name})
				continue
			}
			w.Rec("ureload", M{"u": s.Name, "pos": pos})
			if w.beforeReload != nil {
				w.beforeReload()
			}
			r.Response <- pos
		}
	}
}

func (s *Stream) Failed() bool { return s.failed }

// Close abandons a stream.
func (s *Stream) Close() {
	s.cancel()
	if !s.done {
		for range s.ch {
		}
		s.done = true
	}
}

///////////////////////////////////////////////////////////////////////////////
// Auditors

type Auditor struct {
	Name  string
	Conf  Conf
	A     *auditor.Auditor
	Store *AuditorStore
	key   *Signer
	size  uint64 // of the log it has processed
	saved uint64
}

// AuditorStore is a db.AuditorStore with fault injection.
type AuditorStore struct {
	memory.AuditorStore
	Fail func(op string) error
}

func (a *AuditorStore) PutState(raw []byte) error {
	if a.Fail != nil {
		if err := a.Fail("PutState"); err != nil {
			return err
		}
	}
	return a.AuditorStore.PutState(raw)
}

func (w *World) NewAuditor(c Conf) *Auditor {
	a := &Auditor{Name: w.name("a"), Conf: c, Store: &AuditorStore{}, key: NewSigner(c.Ak)}
	h := w.hook("auditor", nil)
	a.Store.Fail, a.key.Fail = h, func() error { return h("Sign") }
	if !w.openAuditor(a) {
		return nil
	}
	w.Rec("auditor", M{"a": a.Name, "C": c.J()})
	return a
}
func (w *World) openAuditor(a *Auditor) bool {
	err := Try(func() (err error) {
		a.A, err = auditor.NewAuditor(a.Conf.Public(), a.key, a.Store)
		return err
	})
	if err != nil {
		if !w.bad("auditor", err) {
			w.Never("auditor can not be opened: " + err.Error())
		}
		return false
	}
	return true
}
func (w *World) ReopenAuditor(a *Auditor) {
	if w.openAuditor(a) {
		a.size = a.saved
		w.Rec("areopen", M{"a": a.Name})
	}
}
func (w *World) Audit(a *Auditor, u *structs.AuditorUpdate) error {
	Saturated = false
	ju := JAuditorUpdate(u)
	if Saturated {
		return errors.New("skipped")
	}
	err := Try(func() error { return a.A.Process(u) })
	w.note("audit", err)
	if w.bad("audit", err) {
		return err
	}
	w.Rec("aprocess", M{"a": a.Name, "u": ju, "ok": err == nil})
	if err == nil {
		a.size++
	}
	return err
}
func (w *World) AuditorCommit(a *Auditor) *structs.AuditorTreeHead {
	var head *structs.AuditorTreeHead
	err := Try(func() (err error) { head, err = a.A.Commit(); return err })
	w.note("audit commit", err)
	if w.bad("audit commit", err) {
		return nil
	}
	ev := M{"a": a.Name, "ok": err == nil}
	if err == nil {
		ev["ath"] = jAuditorHead(head)[0]
	}
	raw, _ := a.Store.AuditorStore.GetState()
	if saved, serr := JAuditorState(a.Conf.Public(), raw); serr != nil {
		w.Never("auditor's state can not be decoded: " + serr.Error())
		return nil
	} else {
		ev["saved"] = saved
	}
	w.Rec("acommit", w.faulted("auditor", ev))
	if err != nil {
		return nil
	}
	a.saved = a.size
	return head
}

var _ = prefix.Entry{}

func vrfInput(label string, ver uint32) []byte {
	in, _ := structs.Marshal(&structs.VrfInput{Label: []byte(label), Version: ver})
	return in
}
