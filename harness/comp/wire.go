package comp

import (
	"bytes"
	"encoding/binary"
	"math/bits"
	"math/rand"
	"sort"

	"github.com/Bren2010/katie/tree/prefix"
	tmath "github.com/Bren2010/katie/tree/transparency/math"

	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"

	"katieverif/kt"
)

// The decoded form of everything is a tree of byte strings: numbers are
// big-endian, records and vectors are lists, optional values lists of at most
// one element.
func be8(n uint8) string   { return kt.Hex([]byte{n}) }
func be32(n uint32) string { return kt.Hex(binary.BigEndian.AppendUint32(nil, n)) }
func be64(n uint64) string { return kt.Hex(binary.BigEndian.AppendUint64(nil, n)) }
func each[T any](xs []T, f func(T) any) []any {
	out := []any{}
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}
func hexOf(b []byte) any { return kt.Hex(b) }
func optN64(p *uint64) []any {
	if p == nil {
		return []any{}
	}
	return []any{be64(*p)}
}
func optN32(p *uint32) []any {
	if p == nil {
		return []any{}
	}
	return []any{be32(*p)}
}
func optHash(b []byte) []any {
	if b == nil {
		return []any{}
	}
	return []any{kt.Hex(b)}
}

type L = []any

func tHead(t structs.TreeHead) any { return L{be64(t.TreeSize), kt.Hex(t.Signature)} }
func tAHead(t structs.AuditorTreeHead) any {
	return L{be64(t.Timestamp), be64(t.TreeSize), kt.Hex(t.Signature)}
}
func tFull(f structs.FullTreeHead) any {
	if f.TreeHead == nil {
		return L{"01", L{}}
	}
	v := L{tHead(*f.TreeHead)}
	if f.AuditorTreeHead != nil {
		v = append(v, tAHead(*f.AuditorTreeHead))
	}
	return L{"02", v}
}
func sfx(v L, sig []byte) L {
	if sig != nil {
		v = append(v, kt.Hex(sig))
	}
	return v
}
func tValue(v structs.UpdateValue) any      { return sfx(L{kt.Hex(v.Value)}, v.Signature) }
func tLV(v structs.LabelValue) any          { return kt.Hex(v.Value) }
func tInfo(v structs.UpdateInfo) any        { return sfx(L{kt.Hex(v.Opening)}, v.Signature) }
func tStored(v structs.OpeningAndValue) any { return L{kt.Hex(v.Opening), tValue(v.Value)} }
func tStep(s structs.BinaryLadderStep) any  { return L{kt.Hex(s.Proof), optHash(s.Commitment)} }
func tMap(e structs.MonitorMapEntry) any    { return L{be64(e.Position), be32(e.Version)} }
func tEntry(e prefix.Entry) any             { return L{kt.Hex(e.VrfOutput), kt.Hex(e.Commitment)} }
func tLog(e structs.LogEntry) any           { return L{be64(e.Timestamp), kt.Hex(e.PrefixTree)} }
func tResult(r prefix.PrefixSearchResult) any {
	buf := &bytes.Buffer{}
	r.Marshal(buf)
	raw := buf.Bytes()
	if len(raw) == 0 || r.Depth() != int(raw[len(raw)-1]) || r.Inclusion() != (raw[0] == 1) {
		return L{"inconsistent", kt.Hex(raw)}
	}
	switch len(raw) {
	case 2:
		return L{be8(raw[0]), be8(uint8(r.Depth()))}
	case 66:
		return L{be8(raw[0]), L{kt.Hex(raw[1:33]), kt.Hex(raw[33:65]), be8(uint8(r.Depth()))}}
	}
	return L{"odd", kt.Hex(raw)}
}
func tPrefix(p prefix.PrefixProof) any {
	return L{each(p.Results, tResult), each(p.Elements, hexOf)}
}
func tCombined(p structs.CombinedTreeProof) any {
	return L{each(p.Timestamps, func(n uint64) any { return be64(n) }), each(p.PrefixProofs, tPrefix),
		each(p.PrefixRoots, hexOf), each(p.Inclusion.Elements, hexOf)}
}

type wireGen struct {
	r     *rand.Rand
	mode  int
	vp    int
	cfg   *structs.PublicConfig
	given bool
}

func (g *wireGen) bytes(n int) []byte { b := make([]byte, n); g.r.Read(b); return b }
func (g *wireGen) n(max int) int {
	switch g.r.Intn(4) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return g.r.Intn(max + 1)
}
func (g *wireGen) opaque() []byte {
	return g.bytes([]int{0, 1, 2, 7, 32, 64, 100, 127 + g.r.Intn(3), 254 + g.r.Intn(4)}[g.r.Intn(9)])
}
func (g *wireGen) u64() uint64 {
	switch g.r.Intn(7) {
	case 0:
		return uint64(g.r.Intn(3))
	case 1:
		return ^uint64(0) - uint64(g.r.Intn(2))
	case 2:
		return 1<<63 - 1 + uint64(g.r.Intn(3))
	case 3:
		return 1<<32 - 1 + uint64(g.r.Intn(3))
	case 4:
		return uint64(1) << g.r.Intn(64)
	}
	return g.r.Uint64()
}
func (g *wireGen) u32() uint32 {
	if g.r.Intn(3) == 0 {
		return []uint32{0, 1, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1}[g.r.Intn(7)]
	}
	return g.r.Uint32()
}
func (g *wireGen) o64() *uint64 {
	if g.r.Intn(3) == 0 {
		return nil
	}
	v := g.u64()
	return &v
}
func (g *wireGen) o32() *uint32 {
	if g.r.Intn(3) == 0 {
		return nil
	}
	v := g.u32()
	return &v
}
func (g *wireGen) label() []byte {
	if g.r.Intn(12) == 0 {
		return g.bytes(254 + g.r.Intn(4))
	}
	return g.opaque()
}
func some[T any](g *wireGen, max int, f func() T) []T {
	out := make([]T, g.n(max))
	for i := range out {
		out[i] = f()
	}
	return out
}
func (g *wireGen) hash() []byte { return g.bytes(32) }
func (g *wireGen) optHash() []byte {
	if g.r.Intn(2) == 0 {
		return nil
	}
	return g.hash()
}
func (g *wireGen) head() structs.TreeHead {
	return structs.TreeHead{TreeSize: g.u64(), Signature: g.opaque()}
}
func (g *wireGen) ahead() structs.AuditorTreeHead {
	return structs.AuditorTreeHead{Timestamp: g.u64(), TreeSize: g.u64(), Signature: g.opaque()}
}
func (g *wireGen) full() structs.FullTreeHead {
	if g.r.Intn(3) == 0 {
		return structs.FullTreeHead{}
	}
	t := g.head()
	f := structs.FullTreeHead{TreeHead: &t}
	if g.mode == 3 {
		a := g.ahead()
		f.AuditorTreeHead = &a
	}
	return f
}
func (g *wireGen) suffix() structs.UpdateSuffix {
	if g.mode != 2 {
		return structs.UpdateSuffix{}
	}
	return structs.UpdateSuffix{Signature: g.opaque()}
}
func (g *wireGen) value() structs.UpdateValue {
	return structs.UpdateValue{Value: g.opaque(), UpdateSuffix: g.suffix()}
}
func (g *wireGen) lv() structs.LabelValue { return structs.LabelValue{Value: g.opaque()} }
func (g *wireGen) info() structs.UpdateInfo {
	return structs.UpdateInfo{Opening: g.bytes(16), UpdateSuffix: g.suffix()}
}
func (g *wireGen) step() structs.BinaryLadderStep {
	return structs.BinaryLadderStep{Proof: g.bytes(g.vp), Commitment: g.optHash()}
}
func (g *wireGen) mapEntry() structs.MonitorMapEntry {
	return structs.MonitorMapEntry{Position: g.u64(), Version: g.u32()}
}
func (g *wireGen) entry() prefix.Entry {
	return prefix.Entry{VrfOutput: g.hash(), Commitment: g.hash()}
}
func (g *wireGen) logEntry() structs.LogEntry {
	return structs.LogEntry{Timestamp: g.u64(), PrefixTree: g.hash()}
}
func (g *wireGen) prefixRaw() []byte {
	n := g.n(6)
	raw := []byte{byte(n)}
	for range n {
		k := byte(1 + g.r.Intn(3))
		raw = append(raw, k)
		if k == 2 {
			raw = append(raw, g.bytes(64)...)
		}
		raw = append(raw, byte(g.r.Intn(256)))
	}
	m := g.n(4)
	raw = append(raw, 0, byte(m))
	return append(raw, g.bytes(32*m)...)
}
func (g *wireGen) prefix() prefix.PrefixProof {
	p, err := prefix.NewPrefixProof(g.cfg.Suite, bytes.NewBuffer(g.prefixRaw()))
	if err != nil {
		return prefix.PrefixProof{}
	}
	return *p
}
func (g *wireGen) combined() structs.CombinedTreeProof {
	return structs.CombinedTreeProof{Timestamps: some(g, 4, g.u64), PrefixProofs: some(g, 3, g.prefix),
		PrefixRoots: some(g, 3, g.hash), Inclusion: structs.InclusionProof{Elements: some(g, 4, g.hash)}}
}

// A codec makes, encodes, decodes and takes apart values of one kind.
type codec struct {
	gen  func(g *wireGen) any
	enc  func(v any) ([]byte, error)
	dec  func(g *wireGen, b *bytes.Buffer) (any, error)
	tree func(v any) any
}

func mk[T any](gen func(g *wireGen) T, enc func(*T) ([]byte, error),
	dec func(g *wireGen, b *bytes.Buffer) (*T, error), tree func(T) any) codec {
	c := codec{
		enc:  func(v any) ([]byte, error) { return enc(v.(*T)) },
		tree: func(v any) any { return tree(*v.(*T)) },
	}
	if gen != nil {
		c.gen = func(g *wireGen) any { v := gen(g); return &v }
	}
	if dec != nil {
		c.dec = func(g *wireGen, b *bytes.Buffer) (any, error) {
			v, err := dec(g, b)
			if err != nil {
				return nil, err
			}
			return v, nil
		}
	}
	return c
}
func mar[T any, P interface {
	*T
	structs.Marshaller
}](v *T) ([]byte, error) {
	return structs.Marshal(P(v))
}

var codecs = map[string]codec{
	"search-req": mk(func(g *wireGen) structs.SearchRequest {
		return structs.SearchRequest{Last: g.o64(), Label: g.label(), Version: g.o32()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.SearchRequest, error) { return structs.NewSearchRequest(b) },
		func(v structs.SearchRequest) any { return L{optN64(v.Last), kt.Hex(v.Label), optN32(v.Version)} }),
	"contact-req": mk(func(g *wireGen) structs.ContactMonitorRequest {
		return structs.ContactMonitorRequest{Last: g.o64(), Label: g.label(), Entries: some(g, 4, g.mapEntry)}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.ContactMonitorRequest, error) {
		return structs.NewContactMonitorRequest(b)
	}, func(v structs.ContactMonitorRequest) any {
		return L{optN64(v.Last), kt.Hex(v.Label), each(v.Entries, tMap)}
	}),
	"oinit-req": mk(func(g *wireGen) structs.OwnerInitRequest {
		return structs.OwnerInitRequest{Last: g.o64(), Label: g.label(), Start: g.u64()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.OwnerInitRequest, error) {
		return structs.NewOwnerInitRequest(b)
	}, func(v structs.OwnerInitRequest) any { return L{optN64(v.Last), kt.Hex(v.Label), be64(v.Start)} }),
	"omon-req": mk(func(g *wireGen) structs.OwnerMonitorRequest {
		return structs.OwnerMonitorRequest{Last: g.o64(), Label: g.label(), Entries: some(g, 4, g.mapEntry),
			Start: g.u64(), GreatestVersion: g.o32()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.OwnerMonitorRequest, error) {
		return structs.NewOwnerMonitorRequest(b)
	}, func(v structs.OwnerMonitorRequest) any {
		return L{optN64(v.Last), kt.Hex(v.Label), each(v.Entries, tMap), be64(v.Start), optN32(v.GreatestVersion)}
	}),
	"update-req": mk(func(g *wireGen) structs.UpdateRequest {
		return structs.UpdateRequest{Last: g.o64(), Label: g.label(), GreatestVersion: g.o32(), Values: some(g, 4, g.lv)}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.UpdateRequest, error) { return structs.NewUpdateRequest(b) },
		func(v structs.UpdateRequest) any {
			return L{optN64(v.Last), kt.Hex(v.Label), optN32(v.GreatestVersion), each(v.Values, tLV)}
		}),
	"mupdate-req": mk(func(g *wireGen) structs.ManagerUpdateRequest {
		return structs.ManagerUpdateRequest{Last: g.o64(), Label: g.label(), GreatestVersion: g.o32(),
			SignedVersion: g.u32(), Values: some(g, 4, g.value)}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
		return structs.NewManagerUpdateRequest(g.cfg, b)
	}, func(v structs.ManagerUpdateRequest) any {
		return L{optN64(v.Last), kt.Hex(v.Label), optN32(v.GreatestVersion), be32(v.SignedVersion), each(v.Values, tValue)}
	}),
	"search-res": mk(func(g *wireGen) structs.SearchResponse {
		r := structs.SearchResponse{FullTreeHead: g.full(), Opening: g.bytes(16), Value: g.value(),
			BinaryLadder: some(g, 4, g.step), Search: g.combined()}
		if !g.given {
			v := g.u32()
			r.Version = &v
		}
		return r
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.SearchResponse, error) {
		req := &structs.SearchRequest{}
		if g.given {
			req.Version = new(uint32)
		}
		return structs.NewSearchResponse(g.cfg, req, b)
	}, func(v structs.SearchResponse) any {
		out := L{tFull(v.FullTreeHead)}
		if v.Version != nil {
			out = append(out, be32(*v.Version))
		}
		return append(out, kt.Hex(v.Opening), tValue(v.Value), each(v.BinaryLadder, tStep), tCombined(v.Search))
	}),
	"contact-res": mk(func(g *wireGen) structs.ContactMonitorResponse {
		return structs.ContactMonitorResponse{FullTreeHead: g.full(), Monitor: g.combined()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(g.cfg, b)
	}, func(v structs.ContactMonitorResponse) any { return L{tFull(v.FullTreeHead), tCombined(v.Monitor)} }),
	"omon-res": mk(func(g *wireGen) structs.OwnerMonitorResponse {
		return structs.OwnerMonitorResponse{FullTreeHead: g.full(), Monitor: g.combined()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(g.cfg, b)
	}, func(v structs.OwnerMonitorResponse) any { return L{tFull(v.FullTreeHead), tCombined(v.Monitor)} }),
	"oinit-res": mk(func(g *wireGen) structs.OwnerInitResponse {
		return structs.OwnerInitResponse{FullTreeHead: g.full(), GreatestVersions: some(g, 4, g.u32),
			BinaryLadder: some(g, 4, g.step), Init: g.combined()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(g.cfg, b)
	}, func(v structs.OwnerInitResponse) any {
		return L{tFull(v.FullTreeHead), each(v.GreatestVersions, func(n uint32) any { return be32(n) }),
			each(v.BinaryLadder, tStep), tCombined(v.Init)}
	}),
	"update-res": mk(func(g *wireGen) structs.UpdateResponse {
		return structs.UpdateResponse{FullTreeHead: g.full(), Position: g.u64(), Values: some(g, 3, g.lv),
			Info: some(g, 3, g.info), BinaryLadder: some(g, 4, g.step), Update: g.combined()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.UpdateResponse, error) {
		return structs.NewUpdateResponse(g.cfg, b)
	}, func(v structs.UpdateResponse) any {
		return L{tFull(v.FullTreeHead), be64(v.Position), each(v.Values, tLV), each(v.Info, tInfo),
			each(v.BinaryLadder, tStep), tCombined(v.Update)}
	}),
	"head": mk((*wireGen).head, mar,
		func(g *wireGen, b *bytes.Buffer) (*structs.TreeHead, error) { return structs.NewTreeHead(b) }, tHead),
	"ahead": mk((*wireGen).ahead, mar,
		func(g *wireGen, b *bytes.Buffer) (*structs.AuditorTreeHead, error) {
			return structs.NewAuditorTreeHead(b)
		}, tAHead),
	"fullhead": mk((*wireGen).full, mar,
		func(g *wireGen, b *bytes.Buffer) (*structs.FullTreeHead, error) {
			return structs.NewFullTreeHead(g.cfg, b)
		}, tFull),
	"value": mk((*wireGen).value, mar,
		func(g *wireGen, b *bytes.Buffer) (*structs.UpdateValue, error) {
			return structs.NewUpdateValue(g.cfg, b)
		}, tValue),
	"stored": mk(func(g *wireGen) structs.OpeningAndValue {
		return structs.OpeningAndValue{Opening: g.bytes(16), Value: g.value()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.OpeningAndValue, error) {
		return structs.NewOpeningAndValue(g.cfg, b)
	}, tStored),
	"combined": mk((*wireGen).combined, mar,
		func(g *wireGen, b *bytes.Buffer) (*structs.CombinedTreeProof, error) {
			return structs.NewCombinedTreeProof(g.cfg.Suite, b)
		}, tCombined),
	"prefix-proof": mk((*wireGen).prefix, mar,
		func(g *wireGen, b *bytes.Buffer) (*prefix.PrefixProof, error) {
			return prefix.NewPrefixProof(g.cfg.Suite, b)
		}, tPrefix),
	"log-entry": mk((*wireGen).logEntry, mar,
		func(g *wireGen, b *bytes.Buffer) (*structs.LogEntry, error) {
			return structs.NewLogEntry(g.cfg.Suite, b)
		}, tLog),
	"audit": mk(func(g *wireGen) structs.AuditorUpdate {
		return structs.AuditorUpdate{Timestamp: g.u64(), Added: some(g, 3, g.entry), Removed: some(g, 3, g.entry),
			Proof: g.prefix()}
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.AuditorUpdate, error) {
		return structs.NewAuditorUpdate(g.cfg.Suite, b)
	}, func(v structs.AuditorUpdate) any {
		return L{be64(v.Timestamp), each(v.Added, tEntry), each(v.Removed, tEntry), tPrefix(v.Proof)}
	}),
	"client": mk(func(g *wireGen) structs.ClientState {
		s := structs.ClientState{TreeHead: g.head(), FullSubtrees: some(g, 5, g.hash), LogEntries: map[uint64]structs.LogEntry{}}
		if g.mode == 3 {
			a := g.ahead()
			s.AuditorTreeHead = &a
		}
		for range g.n(5) {
			s.LogEntries[g.u64()] = g.logEntry()
		}
		return s
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.ClientState, error) {
		return structs.NewClientState(g.cfg, b)
	}, func(v structs.ClientState) any {
		out := L{tHead(v.TreeHead)}
		if v.AuditorTreeHead != nil {
			out = append(out, tAHead(*v.AuditorTreeHead))
		}
		var ps []uint64
		for p := range v.LogEntries {
			ps = append(ps, p)
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		return append(out, each(v.FullSubtrees, hexOf),
			each(ps, func(p uint64) any { return L{be64(p), tLog(v.LogEntries[p])} }))
	}),
	"label": mk(func(g *wireGen) structs.ClientLabelState {
		s := structs.ClientLabelState{Contact: some(g, 4, g.mapEntry)}
		if g.r.Intn(2) == 0 {
			s.Owner = &structs.LabelOwnerState{Starting: g.u64(), VerAtStarting: int(g.u64()), UpcomingVers: some(g, 4, g.u64)}
		}
		s.Versions = some(g, 4, func() structs.RetainedVersion {
			return structs.RetainedVersion{Version: g.u32(), VrfOutput: g.hash(), Commitment: g.optHash()}
		})
		return s
	}, mar, func(g *wireGen, b *bytes.Buffer) (*structs.ClientLabelState, error) {
		return structs.NewClientLabelState(g.cfg.Suite, b)
	}, func(v structs.ClientLabelState) any {
		own := L{}
		if v.Owner != nil {
			own = L{L{be64(v.Owner.Starting), be64(uint64(int64(v.Owner.VerAtStarting))),
				each(v.Owner.UpcomingVers, func(n uint64) any { return be64(n) })}}
		}
		return L{each(v.Contact, tMap), own, each(v.Versions, func(r structs.RetainedVersion) any {
			return L{be32(r.Version), kt.Hex(r.VrfOutput), optHash(r.Commitment)}
		})}
	}),
	"auditor": mk(func(g *wireGen) auditor.AuditorState {
		s := auditor.AuditorState{TreeHead: g.ahead(), PrefixTree: g.hash()}
		s.TreeHead.TreeSize = uint64(1 + g.r.Intn(1<<g.r.Intn(20)))
		for range bits.OnesCount64(s.TreeHead.TreeSize) {
			s.FullSubtrees = append(s.FullSubtrees, g.hash())
		}
		for range tmath.Frontier(s.TreeHead.TreeSize) {
			s.Timestamps = append(s.Timestamps, g.u64())
		}
		for range g.n(4) {
			s.Inserted = append(s.Inserted, auditor.InsertedVrfOutput{Pos: g.u64(), VrfOutput: g.hash()})
		}
		return s
	}, func(v *auditor.AuditorState) ([]byte, error) { return v.Marshal() },
		func(g *wireGen, b *bytes.Buffer) (*auditor.AuditorState, error) {
			return auditor.NewAuditorState(g.cfg.Suite, b)
		}, func(v auditor.AuditorState) any {
			out := L{tAHead(v.TreeHead)}
			out = append(out, each(v.FullSubtrees, hexOf)...)
			out = append(out, each(v.Timestamps, func(n uint64) any { return be64(n) })...)
			return append(out, kt.Hex(v.PrefixTree), each(v.Inserted, func(x auditor.InsertedVrfOutput) any {
				return L{be64(x.Pos), kt.Hex(x.VrfOutput)}
			}))
		}),
	"vrf-input": mk(func(g *wireGen) structs.VrfInput {
		return structs.VrfInput{Label: g.label(), Version: g.u32()}
	}, mar, nil, func(v structs.VrfInput) any { return L{kt.Hex(v.Label), be32(v.Version)} }),
	"commit-value": mk(func(g *wireGen) structs.CommitmentValue {
		return structs.CommitmentValue{Label: g.label(), Version: g.u32(), Update: g.value()}
	}, mar, nil, func(v structs.CommitmentValue) any {
		return L{kt.Hex(v.Label), be32(v.Version), tValue(v.Update)}
	}),
}

// size of the tree that the encoding of an auditor's state starts with.
func auditorSize(raw []byte) (uint64, bool) {
	if len(raw) < 16 {
		return 0, false
	}
	return binary.BigEndian.Uint64(raw[8:]), true
}

func (g *wireGen) event(kind string) M {
	return M{"k": kind, "mode": g.mode, "vp": g.vp, "given": g.given}
}

// decode records what is made of some bytes.
func (g *wireGen) decode(w *kt.World, kind string, c codec, raw []byte) {
	if n, ok := auditorSize(raw); kind == "auditor" && ok && (n == 0 || n >= 1<<26) {
		// Sizes of this kind need not be recorded to be refused.
		if n < 1<<62 && n > 0 {
			call(w, "decode", func() error { _, err := c.dec(g, bytes.NewBuffer(bytes.Clone(raw))); return err })
		}
		return
	}
	buf := bytes.NewBuffer(bytes.Clone(raw))
	var v any
	err, fine := call(w, "decode "+kind, func() (err error) { v, err = c.dec(g, buf); return err })
	if !fine {
		return
	}
	ev := g.event(kind)
	ev["raw"], ev["ok"] = kt.Hex(raw), err == nil
	if err == nil {
		ev["v"], ev["left"] = c.tree(v), buf.Len()
	}
	w.Rec("decode", ev)
}

func scenWire(w *kt.World, idx int) {
	r := w.Rng
	g := &wireGen{r: r}
	conf := kt.Conf{Mode: 1 + idx%3, Sk: "log", Vk: "vrf", Lk: "leaf", Ak: "aud"}
	switch idx / 3 % 3 {
	case 1:
		conf = conf.Real(r, "ed", nil, 0)
	case 2:
		conf = conf.Real(r, "p256", nil, 0)
	}
	g.mode = conf.Mode
	priv := conf.Private()
	g.cfg = priv.Public()
	g.vp = []int{64, 80, 81}[idx/3%3]

	kinds := make([]string, 0, len(codecs))
	for k := range codecs {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, kind := range kinds {
		c := codecs[kind]
		for range 2 {
			g.given = r.Intn(2) == 0
			v := c.gen(g)
			var raw []byte
			err, fine := call(w, "encode", func() (err error) { raw, err = c.enc(v); return err })
			if !fine {
				return
			}
			ev := g.event(kind)
			ev["v"], ev["ok"], ev["raw"] = c.tree(v), err == nil, kt.Hex(raw)
			w.Rec("encode", ev)
			if err != nil || c.dec == nil {
				continue
			}
			g.decode(w, kind, c, raw)
			for range 6 {
				b := bytes.Clone(raw)
				switch r.Intn(8) {
				case 0:
					b = append(b, g.bytes(1+r.Intn(40))...)
				case 1, 2:
					b = b[:r.Intn(len(b))]
				case 3:
					b = b[:len(b)-1]
				case 4: // something in between
					i := r.Intn(len(b) + 1)
					b = append(bytes.Clone(b[:i]), append(g.bytes(1+r.Intn(8)), b[i:]...)...)
				case 5: // something missing
					i := r.Intn(len(b))
					b = append(bytes.Clone(b[:i]), b[min(len(b), i+1+r.Intn(8)):]...)
				case 6: // the structure is in small bytes
					var small []int
					for i, x := range b {
						if x < 8 {
							small = append(small, i)
						}
					}
					if len(small) == 0 {
						continue
					}
					b[small[r.Intn(len(small))]] = []byte{0, 1, 2, 3, 4, 255, 128}[r.Intn(7)]
				case 7:
					b[r.Intn(len(b))] ^= byte(1 << r.Intn(8))
				}
				g.decode(w, kind, c, b)
			}
		}
	}
	g.limits(w, idx)
}

// limits tries the greatest numbers of elements, which are too many to trace.
func (g *wireGen) limits(w *kt.World, idx int) {
	r := g.r
	try := func(what string, width, n int, v any) {
		c := codecs[what]
		var raw []byte
		err, fine := call(w, "limit", func() (err error) { raw, err = c.enc(v); return err })
		if !fine {
			return
		}
		back := false
		if err == nil {
			buf := bytes.NewBuffer(raw)
			x, err2 := c.dec(g, buf)
			if err2 == nil && buf.Len() == 0 {
				raw2, err3 := c.enc(x)
				back = err3 == nil && bytes.Equal(raw, raw2)
			}
		}
		w.Rec("limit", M{"k": what, "w": width, "n": n, "ok": err == nil, "back": back})
	}
	at := func(width int) int { return 1<<(8*width) - 2 + r.Intn(3) }
	manyHashes := func(n int) [][]byte {
		out := make([][]byte, n)
		for i := range out {
			out[i] = g.hash()
		}
		return out
	}
	repeat := func(n int, f func()) {
		for range n {
			f()
		}
	}
	g.given = false
	switch idx % 12 {
	case 0:
		n := at(1)
		try("search-req", 1, n, &structs.SearchRequest{Label: g.bytes(n)})
		n = at(1)
		try("oinit-req", 1, n, &structs.OwnerInitRequest{Label: g.bytes(n)})
		n = at(1)
		try("update-req", 1, n, &structs.UpdateRequest{Label: g.bytes(n)})
		n = at(1)
		try("mupdate-req", 1, n, &structs.ManagerUpdateRequest{Label: g.bytes(n)})
		n = at(1)
		try("omon-req", 1, n, &structs.OwnerMonitorRequest{Label: g.bytes(n)})
		n = at(1)
		try("contact-req", 1, n, &structs.ContactMonitorRequest{Label: g.bytes(n)})
	case 1:
		n := at(2)
		try("head", 2, n, &structs.TreeHead{Signature: g.bytes(n)})
		n = at(2)
		try("ahead", 2, n, &structs.AuditorTreeHead{Signature: g.bytes(n)})
	case 2:
		n := at(1)
		v := structs.ContactMonitorRequest{}
		repeat(n, func() { v.Entries = append(v.Entries, g.mapEntry()) })
		try("contact-req", 1, n, &v)
		v2 := structs.OwnerMonitorRequest{Entries: v.Entries}
		try("omon-req", 1, n, &v2)
	case 3:
		n := at(1)
		v := structs.UpdateRequest{}
		repeat(n, func() { v.Values = append(v.Values, g.lv()) })
		try("update-req", 1, n, &v)
		n = at(1)
		v2 := structs.ManagerUpdateRequest{}
		repeat(n, func() { v2.Values = append(v2.Values, g.value()) })
		try("mupdate-req", 1, n, &v2)
	case 4:
		n := at(2)
		try("combined", 2, n, &structs.CombinedTreeProof{Inclusion: structs.InclusionProof{Elements: manyHashes(n)}})
		n = at(1)
		try("combined", 1, n, &structs.CombinedTreeProof{PrefixRoots: manyHashes(n)})
	case 5:
		n := at(1)
		try("combined", 1, n, &structs.CombinedTreeProof{Timestamps: make([]uint64, n)})
		n = at(1)
		try("combined", 1, n, &structs.CombinedTreeProof{PrefixProofs: make([]prefix.PrefixProof, n)})
	case 6:
		n := at(1)
		p := prefix.PrefixProof{}
		for len(p.Results) < n {
			p.Results = append(p.Results, g.prefix().Results...)
		}
		p.Results = p.Results[:n]
		try("prefix-proof", 1, n, &p)
		n = at(2)
		try("prefix-proof", 2, n, &prefix.PrefixProof{Elements: manyHashes(n)})
	case 7:
		n := at(2)
		v := structs.AuditorUpdate{}
		repeat(n, func() { v.Added = append(v.Added, g.entry()) })
		try("audit", 2, n, &v)
		n = at(2)
		v2 := structs.AuditorUpdate{}
		repeat(n, func() { v2.Removed = append(v2.Removed, g.entry()) })
		try("audit", 2, n, &v2)
	case 8:
		n := at(1)
		r := structs.SearchResponse{Version: new(uint32), Opening: g.bytes(16), Value: g.value()}
		repeat(n, func() { r.BinaryLadder = append(r.BinaryLadder, g.step()) })
		try("search-res", 1, n, &r)
		n = at(1)
		u := structs.UpdateResponse{}
		repeat(n, func() { u.BinaryLadder = append(u.BinaryLadder, g.step()) })
		try("update-res", 1, n, &u)
		n = at(2)
		o := structs.OwnerInitResponse{}
		repeat(n, func() { o.BinaryLadder = append(o.BinaryLadder, g.step()) })
		try("oinit-res", 2, n, &o)
	case 9:
		n := at(1)
		o := structs.OwnerInitResponse{GreatestVersions: make([]uint32, n)}
		try("oinit-res", 1, n, &o)
		n = at(1)
		u := structs.UpdateResponse{}
		repeat(n, func() { u.Values = append(u.Values, g.lv()) })
		try("update-res", 1, n, &u)
		n = at(1)
		u = structs.UpdateResponse{}
		repeat(n, func() { u.Info = append(u.Info, g.info()) })
		try("update-res", 1, n, &u)
	case 10:
		n := at(2) // values are longer
		try("value", 4, n, &structs.UpdateValue{Value: g.bytes(n), UpdateSuffix: g.suffix()})
		n = at(2) + r.Intn(70000)
		try("update-req", 4, n, &structs.UpdateRequest{Values: []structs.LabelValue{{Value: g.bytes(n)}, g.lv()}})
		n = at(2)
		try("update-res", 4, n, &structs.UpdateResponse{Values: []structs.LabelValue{g.lv(), {Value: g.bytes(n)}}})
		n = at(1)
		s := structs.ClientState{TreeHead: g.head(), FullSubtrees: manyHashes(n)}
		if g.mode == 3 {
			a := g.ahead()
			s.AuditorTreeHead = &a
		}
		try("client", 1, n, &s)
	case 11:
		n := at(2)
		s := auditor.AuditorState{TreeHead: g.ahead(), PrefixTree: g.hash(), FullSubtrees: manyHashes(1), Timestamps: []uint64{1}}
		s.TreeHead.TreeSize = 1
		repeat(n, func() { s.Inserted = append(s.Inserted, auditor.InsertedVrfOutput{VrfOutput: g.hash()}) })
		try("auditor", 2, n, &s)
		// Longer lists of records than of messages.
		m := 300 + r.Intn(70000)
		l := structs.ClientLabelState{}
		repeat(m, func() { l.Contact = append(l.Contact, g.mapEntry()) })
		try("label", 4, m, &l)
	}
}
