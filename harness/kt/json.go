package kt

import (
	"bytes"
	"encoding/hex"
	"errors"
	"sort"
	"time"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// M is a record of a trace, in the shapes that the specification uses.
type M = map[string]any

// Base is the first instant of a synctest bubble; all timestamps in traces are
// offsets from it, in milliseconds.
const Base = 946684800000

// Never stands for durations that are practically infinite.
const Never = uint64(1) << 62

const satur = 1 << 30

// Saturated is set when a number did not fit into a trace.
var Saturated bool

func clamp(v int64) int64 {
	if v >= satur {
		Saturated = true
		return satur
	} else if v <= -satur {
		Saturated = true
		return -satur
	}
	return v
}
func unum(v uint64) int64 {
	if v >= satur {
		Saturated = true
		return satur
	}
	return int64(v)
}

func Now() int64            { return clamp(time.Now().UnixMilli() - Base) }
func TsNum(ts uint64) int64 { return clamp(int64(ts - Base)) }
func Hex(b []byte) string   { return hex.EncodeToString(b) }
func Unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
func Hexes(bs [][]byte) []string {
	out := make([]string, len(bs))
	for i, b := range bs {
		out[i] = Hex(b)
	}
	return out
}
func opt[T any](p *T, f func(T) any) []any {
	if p == nil {
		return []any{}
	}
	return []any{f(*p)}
}
func Opt64(p *uint64) []any { return opt(p, func(v uint64) any { return unum(v) }) }
func Opt32(p *uint32) []any { return opt(p, func(v uint32) any { return unum(uint64(v)) }) }

func jTreeHead(th *structs.TreeHead) []any {
	if th == nil {
		return []any{}
	}
	return []any{M{"n": unum(th.TreeSize), "sig": Hex(th.Signature)}}
}
func jAuditorHead(th *structs.AuditorTreeHead) []any {
	if th == nil {
		return []any{}
	}
	return []any{M{"ts": TsNum(th.Timestamp), "n": unum(th.TreeSize), "sig": Hex(th.Signature)}}
}
func jFTH(f structs.FullTreeHead) M {
	return M{"th": jTreeHead(f.TreeHead), "ath": jAuditorHead(f.AuditorTreeHead)}
}

// Results decodes the encoding of a prefix proof's results.
func jResult(r prefix.PrefixSearchResult) M {
	if r == nil {
		return M{"k": 0, "d": 0}
	}
	buf := &bytes.Buffer{}
	r.Marshal(buf)
	raw := buf.Bytes()
	if len(raw) == 2 {
		return M{"k": int(raw[0]), "d": r.Depth()}
	} else if len(raw) == 66 {
		return M{"k": int(raw[0]), "d": r.Depth(), "lv": Hex(raw[1:33]), "lc": Hex(raw[33:65])}
	}
	return M{"k": 0, "d": 0, "raw": Hex(raw)}
}
func JPrefixProof(p prefix.PrefixProof) M {
	rs := make([]M, len(p.Results))
	for i, r := range p.Results {
		rs[i] = jResult(r)
	}
	return M{"r": rs, "e": Hexes(p.Elements)}
}
func jCombined(p structs.CombinedTreeProof) M {
	ts := make([]int64, len(p.Timestamps))
	for i, t := range p.Timestamps {
		ts[i] = TsNum(t)
	}
	pp := make([]M, len(p.PrefixProofs))
	for i, x := range p.PrefixProofs {
		pp[i] = JPrefixProof(x)
	}
	return M{"ts": ts, "pp": pp, "roots": Hexes(p.PrefixRoots), "inc": Hexes(p.Inclusion.Elements)}
}
func jSuffix(sig []byte) []string {
	if sig == nil {
		return []string{}
	}
	return []string{Hex(sig)}
}
func jValue(v structs.UpdateValue) M { return M{"v": Hex(v.Value), "s": jSuffix(v.Signature)} }
func jLadder(l []structs.BinaryLadderStep) []M {
	out := make([]M, len(l))
	for i, s := range l {
		out[i] = M{"p": Hex(s.Proof), "c": Hex(s.Commitment)}
	}
	return out
}
func jEntries(es []structs.MonitorMapEntry) []M {
	out := make([]M, len(es))
	for i, e := range es {
		out[i] = M{"p": unum(e.Position), "v": unum(uint64(e.Version))}
	}
	return out
}

// JReq converts a request.
func JReq(req any) M {
	switch r := req.(type) {
	case *structs.SearchRequest:
		return M{"last": Opt64(r.Last), "label": Hex(r.Label), "ver": Opt32(r.Version)}
	case *structs.ContactMonitorRequest:
		return M{"last": Opt64(r.Last), "label": Hex(r.Label), "ent": jEntries(r.Entries)}
	case *structs.OwnerInitRequest:
		return M{"last": Opt64(r.Last), "label": Hex(r.Label), "start": unum(r.Start)}
	case *structs.OwnerMonitorRequest:
		return M{"last": Opt64(r.Last), "label": Hex(r.Label), "ent": jEntries(r.Entries),
			"start": unum(r.Start), "gv": Opt32(r.GreatestVersion)}
	case *structs.UpdateRequest:
		vals := make([]string, len(r.Values))
		for i, v := range r.Values {
			vals[i] = Hex(v.Value)
		}
		return M{"last": Opt64(r.Last), "label": Hex(r.Label), "gv": Opt32(r.GreatestVersion), "vals": vals}
	}
	panic("unexpected request")
}

// JRes converts a response.
func JRes(res any) M {
	switch r := res.(type) {
	case *structs.SearchResponse:
		return M{"fth": jFTH(r.FullTreeHead), "ver": Opt32(r.Version), "op": Hex(r.Opening),
			"val": jValue(r.Value), "lad": jLadder(r.BinaryLadder), "pr": jCombined(r.Search)}
	case *structs.ContactMonitorResponse:
		return M{"fth": jFTH(r.FullTreeHead), "pr": jCombined(r.Monitor)}
	case *structs.OwnerMonitorResponse:
		return M{"fth": jFTH(r.FullTreeHead), "pr": jCombined(r.Monitor)}
	case *structs.OwnerInitResponse:
		gv := make([]int64, len(r.GreatestVersions))
		for i, v := range r.GreatestVersions {
			gv[i] = unum(uint64(v))
		}
		return M{"fth": jFTH(r.FullTreeHead), "gv": gv, "lad": jLadder(r.BinaryLadder), "pr": jCombined(r.Init)}
	case *structs.UpdateResponse:
		vals := make([]string, len(r.Values))
		for i, v := range r.Values {
			vals[i] = Hex(v.Value)
		}
		info := make([]M, len(r.Info))
		for i, x := range r.Info {
			info[i] = M{"op": Hex(x.Opening), "s": jSuffix(x.Signature)}
		}
		return M{"fth": jFTH(r.FullTreeHead), "pos": unum(r.Position), "vals": vals, "info": info,
			"lad": jLadder(r.BinaryLadder), "pr": jCombined(r.Update)}
	}
	panic("unexpected response")
}

func jEntry(e prefix.Entry) M { return M{"v": Hex(e.VrfOutput), "c": Hex(e.Commitment)} }
func jPrefixEntries(es []prefix.Entry) []M {
	out := make([]M, len(es))
	for i, e := range es {
		out[i] = jEntry(e)
	}
	return out
}
func JAuditorUpdate(u *structs.AuditorUpdate) M {
	return M{"ts": TsNum(u.Timestamp), "add": jPrefixEntries(u.Added), "rem": jPrefixEntries(u.Removed),
		"pr": JPrefixProof(u.Proof)}
}

// JClientState decodes a user's persisted state.
func JClientState(cfg *structs.PublicConfig, cs *ClientStore) (st []any, lab []M, err error) {
	st, lab = []any{}, []M{}
	if cs.State != nil {
		buf := bytes.NewBuffer(cs.State)
		s, err := structs.NewClientState(cfg, buf)
		if err != nil {
			return nil, nil, err
		} else if buf.Len() != 0 {
			return nil, nil, errors.New("trailing data")
		}
		var pos []uint64
		for p := range s.LogEntries {
			pos = append(pos, p)
		}
		sort.Slice(pos, func(i, j int) bool { return pos[i] < pos[j] })
		le := make([]M, len(pos))
		for i, p := range pos {
			e := s.LogEntries[p]
			le[i] = M{"p": unum(p), "ts": TsNum(e.Timestamp), "r": Hex(e.PrefixTree)}
		}
		st = append(st, M{"th": jTreeHead(&s.TreeHead)[0], "ath": jAuditorHead(s.AuditorTreeHead),
			"fs": Hexes(s.FullSubtrees), "le": le})
	}
	var labels []string
	for l := range cs.Labels {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	for _, l := range labels {
		rec := cs.Labels[l]
		buf := bytes.NewBuffer(rec.Raw)
		s, err := structs.NewClientLabelState(cfg.Suite, buf)
		if err != nil {
			return nil, nil, err
		} else if buf.Len() != 0 {
			return nil, nil, errors.New("trailing data")
		}
		owner := []any{}
		if s.Owner != nil {
			up := make([]int64, len(s.Owner.UpcomingVers))
			for i, u := range s.Owner.UpcomingVers {
				up[i] = unum(u)
			}
			owner = append(owner, M{"start": unum(s.Owner.Starting), "vas": clamp(int64(s.Owner.VerAtStarting)), "up": up})
		}
		vers := make([]M, len(s.Versions))
		for i, v := range s.Versions {
			vers[i] = M{"ver": unum(uint64(v.Version)), "o": Hex(v.VrfOutput), "c": Hex(v.Commitment)}
		}
		lab = append(lab, M{"l": Hex([]byte(l)), "s": M{"contact": jEntries(s.Contact), "owner": owner,
			"vers": vers, "term": unum(rec.Terminal)}})
	}
	return st, lab, nil
}

// JAuditorState decodes an auditor's persisted state.
func JAuditorState(cfg *structs.PublicConfig, raw []byte) ([]any, error) {
	if raw == nil {
		return []any{}, nil
	}
	buf := bytes.NewBuffer(raw)
	s, err := auditor.NewAuditorState(cfg.Suite, buf)
	if err != nil {
		return nil, err
	} else if buf.Len() != 0 {
		return nil, errors.New("trailing data")
	}
	tss := make([]int64, len(s.Timestamps))
	for i, t := range s.Timestamps {
		tss[i] = TsNum(t)
	}
	ins := make([]M, len(s.Inserted))
	for i, x := range s.Inserted {
		ins[i] = M{"p": unum(x.Pos), "v": Hex(x.VrfOutput)}
	}
	return []any{M{"th": jAuditorHead(&s.TreeHead)[0], "fs": Hexes(s.FullSubtrees), "tss": tss,
		"root": Hex(s.PrefixTree), "ins": ins}}, nil
}
