// Package comp drives the building blocks of katie on their own.
package comp

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"slices"

	"github.com/Bren2010/katie/tree/log"
	logmath "github.com/Bren2010/katie/tree/log/math"
	"github.com/Bren2010/katie/tree/prefix"
	tmath "github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"

	"katieverif/kt"
)

type M = kt.M

var Scenarios = map[string]func(w *kt.World, idx int){
	"clog":    scenLog,
	"cprefix": scenPrefix,
	"cmath":   scenMath,
	"cladder": scenLadder,
	"csuite":  scenSuite,
	"cwire":   scenWire,
}

func opt(p *uint64) []uint64 {
	if p == nil {
		return []uint64{}
	}
	return []uint64{*p}
}
func bytes32(rng *rand.Rand) []byte {
	b := make([]byte, 32)
	rng.Read(b)
	return b
}
func leafValue(i, salt int) []byte {
	h := sha256.Sum256(fmt.Appendf(nil, "leaf %d %d", i, salt))
	return h[:]
}

// call runs f and records a panic.
func call(w *kt.World, what string, f func() error) (error, bool) {
	err := kt.Try(f)
	if pe, ok := err.(*kt.PanicError); ok {
		w.Never(what + ": panic: " + pe.Msg)
		return err, false
	}
	if err != nil {
		w.Notes[what+": "+err.Error()]++
	} else {
		w.Notes[what+": ok"]++
	}
	return err, true
}

///////////////////////////////////////////////////////////////////////////////
// Log tree

type logTree struct {
	name   string
	st     *kt.MapStore
	t      *log.Tree
	leaves [][]byte
	fs     map[int][][]byte // full subtrees by size
}

type logScen struct {
	w     *kt.World
	r     *rand.Rand
	trees []*logTree
	n     int
}

func (s *logScen) name() string { s.n++; return fmt.Sprintf("t%d", s.n) }

func (s *logScen) append(x *logTree, leaf []byte) bool {
	var fs [][]byte
	if s.r.Intn(4) == 0 {
		x.t = log.NewTree(kt.NewSuite(), x.st.LogStore())
	}
	err, ok := call(s.w, "append", func() (err error) { fs, err = x.t.Append(uint64(len(x.leaves)), leaf); return err })
	if !ok {
		return false
	}
	s.w.Rec("lappend", M{"t": x.name, "leaf": kt.Hex(leaf), "ok": err == nil, "fs": kt.Hexes(fs)})
	if err == nil {
		x.leaves = append(x.leaves, leaf)
		x.fs[len(x.leaves)] = fs
		if s.r.Intn(2) == 0 {
			x.st.Commit()
		}
	}
	return true
}

// bulk appends many leaves, of which only the outcome is recorded.
func (s *logScen) bulk(x *logTree, n int) bool {
	var leaves, fs [][]byte
	for range n {
		leaf := bytes32(s.r)
		err, ok := call(s.w, "append", func() (err error) { fs, err = x.t.Append(uint64(len(x.leaves)), leaf); return err })
		if !ok {
			return false
		} else if err != nil {
			s.w.Never("append: " + err.Error())
			return false
		}
		leaves, x.leaves = append(leaves, leaf), append(x.leaves, leaf)
		x.fs[len(x.leaves)] = fs
	}
	s.w.Rec("lbulk", M{"t": x.name, "leaves": kt.Hexes(leaves), "fs": kt.Hexes(fs)})
	x.st.Commit()
	return true
}

func (s *logScen) fork(x *logTree) *logTree {
	x.st.Commit()
	st := x.st.Fork()
	y := &logTree{name: s.name(), st: st, t: log.NewTree(kt.NewSuite(), st.LogStore()),
		leaves: slices.Clone(x.leaves), fs: map[int][][]byte{}}
	for k, v := range x.fs {
		y.fs[k] = v
	}
	s.w.Rec("lfork", M{"t": x.name, "to": y.name})
	s.trees = append(s.trees, y)
	return y
}

func (s *logScen) root(n uint64, fs [][]byte) ([]byte, error, bool) {
	var root []byte
	err, ok := call(s.w, "root", func() (err error) { root, err = log.Root(kt.NewSuite(), n, fs); return err })
	return root, err, ok
}

// size draws a tree size, biased to the interesting ones.
func (s *logScen) size(max int) uint64 {
	if max <= 1 {
		return 1
	}
	switch s.r.Intn(4) {
	case 0:
		return uint64(max)
	case 1:
		p := 1 << s.r.Intn(9)
		if max > 1000 {
			p = 1 << s.r.Intn(17)
		}
		p += s.r.Intn(3) - 1
		if p >= 1 && p <= max {
			return uint64(p)
		}
	}
	return uint64(1 + s.r.Intn(max))
}

type proofReq struct {
	S     []uint64
	n     uint64
	np, m *uint64
}

func (s *logScen) req(x *logTree) proofReq {
	q := proofReq{n: s.size(len(x.leaves))}
	for i := s.r.Intn(5); i > 0; i-- {
		e := uint64(s.r.Intn(int(q.n)))
		if s.r.Intn(4) == 0 {
			e = q.n - 1
		}
		if !slices.Contains(q.S, e) {
			q.S = append(q.S, e)
		}
	}
	if s.r.Intn(2) == 0 {
		v := s.size(int(q.n))
		q.np = &v
	}
	if s.r.Intn(2) == 0 {
		v := s.size(int(q.n))
		q.m = &v
	}
	return q
}

func (s *logScen) batch(x *logTree, q proofReq) ([][]byte, bool) {
	var proof [][]byte
	arg := slices.Clone(q.S)
	s.r.Shuffle(len(arg), func(i, j int) { arg[i], arg[j] = arg[j], arg[i] })
	err, ok := call(s.w, "get batch", func() (err error) { proof, err = x.t.GetBatch(arg, q.n, q.np, q.m); return err })
	if !ok {
		return nil, false
	}
	S := q.S
	if S == nil {
		S = []uint64{}
	}
	s.w.Rec("lbatch", M{"t": x.name, "S": S, "n": q.n, "np": opt(q.np), "m": opt(q.m), "ok": err == nil, "proof": kt.Hexes(proof)})
	return proof, err == nil
}

func (s *logScen) eval(q proofReq, ret, vals, proof [][]byte) {
	v := log.NewVerifier(kt.NewSuite())
	ev := M{"S": append([]uint64{}, q.S...), "n": q.n, "np": opt(q.np), "m": opt(q.m), "ret": kt.Hexes(ret),
		"vals": kt.Hexes(vals), "proof": kt.Hexes(proof), "retok": true, "ok": false, "fs": []string{}, "add": []string{}}
	names := []string{}
	for _, t := range s.trees {
		names = append(names, t.name)
	}
	ev["trees"] = names
	if q.m != nil {
		err, ok := call(s.w, "retain", func() error { return v.Retain(*q.m, ret) })
		if !ok {
			return
		}
		ev["retok"] = err == nil
		if err != nil {
			s.w.Rec("leval", ev)
			return
		}
	}
	var fs, add [][]byte
	err, ok := call(s.w, "evaluate", func() (err error) { fs, add, err = v.Evaluate(q.S, q.n, q.np, vals, proof); return err })
	if !ok {
		return
	}
	ev["ok"] = err == nil
	if err == nil {
		ev["fs"], ev["add"] = kt.Hexes(fs), kt.Hexes(add)
	}
	s.w.Rec("leval", ev)
}

// known draws a hash that occurs somewhere.
func (s *logScen) known() []byte {
	x := s.trees[s.r.Intn(len(s.trees))]
	if len(x.leaves) == 0 || s.r.Intn(8) == 0 {
		return bytes32(s.r)
	}
	if s.r.Intn(2) == 0 {
		return x.leaves[s.r.Intn(len(x.leaves))]
	}
	fs := x.fs[1+s.r.Intn(len(x.leaves))]
	if len(fs) == 0 {
		return bytes32(s.r)
	}
	return fs[s.r.Intn(len(fs))]
}

// tamper alters a list of hashes.
func (s *logScen) tamper(l [][]byte) [][]byte {
	l = slices.Clone(l)
	switch k := s.r.Intn(6); {
	case k == 0 || len(l) == 0:
		i := s.r.Intn(len(l) + 1)
		return slices.Insert(l, i, s.known())
	case k == 1:
		i := s.r.Intn(len(l))
		return slices.Delete(l, i, i+1)
	case k == 2 && len(l) > 1:
		i, j := s.r.Intn(len(l)), s.r.Intn(len(l))
		l[i], l[j] = l[j], l[i]
	case k == 3:
		i := s.r.Intn(len(l))
		l[i] = s.known()
	case k == 4:
		i := s.r.Intn(len(l))
		l[i] = bytes.Clone(l[i])
		if s.r.Intn(3) == 0 {
			l[i] = l[i][:s.r.Intn(len(l[i]))]
		} else {
			l[i][s.r.Intn(len(l[i]))] ^= 1 << s.r.Intn(8)
		}
	default:
		i := s.r.Intn(len(l))
		l[i] = bytes32(s.r)
	}
	return l
}

func scenLog(w *kt.World, idx int) {
	s := &logScen{w: w, r: w.Rng}
	st := kt.NewMapStore()
	x := &logTree{name: s.name(), st: st, t: log.NewTree(kt.NewSuite(), st.LogStore()), fs: map[int][][]byte{}}
	s.trees = append(s.trees, x)
	w.Rec("lnew", M{"t": x.name})
	target := []int{1, 3, 9, 20, 20, 40, 70, 140, 300}[s.r.Intn(9)]
	if idx%16 == 0 {
		target = 300
	}
	target = 1 + s.r.Intn(target)
	if idx%16 == 7 { // four levels of chunks
		n := 4096 - 60 + s.r.Intn(120)
		if idx%128 == 71 { // five
			n = 65536 - 30 + s.r.Intn(60)
		}
		if !s.bulk(x, n) {
			return
		}
		target = n + s.r.Intn(20)
	}
	for i := 0; len(s.trees[0].leaves) < target && !w.Broken; i++ {
		if s.r.Intn(40) == 0 {
			s.append(x, make([]byte, 31+2*s.r.Intn(2)))
		}
		if !s.append(x, leafValue(i, 0)) {
			return
		}
		if s.r.Intn(30) == 0 && len(s.trees) < 3 {
			s.fork(x)
		}
		if s.r.Intn(12) == 0 {
			s.checkRoot(x)
		}
		if s.r.Intn(6) == 0 {
			s.batch(x, s.req(x))
		}
	}
	for k, y := range s.trees[1:] {
		more := s.r.Intn(12)
		for i := 0; i < more; i++ {
			s.append(y, leafValue(i, k+1))
		}
	}
	for range 25 {
		if w.Broken {
			return
		}
		y := s.trees[s.r.Intn(len(s.trees))]
		switch s.r.Intn(8) {
		case 0:
			s.checkRoot(y)
		case 1:
			s.grow(y)
		case 2: // parameters out of range
			q := s.req(y)
			switch s.r.Intn(6) {
			case 0:
				q.n = 0
			case 1:
				v := q.n + 1 + uint64(s.r.Intn(3))
				q.np = &v
			case 2:
				v := q.n + 1 + uint64(s.r.Intn(3))
				q.m = &v
			case 3:
				v := uint64(0)
				q.m = &v
			case 4:
				q.S = append(q.S, q.n+uint64(s.r.Intn(3)))
			case 5:
				if len(q.S) > 0 {
					q.S = append(q.S, q.S[0])
				}
			}
			s.batch(y, q)
		default:
			q := s.req(y)
			proof, ok := s.batch(y, q)
			if !ok {
				return
			}
			var vals, ret [][]byte
			for _, e := range q.S {
				vals = append(vals, y.leaves[e])
			}
			if q.m != nil {
				ret = y.fs[int(*q.m)]
			}
			s.eval(q, ret, vals, proof)
			for range 3 {
				q2, ret2, vals2, proof2 := q, ret, vals, proof
				for range 1 + s.r.Intn(2) {
					switch s.r.Intn(9) {
					case 0, 1:
						proof2 = s.tamper(proof2)
					case 2:
						vals2 = s.tamper(vals2)
					case 3:
						if q2.m != nil {
							ret2 = s.tamper(ret2)
						}
					case 4: // retained from another tree
						z := s.trees[s.r.Intn(len(s.trees))]
						if q2.m != nil && int(*q2.m) <= len(z.leaves) {
							ret2 = z.fs[int(*q2.m)]
						}
					case 5: // other size
						if q2.m == nil || q2.n+1 > *q2.m {
							q2.n += uint64(s.r.Intn(3))
						}
					case 6:
						if len(q2.S) > 0 {
							q2.S = slices.Clone(q2.S)
							q2.S[s.r.Intn(len(q2.S))] = uint64(s.r.Intn(int(q2.n) + 2))
						}
					case 7:
						if q2.np != nil {
							v := s.size(int(q2.n))
							if s.r.Intn(3) == 0 {
								v = []uint64{0, q2.n + 1, q2.n + 2, 1 << 20}[s.r.Intn(4)]
							}
							q2.np = &v
						} else if s.r.Intn(4) == 0 {
							v := s.size(int(q2.n))
							q2.np = &v
						} else if q2.m == nil && s.r.Intn(4) == 0 {
							q2.n = 0
						}
					case 8: // proof and values of another tree
						z := s.trees[s.r.Intn(len(s.trees))]
						if z != y && int(q2.n) <= len(z.leaves) && !slices.ContainsFunc(q2.S, func(e uint64) bool { return int(e) >= len(z.leaves) }) {
							if p, ok := s.batch(z, q2); ok {
								proof2 = p
							}
						}
					}
				}
				s.eval(q2, ret2, vals2, proof2)
			}
		}
	}
}

func (s *logScen) checkRoot(x *logTree) {
	if len(x.leaves) == 0 {
		return
	}
	root, err, ok := s.root(uint64(len(x.leaves)), x.fs[len(x.leaves)])
	if ok {
		s.w.Rec("lroot", M{"t": x.name, "ok": err == nil, "root": kt.Hex(root)})
	}
	n := uint64(s.r.Intn(len(x.leaves) + 1))
	fs := x.fs[int(n)]
	if s.r.Intn(3) == 0 {
		fs = s.tamper(fs)
	}
	if s.r.Intn(5) == 0 {
		n = uint64(s.r.Intn(1 << 20))
	}
	root, err, ok = s.root(n, fs)
	if ok {
		s.w.Rec("lrootof", M{"n": n, "fs": kt.Hexes(fs), "ok": err == nil, "root": kt.Hex(root)})
	}
}

func (s *logScen) grow(x *logTree) {
	n := uint64(s.r.Intn(len(x.leaves) + 1))
	fs := slices.Clone(x.fs[int(n)])
	if s.r.Intn(2) == 0 { // a large tree
		n = uint64(1 + s.r.Intn(1<<25))
		fs = nil
		for range logmath.FullSubtrees(logmath.Root(n), n) {
			fs = append(fs, bytes32(s.r))
		}
	}
	leaf := s.known()
	var res [][]byte
	err, ok := call(s.w, "grow", func() (err error) { res, err = log.Append(kt.NewSuite(), n, fs, leaf); return err })
	if ok {
		s.w.Rec("lgrow", M{"n": n, "fs": kt.Hexes(fs), "leaf": kt.Hex(leaf), "ok": err == nil, "res": kt.Hexes(res)})
	}
}

///////////////////////////////////////////////////////////////////////////////
// Prefix tree

type entry struct{ v, c []byte }

type prefixScen struct {
	w    *kt.World
	r    *rand.Rand
	st   *kt.MapStore
	t    *prefix.Tree
	keys [][]byte
	vers []map[string][]byte // by version - 1
}

func jEntries(es []entry) []M {
	out := make([]M, len(es))
	for i, e := range es {
		out[i] = M{"v": kt.Hex(e.v), "c": kt.Hex(e.c)}
	}
	return out
}
func goEntries(es []entry) []prefix.Entry {
	out := make([]prefix.Entry, len(es))
	for i, e := range es {
		out[i] = prefix.Entry{VrfOutput: e.v, Commitment: e.c}
	}
	return out
}

// newKey draws a key that shares a prefix with an existing one.
func (s *prefixScen) newKey() []byte {
	if len(s.keys) == 0 || s.r.Intn(4) == 0 {
		k := bytes32(s.r)
		s.keys = append(s.keys, k)
		return k
	}
	k := bytes.Clone(s.keys[s.r.Intn(len(s.keys))])
	d := s.r.Intn(6)
	switch s.r.Intn(6) {
	case 0:
		d = s.r.Intn(20)
	case 1:
		d = s.r.Intn(255)
	case 2:
		d = []int{7, 8, 9, 15, 16, 17, 31, 63, 64, 253, 254}[s.r.Intn(11)]
	}
	k[d/8] ^= 1 << (7 - d%8)
	if s.r.Intn(2) == 0 { // everything after is new
		tail := bytes32(s.r)
		for i := d/8 + 1; i < 32; i++ {
			k[i] = tail[i]
		}
	}
	for _, o := range s.keys { // leaves at depth 256 can not be represented
		if bytes.Equal(o[:31], k[:31]) && o[31]&0xfe == k[31]&0xfe {
			return o
		}
	}
	s.keys = append(s.keys, k)
	return k
}
func (s *prefixScen) key() []byte {
	if len(s.keys) == 0 || s.r.Intn(5) == 0 {
		return s.newKey()
	}
	return s.keys[s.r.Intn(len(s.keys))]
}
func sorted(m map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func (s *prefixScen) tree() *prefix.Tree {
	if s.r.Intn(4) == 0 {
		s.t = prefix.NewTree(kt.NewSuite(), s.st.PrefixStore())
	}
	return s.t
}

// mutate applies a change to a version. If bad is set, it may be one that is
// refused.
func (s *prefixScen) mutate(bad bool) bool {
	ver := len(s.vers)
	cur := map[string][]byte{}
	if ver > 0 {
		cur = s.vers[ver-1]
	}
	var add []entry
	var rem [][]byte
	has := map[string]bool{}
	for i := s.r.Intn(1 + min(4, len(cur))); i > 0; i-- {
		ks := sorted(cur)
		k := ks[s.r.Intn(len(ks))]
		if s.r.Intn(3) == 0 && !has[k] {
			has[k] = true
			rem = append(rem, []byte(k))
		}
	}
	if s.r.Intn(10) == 0 { // remove nearly everything
		for _, k := range sorted(cur) {
			if !has[k] && s.r.Intn(4) > 0 && len(rem) < 12 {
				has[k] = true
				rem = append(rem, []byte(k))
			}
		}
	}
	seen := map[string]bool{}
	for i := s.r.Intn(6); i > 0; i-- {
		k := s.key()
		_, in := cur[string(k)]
		if seen[string(k)] || (in && !has[string(k)]) {
			continue
		}
		seen[string(k)] = true
		add = append(add, entry{k, bytes32(s.r)})
	}
	if bad {
		switch s.r.Intn(7) {
		case 0:
			if len(add) > 0 {
				add = append(add, entry{add[0].v, bytes32(s.r)})
			}
		case 1:
			if len(rem) > 0 {
				rem = append(rem, rem[0])
			}
		case 2:
			rem = append(rem, s.newKey())
		case 3:
			ks := sorted(cur)
			if len(ks) > 0 {
				add = append(add, entry{[]byte(ks[s.r.Intn(len(ks))]), bytes32(s.r)})
			}
		case 4:
			add = append(add, entry{bytes32(s.r)[:31], bytes32(s.r)})
		case 5:
			add = append(add, entry{bytes32(s.r), bytes32(s.r)[:31]})
		case 6:
			rem = append(rem, make([]byte, 33))
		}
	}
	return s.apply(ver, add, rem, true)
}

func (s *prefixScen) apply(ver int, add []entry, rem [][]byte, keep bool) bool {
	var root []byte
	var proof *prefix.PrefixProof
	var com [][]byte
	gadd := goEntries(add)
	err, ok := call(s.w, "prefix mutate", func() (err error) {
		root, proof, com, err = s.tree().Mutate(uint64(ver), gadd, rem)
		return err
	})
	if !ok {
		return false
	}
	ev := M{"t": "p", "ver": ver, "add": jEntries(add), "rem": kt.Hexes(rem), "ok": err == nil, "root": kt.Hex(root),
		"proof": M{"r": []M{}, "e": []string{}}, "com": kt.Hexes(com)}
	if err == nil {
		ev["proof"] = kt.JPrefixProof(*proof)
	}
	s.w.Rec("pmut", ev)
	if err != nil {
		s.st.Discard()
		return true
	}
	s.st.Commit()
	var old map[string][]byte
	if ver > 0 {
		old = s.vers[ver-1]
	}
	next := map[string][]byte{}
	for k, v := range old {
		next[k] = v
	}
	var rems []entry
	for i, k := range rem {
		delete(next, string(k))
		if i < len(com) {
			rems = append(rems, entry{k, com[i]})
		}
	}
	for _, a := range add {
		next[string(a.v)] = a.c
	}
	s.vers = append(s.vers[:ver], next)
	if s.r.Intn(2) == 0 {
		s.before(add, rems, proof)
		for range 2 {
			s.beforeTampered(add, rems, proof)
		}
	}
	return true
}

func (s *prefixScen) before(add, rem []entry, proof *prefix.PrefixProof) {
	dup := map[string]bool{}
	for _, a := range add {
		if dup[string(a.v)] {
			return
		}
		dup[string(a.v)] = true
	}
	// Callers see to it that nothing is added that is there already.
	for i, x := range add {
		if i < len(proof.Results) && proof.Results[i].Inclusion() &&
			!slices.ContainsFunc(rem, func(y entry) bool { return bytes.Equal(x.v, y.v) }) {
			return
		}
	}
	jp := kt.JPrefixProof(*proof)
	var b, a []byte
	err, ok := call(s.w, "before/after", func() (err error) {
		b, a, err = prefix.EvaluateBeforeAfter(kt.NewSuite(), goEntries(add), goEntries(rem), proof)
		return err
	})
	if ok {
		s.w.Rec("pbefore", M{"t": "p", "add": jEntries(add), "rem": jEntries(rem), "pr": jp, "ok": err == nil,
			"before": kt.Hex(b), "after": kt.Hex(a)})
	}
}

// rawProof is a proof in a form that can be altered.
type rawProof struct {
	r [][]byte // encodings of results
	e [][]byte
}

func rawOf(p *prefix.PrefixProof) rawProof {
	var out rawProof
	for _, r := range p.Results {
		buf := &bytes.Buffer{}
		r.Marshal(buf)
		out.r = append(out.r, buf.Bytes())
	}
	out.e = slices.Clone(p.Elements)
	return out
}
func (p rawProof) proof() *prefix.PrefixProof {
	buf := &bytes.Buffer{}
	buf.WriteByte(byte(len(p.r)))
	for _, r := range p.r {
		buf.Write(r)
	}
	binary.Write(buf, binary.BigEndian, uint16(len(p.e)))
	for _, e := range p.e {
		buf.Write(e)
	}
	out, err := prefix.NewPrefixProof(kt.NewSuite(), buf)
	if err != nil {
		return nil
	}
	return out
}
func (p rawProof) clone() rawProof { return rawProof{slices.Clone(p.r), slices.Clone(p.e)} }

// result draws a result for a search for key.
func (s *prefixScen) result(key []byte, depth byte) []byte {
	switch s.r.Intn(3) {
	case 0:
		return []byte{1, depth}
	case 1:
		lv, lc := s.key(), bytes32(s.r)
		if s.r.Intn(3) == 0 {
			lv = key
		}
		if len(s.vers) > 0 {
			m := s.vers[s.r.Intn(len(s.vers))]
			if c, ok := m[string(lv)]; ok && s.r.Intn(4) > 0 {
				lc = c
			}
		}
		return append(append(append([]byte{2}, lv...), lc...), depth)
	default:
		return []byte{3, depth}
	}
}

func (s *prefixScen) tamperProof(p rawProof, E []entry) rawProof {
	p = p.clone()
	switch k := s.r.Intn(10); {
	case k < 3 && len(p.r) > 0: // another kind of result
		i := s.r.Intn(len(p.r))
		var key []byte
		if i < len(E) {
			key = E[i].v
		}
		p.r[i] = s.result(key, p.r[i][len(p.r[i])-1])
	case k == 3 && len(p.r) > 0: // another depth
		i := s.r.Intn(len(p.r))
		p.r[i] = bytes.Clone(p.r[i])
		p.r[i][len(p.r[i])-1] += []byte{1, 255, 2, 254, 255}[s.r.Intn(5)]
	case k == 4 && len(p.r) > 0:
		i := s.r.Intn(len(p.r))
		p.r = slices.Delete(p.r, i, i+1)
	case k == 5 && len(p.r) > 0:
		i, j := s.r.Intn(len(p.r)), s.r.Intn(len(p.r))
		p.r[i], p.r[j] = p.r[j], p.r[i]
	case k == 6 && len(p.e) > 0:
		i := s.r.Intn(len(p.e))
		p.e = slices.Delete(p.e, i, i+1)
	case k == 7 && len(p.e) > 0:
		i := s.r.Intn(len(p.e))
		p.e[i] = [][]byte{make([]byte, 32), bytes32(s.r), p.e[s.r.Intn(len(p.e))]}[s.r.Intn(3)]
	case k == 8:
		p.e = slices.Insert(p.e, s.r.Intn(len(p.e)+1), [][]byte{make([]byte, 32), bytes32(s.r)}[s.r.Intn(2)])
	default: // a sibling hidden or shown: one level up or down for everything at the end
		if len(p.r) > 0 {
			i := s.r.Intn(len(p.r))
			r := bytes.Clone(p.r[i])
			d := int8(1 - 2*s.r.Intn(2))
			r[len(r)-1] = byte(int8(r[len(r)-1]) + d)
			p.r[i] = r
			if d > 0 {
				p.e = slices.Insert(p.e, s.r.Intn(len(p.e)+1), make([]byte, 32))
			} else if len(p.e) > 0 {
				j := s.r.Intn(len(p.e))
				p.e = slices.Delete(p.e, j, j+1)
			}
		}
	}
	return p
}

func (s *prefixScen) beforeTampered(add, rem []entry, proof *prefix.PrefixProof) {
	add, rem = slices.Clone(add), slices.Clone(rem)
	E := append(slices.Clone(add), rem...)
	p := rawOf(proof)
	for range 1 + s.r.Intn(2) {
		switch s.r.Intn(5) {
		case 4: // malformed entries
			for _, l := range [][]entry{add, rem} {
				if len(l) == 0 || s.r.Intn(2) == 0 {
					continue
				}
				i := s.r.Intn(len(l))
				switch s.r.Intn(4) {
				case 0:
					l[i].v = bytes.Clone(l[i].v)[:s.r.Intn(len(l[i].v))]
				case 1:
					l[i].v = append(bytes.Clone(l[i].v), 0)
				case 2:
					l[i].c = bytes32(s.r)[:1+s.r.Intn(31)]
				case 3:
					l[i].c = append(bytes32(s.r), 0)
				}
			}
		case 0:
			if len(rem) > 0 {
				i := s.r.Intn(len(rem))
				if s.r.Intn(2) == 0 {
					rem[i].c = bytes32(s.r)
				} else {
					rem[i].v = s.key()
				}
			}
		case 1:
			if len(add) > 0 {
				i := s.r.Intn(len(add))
				if s.r.Intn(2) == 0 {
					add[i].c = bytes32(s.r)
				} else {
					add[i].v = s.key()
				}
			}
		default:
			p = s.tamperProof(p, E)
		}
	}
	if pr := p.proof(); pr != nil {
		s.before(add, rem, pr)
	}
}

func (s *prefixScen) eval(E []entry, pr *prefix.PrefixProof) {
	jp := kt.JPrefixProof(*pr)
	var root []byte
	err, ok := call(s.w, "prefix evaluate", func() (err error) {
		root, err = prefix.Evaluate(kt.NewSuite(), goEntries(E), pr)
		return err
	})
	if ok {
		s.w.Rec("peval", M{"t": "p", "E": jEntries(E), "pr": jp, "ok": err == nil, "root": kt.Hex(root)})
	}
	if s.r.Intn(4) == 0 && ok {
		if root == nil || s.r.Intn(2) == 0 {
			root = bytes32(s.r)
		}
		err, ok := call(s.w, "prefix verify", func() error { return prefix.Verify(kt.NewSuite(), goEntries(E), pr, root) })
		if ok {
			s.w.Rec("pverify", M{"E": jEntries(E), "pr": jp, "root": kt.Hex(root), "ok": err == nil})
		}
	}
}

func (s *prefixScen) search() {
	type q struct {
		ver int
		vs  [][]byte
	}
	var qs []q
	var gs []prefix.PrefixSearch
	dup := false
	for i := 1 + s.r.Intn(3); i > 0; i-- {
		x := q{ver: 1 + s.r.Intn(len(s.vers)), vs: [][]byte{}}
		if s.r.Intn(30) == 0 {
			x.ver = 0
		}
		seen := map[string]bool{}
		for j := s.r.Intn(5); j > 0; j-- {
			k := s.key()
			if s.r.Intn(60) == 0 {
				k = bytes32(s.r)[:31]
			}
			if seen[string(k)] {
				if s.r.Intn(8) > 0 {
					continue
				}
				dup = true
			}
			seen[string(k)] = true
			x.vs = append(x.vs, k)
		}
		qs = append(qs, x)
		gs = append(gs, prefix.PrefixSearch{Version: uint64(x.ver), VrfOutputs: x.vs})
	}
	var res []prefix.SearchResult
	err, ok := call(s.w, "prefix search", func() (err error) { res, err = s.tree().Search(gs); return err })
	if !ok {
		return
	}
	jq, jr := []M{}, []M{}
	for _, x := range qs {
		jq = append(jq, M{"ver": x.ver, "vs": kt.Hexes(x.vs)})
	}
	for _, x := range res {
		jr = append(jr, M{"pr": kt.JPrefixProof(x.Proof), "c": kt.Hexes(x.Commitments)})
	}
	s.w.Rec("psearch", M{"t": "p", "q": jq, "ok": err == nil, "res": jr})
	if err != nil || dup {
		return
	}
	for i, x := range res {
		var E []entry
		for j, k := range qs[i].vs {
			E = append(E, entry{k, x.Commitments[j]})
		}
		s.eval(E, &x.Proof)
		for range 3 {
			E2, p := slices.Clone(E), rawOf(&x.Proof)
			for range 1 + s.r.Intn(2) {
				switch s.r.Intn(6) {
				case 0:
					if len(E2) > 0 {
						k := s.r.Intn(len(E2))
						switch s.r.Intn(4) {
						case 0:
							E2[k].c = bytes32(s.r)
						case 1:
							E2[k].c = nil
						case 2:
							E2[k].v = s.key()
						case 3:
							j := s.r.Intn(len(E2))
							E2[k], E2[j] = E2[j], E2[k]
							switch s.r.Intn(6) { // malformed
							case 0:
								E2[k].v = bytes.Clone(E2[k].v)[:s.r.Intn(32)]
							case 1:
								E2[k].v = append(bytes.Clone(E2[k].v), 0)
							case 2:
								E2[k].c = bytes32(s.r)[:1+s.r.Intn(31)]
							case 3:
								E2[k].c = append(bytes32(s.r), 0)
							case 4:
								E2[k] = E2[j]
							}
						}
					}
				case 1: // the proof of another version
					y := res[s.r.Intn(len(res))]
					p = rawOf(&y.Proof)
				default:
					p = s.tamperProof(p, E2)
				}
			}
			if pr := p.proof(); pr != nil {
				s.eval(E2, pr)
			}
		}
	}
}

func scenPrefix(w *kt.World, idx int) {
	s := &prefixScen{w: w, r: w.Rng, st: kt.NewMapStore()}
	s.t = prefix.NewTree(kt.NewSuite(), s.st.PrefixStore())
	w.Rec("pnew", M{"t": "p"})
	steps := 10 + s.r.Intn(25)
	bulk := s.r.Intn(3) == 0
	for i := 0; i < steps && !w.Broken; i++ {
		switch {
		case bulk && i == 1: // a large version, so that the tree is spread over tiles
			var add []entry
			for _, k := range s.keys {
				if len(s.vers) == 0 || s.vers[len(s.vers)-1][string(k)] == nil {
					add = append(add, entry{k, bytes32(s.r)})
				}
			}
			for range 60 + s.r.Intn(60) {
				n := len(s.keys)
				k := s.newKey()
				if len(s.keys) > n {
					add = append(add, entry{k, bytes32(s.r)})
				}
			}
			if !s.apply(len(s.vers), add, nil, true) {
				return
			}
		case len(s.vers) == 0 || s.r.Intn(2) == 0:
			if !s.mutate(s.r.Intn(6) == 0) {
				return
			}
		default:
			s.search()
		}
	}
}

///////////////////////////////////////////////////////////////////////////////
// Arithmetic

func h64(x uint64) string { return fmt.Sprintf("%016x", x) }
func hs64(xs []uint64) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = h64(x)
	}
	return out
}
func opt64(p *uint64) []string { return hs64(opt(p)) }

func bigSize(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return 1 + uint64(r.Intn(70))
	case 1:
		k := uint64(1) << r.Intn(64)
		return max(1, min(k+uint64(r.Intn(3))-1, 1<<63))
	case 2:
		return (1 << 63) - uint64(r.Intn(5))
	}
	return 1 + r.Uint64()>>(1+r.Intn(62))
}

func logWalk(w *kt.World, n uint64, dirs []int) {
	ev := M{"n": h64(n)}
	_, ok := call(w, "log math", func() error {
		x := logmath.Root(n)
		ids := []uint64{x}
		var used []int
		for _, d := range dirs {
			if logmath.IsLeaf(x) {
				break
			}
			if d == 0 {
				x = logmath.Left(x)
			} else {
				x = logmath.Right(x, n)
			}
			used = append(used, d)
			ids = append(ids, x)
		}
		ev["dirs"], ev["ids"], ev["leaf"] = append([]int{}, used...), hs64(ids), logmath.IsLeaf(x)
		ev["up"], ev["co"] = hs64(logmath.DirectPath(x, n)), hs64(logmath.Copath(x, n))
		ev["full"], ev["subs"] = logmath.IsFullSubtree(x, n), hs64(logmath.FullSubtrees(x, n))
		return nil
	})
	if ok {
		w.Rec("lwalk", ev)
	}
}

func logBatch(w *kt.World, S []uint64, n uint64, np, m *uint64) {
	var out []uint64
	if _, ok := call(w, "batch copath", func() error { out = logmath.BatchCopath(S, n, np, m); return nil }); ok {
		w.Rec("lbatchm", M{"S": hs64(S), "n": h64(n), "np": opt64(np), "m": opt64(m), "out": hs64(out)})
	}
}

func treeWalk(w *kt.World, n uint64, dirs []int) {
	ev := M{"n": h64(n)}
	_, ok := call(w, "search tree math", func() error {
		x := tmath.Root(n)
		ids := []uint64{x}
		var used []int
		for _, d := range dirs {
			if tmath.IsLeaf(x) {
				break
			} else if d == 0 {
				x = tmath.Left(x)
			} else if x == n-1 {
				break
			} else {
				x = tmath.Right(x, n)
			}
			used = append(used, d)
			ids = append(ids, x)
		}
		up := []uint64{}
		if x != tmath.Root(n) {
			up = append(up, tmath.Parent(x, n))
		}
		ev["dirs"], ev["ids"], ev["up"] = append([]int{}, used...), hs64(ids), hs64(up)
		ev["right"], ev["left"] = hs64(tmath.RightDirectPath(x, n)), hs64(tmath.LeftDirectPath(x))
		return nil
	})
	if ok {
		w.Rec("iwalk", ev)
	}
}

func treeView(w *kt.World, n uint64, m *uint64) {
	var front, out []uint64
	_, ok := call(w, "view math", func() error {
		front, out = tmath.Frontier(n), tmath.UpdateView(n, m)
		return nil
	})
	if ok {
		w.Rec("iview", M{"n": h64(n), "m": opt64(m), "front": hs64(front), "out": hs64(out)})
	}
}

func dirs(r *rand.Rand) []int {
	out := make([]int, r.Intn(66))
	bias := r.Intn(5)
	for i := range out {
		if r.Intn(4) < bias {
			out[i] = 1
		}
	}
	return out
}

// scenMath covers all sizes up to 40, and then samples all others.
// windows compares times, all of which may have 64 bits.
func windows(w *kt.World) {
	r := w.Rng
	num := func() uint64 {
		v := r.Uint64() >> r.Intn(64)
		if r.Intn(3) == 0 {
			v = uint64(1)<<r.Intn(64) + uint64(r.Intn(3)) - 1
		}
		return v
	}
	for range 40 {
		c := &structs.Config{ReasonableMonitoringWindow: num(), MaximumLifetime: num()}
		if r.Intn(5) == 0 {
			c.MaximumLifetime = 0
		}
		a, b := num(), num()
		if a > b {
			a, b = b, a
		}
		for _, d := range []uint64{c.ReasonableMonitoringWindow, c.MaximumLifetime} { // at the edge
			if d += uint64(r.Intn(3)) - 1; r.Intn(3) == 0 && a+d >= a {
				b = a + d
			}
		}
		var dist, exp bool
		if _, ok := call(w, "windows", func() error {
			dist, exp = c.IsDistinguished(a, b), c.IsExpired(a, b)
			return nil
		}); !ok {
			return
		}
		w.Rec("windows", M{"a": h64(a), "b": h64(b), "rmw": h64(c.ReasonableMonitoringWindow),
			"life": h64(c.MaximumLifetime), "dist": dist, "exp": exp})
	}
}

func scenMath(w *kt.World, idx int) {
	r := w.Rng
	windows(w)
	if idx < 20 {
		for n := uint64(2*idx + 1); n <= uint64(2*idx+2); n++ {
			for x := uint64(0); x < n; x++ { // by way of every leaf
				for k := 0; k < 7; k++ {
					var d []int
					lo, hi := uint64(0), n
					for i := 0; i < k && hi-lo > 1; i++ {
						p := uint64(1)
						for 2*p < hi-lo {
							p *= 2
						}
						if x < lo+p {
							d, hi = append(d, 0), lo+p
						} else {
							d, lo = append(d, 1), lo+p
						}
					}
					if len(d) < k {
						break
					}
					logWalk(w, n, d)
				}
			}
			var rec func(d []int, lo, hi uint64)
			rec = func(d []int, lo, hi uint64) {
				treeWalk(w, n, slices.Clone(d))
				p := uint64(1)
				for 2*p <= hi-lo {
					p *= 2
				}
				mid := lo + p - 1
				if lo < mid {
					rec(append(slices.Clone(d), 0), lo, mid)
				}
				if mid+1 < hi {
					rec(append(slices.Clone(d), 1), mid+1, hi)
				}
			}
			rec(nil, 0, n)
			treeView(w, n, nil)
			for m := uint64(1); m <= n; m++ {
				treeView(w, n, &m)
				logBatch(w, []uint64{}, n, nil, &m)
				logBatch(w, []uint64{(m * 7) % n}, n, &m, nil)
			}
		}
		return
	}
	for range 60 {
		n := bigSize(r)
		logWalk(w, n, dirs(r))
		treeWalk(w, n, dirs(r))
		pick := func() *uint64 {
			v := bigSize(r)
			if v > n {
				v = 1 + (v-1)%n
			}
			if r.Intn(3) == 0 {
				v = max(1, n-min(n-1, uint64(r.Intn(5))))
			}
			return &v
		}
		m := pick()
		if r.Intn(5) == 0 {
			m = nil
		}
		treeView(w, n, m)
		S := []uint64{}
		for range r.Intn(4) {
			if v := *pick() - 1; !slices.Contains(S, v) {
				S = append(S, v)
			}
		}
		var np *uint64
		if r.Intn(2) == 0 {
			np = pick()
		}
		logBatch(w, S, n, np, m)
	}
}

///////////////////////////////////////////////////////////////////////////////
// Ladders

func pr32(v uint32) []uint32 { return []uint32{v >> 16, v & 0xffff} }
func prs32(vs []uint32) [][]uint32 {
	out := make([][]uint32, len(vs))
	for i, v := range vs {
		out[i] = pr32(v)
	}
	return out
}
func set32(m map[uint32]struct{}) [][]uint32 {
	var l []uint32
	for v := range m {
		l = append(l, v)
	}
	slices.Sort(l)
	return prs32(l)
}

func ver32(r *rand.Rand) uint32 {
	switch r.Intn(5) {
	case 0:
		return uint32(r.Intn(40))
	case 1:
		return uint32(1)<<r.Intn(32) + uint32(r.Intn(3)) - 1
	case 2:
		return ^uint32(0) - uint32(r.Intn(4))
	}
	return r.Uint32() >> r.Intn(32)
}

func ladder(w *kt.World, t, n uint32, left, right map[uint32]struct{}) []uint32 {
	var out []uint32
	if _, ok := call(w, "ladder", func() error { out = tmath.SearchBinaryLadder(t, n, left, right); return nil }); ok {
		w.Rec("ladder", M{"t": pr32(t), "n": pr32(n), "left": set32(left), "right": set32(right), "out": prs32(out)})
	}
	return out
}

func results(in []bool) *prefix.PrefixProof {
	p := rawProof{}
	for _, b := range in {
		if b {
			p.r = append(p.r, []byte{1, 9})
		} else {
			p.r = append(p.r, []byte{3, 9})
		}
	}
	return p.proof()
}

func interp(w *kt.World, lad []uint32, t uint32, in []bool) {
	var r int
	err, ok := call(w, "interpret", func() (err error) { r, err = tmath.InterpretSearchLadder(lad, t, results(in)); return err })
	if ok {
		w.Rec("interp", M{"lad": prs32(lad), "t": pr32(t), "incl": append([]bool{}, in...), "ok": err == nil, "r": r})
	}
}

func monLadder(w *kt.World, t uint32) {
	var out []uint32
	if _, ok := call(w, "monitoring ladder", func() error { out = tmath.MonitoringBinaryLadder(t); return nil }); ok {
		w.Rec("monladder", M{"t": pr32(t), "out": prs32(out)})
	}
}

func scenLadder(w *kt.World, idx int) {
	r := w.Rng
	if idx < 16 { // everything that is small
		for t := uint32(2 * idx); t < uint32(2*idx+2); t++ {
			monLadder(w, t)
			for n := uint32(0); n < 33; n++ {
				out := ladder(w, t, n, nil, nil)
				in := make([]bool, len(out))
				for i, v := range out {
					in[i] = v <= n
				}
				full := ladder(w, t, t, nil, nil)
				interp(w, full, t, in)
			}
		}
		return
	}
	for range 40 {
		t := ver32(r)
		n := ver32(r)
		if r.Intn(2) == 0 {
			n = t + uint32(r.Intn(5)) - 2
		}
		monLadder(w, t)
		full := ladder(w, t, t, nil, nil)
		out := ladder(w, t, n, nil, nil)
		left, right := map[uint32]struct{}{}, map[uint32]struct{}{}
		for range r.Intn(4) {
			v := full[r.Intn(len(full))]
			if r.Intn(2) == 0 {
				left[v] = struct{}{}
			} else {
				right[v] = struct{}{}
			}
		}
		ladder(w, t, n, left, right)
		in := make([]bool, len(out))
		for i, v := range out {
			in[i] = v <= n
		}
		interp(w, full, t, in)
		if len(in) > 0 { // results that do not fit
			in = slices.Clone(in)
			switch r.Intn(4) {
			case 0:
				in = in[:r.Intn(len(in))]
			case 1:
				in = append(in, r.Intn(2) == 0)
			case 2:
				in[r.Intn(len(in))] = r.Intn(2) == 0
			case 3:
				for len(in) <= len(full) {
					in = append(in, full[min(len(in), len(full)-1)] <= t)
				}
			}
			interp(w, full, t, in)
		}
		// Lookups made at earlier log entries.
		vt := &tmath.VersionTracker{}
		omit := r.Intn(5) > 0
		adds := []M{}
		for range r.Intn(6) {
			x := uint64(r.Intn(20))
			o := omit
			if r.Intn(10) == 0 {
				o = !o
			}
			g := int64(ver32(r)>>r.Intn(8)) - 1
			var lad []uint32
			var in []bool
			for _, v := range full {
				if r.Intn(3) > 0 {
					lad = append(lad, v)
					in = append(in, int64(v) <= g)
				}
			}
			_, ok := call(w, "tracker", func() error {
				if r.Intn(2) == 0 {
					vt.AddLadder(x, o, int(g), lad)
				} else {
					vt.AddResults(x, o, lad, results(in).Results)
				}
				return nil
			})
			if !ok {
				return
			}
			adds = append(adds, M{"x": x, "omit": o, "lad": prs32(lad), "in": append([]bool{}, in...)})
		}
		for range 3 {
			x := uint64(r.Intn(20))
			var l, rr map[uint32]struct{}
			if _, ok := call(w, "tracker", func() error { l, rr = vt.SearchMaps(x, omit); return nil }); ok {
				w.Rec("tracker", M{"add": adds, "x": x, "omit": omit, "left": set32(l), "right": set32(rr)})
			}
		}
	}
}
