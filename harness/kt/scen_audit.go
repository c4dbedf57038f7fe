package kt

import (
	"bytes"
	"errors"
	"slices"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// follow is what an auditor should know of a log made up by the scenario.
type follow struct {
	m    *MapStore // with the prefix tree
	n    uint64
	ts   uint64
	keys map[string]followKey
}
type followKey struct {
	com []byte
	pos uint64
}

// ScenAudit gives an auditor updates of a log, among them many that it must not
// accept although what they show of the prefix tree is true.
func ScenAudit(w *World, idx int) {
	r := w.Rng
	c := RandConf(r, 3)
	if r.Intn(2) == 0 {
		c.Rmw = uint64(1 + r.Intn(50))
	}
	a := w.NewAuditor(c)
	if a == nil {
		return
	}
	cs := NewSuite()
	m := &Mutator{R: r}
	// Few different beginnings make the tree deep in places.
	begin := make([][]byte, 3)
	for i := range begin {
		begin[i] = make([]byte, 32)
		r.Read(begin[i])
	}
	key := func() []byte {
		k := make([]byte, 32)
		r.Read(k)
		if r.Intn(2) == 0 {
			b, n := begin[r.Intn(len(begin))], 1+r.Intn(20)
			copy(k, b[:n/8])
			if n%8 != 0 {
				mask := byte(0xff) << (8 - n%8)
				k[n/8] = b[n/8]&mask | k[n/8]&^mask
			}
		}
		return k
	}
	com := func() []byte { k := make([]byte, 32); r.Read(k); return k }
	cur := follow{m: NewMapStore(), ts: uint64(Base + r.Intn(1000)), keys: map[string]followKey{}}
	hist := []follow{cur} // by size
	committed := 0

	for i := 0; i < 45 && !w.Broken; i++ {
		switch r.Intn(10) {
		case 0: // restart, which loses what was not committed
			w.ReopenAuditor(a)
			cur = hist[committed]
			hist = hist[:committed+1]
			continue
		case 1, 2, 3:
			if r.Intn(6) == 0 {
				w.Arm("auditor", r.Intn(2))
			}
			if w.AuditorCommit(a) != nil {
				committed = int(cur.n)
			} else if cur.n > 0 {
				if raw, _ := a.Store.GetState(); raw != nil { // if the state was written all the same
					continue
				}
			}
			continue
		}
		bad := ""
		if r.Intn(3) == 0 {
			bad = []string{"time", "present", "recent", "absent", "order", "twice", "both", "old", "extra", "boundary", "lie"}[r.Intn(11)]
		}
		// A proper update.
		u := &structs.AuditorUpdate{Timestamp: cur.ts}
		switch r.Intn(3) {
		case 0:
			u.Timestamp += uint64(r.Intn(5))
		case 1:
			u.Timestamp += uint64(r.Intn(int(min(c.Rmw, 4000)) + 2))
		}
		for n := r.Intn(4); n > 0; n-- {
			u.Added = append(u.Added, prefix.Entry{VrfOutput: key(), Commitment: com()})
		}
		present := sortedKeys(cur.keys)
		remove := func(ok func(pos uint64) bool) {
			for _, k := range present {
				if ok(cur.keys[k].pos) && !slices.ContainsFunc(u.Removed, func(e prefix.Entry) bool { return string(e.VrfOutput) == k }) {
					u.Removed = append(u.Removed, prefix.Entry{VrfOutput: []byte(k), Commitment: cur.keys[k].com})
					return
				}
			}
		}
		dle, exists := followDLE(hist, u.Timestamp, c.Rmw)
		old := func(p uint64) bool { return exists && p <= dle }
		if r.Intn(2) == 0 {
			for n := 1 + r.Intn(2); n > 0; n-- {
				r.Shuffle(len(present), func(i, j int) { present[i], present[j] = present[j], present[i] })
				remove(old)
			}
			// Most are replaced: a removal can change the shape of the tree in a
			// way that an auditor does not see, see KF-1.
			for i, e := range u.Removed {
				if i > 0 || r.Intn(4) > 0 {
					u.Added = append(u.Added, prefix.Entry{VrfOutput: e.VrfOutput, Commitment: com()})
				}
			}
		}
		base := cur
		switch bad {
		case "time":
			u.Timestamp = cur.ts - uint64(1+r.Intn(2))
		case "present":
			if len(present) > 0 {
				k := present[r.Intn(len(present))]
				u.Added = append(u.Added, prefix.Entry{VrfOutput: []byte(k), Commitment: [][]byte{com(), cur.keys[k].com}[r.Intn(2)]})
			}
		case "recent":
			remove(func(p uint64) bool { return !exists || p > dle })
		case "boundary":
			remove(func(p uint64) bool { return exists && (p == dle+1 || p == dle) })
		case "absent":
			u.Removed = append(u.Removed, prefix.Entry{VrfOutput: key(), Commitment: com()})
		case "old": // what an earlier version of the tree shows
			base = hist[r.Intn(len(hist))]
		}
		sortEntries(u.Added)
		sortEntries(u.Removed)
		switch bad {
		case "order":
			if n := len(u.Added); n > 1 {
				u.Added[0], u.Added[n-1] = u.Added[n-1], u.Added[0]
			}
			if n := len(u.Removed); n > 1 {
				u.Removed[0], u.Removed[n-1] = u.Removed[n-1], u.Removed[0]
			}
		case "twice":
			if n := len(u.Added); n > 0 && r.Intn(2) == 0 {
				u.Added = append(u.Added, u.Added[n-1])
			} else if n := len(u.Removed); n > 0 {
				u.Removed = append(u.Removed, u.Removed[n-1])
			}
		case "both": // added and removed at the same time, though new
			if n := len(u.Added); n > 0 {
				u.Removed = append(u.Removed, u.Added[r.Intn(n)])
				sortEntries(u.Removed)
			}
		case "lie": // about what is removed
			if n := len(u.Removed); n > 0 {
				x := &u.Removed[r.Intn(n)]
				x.Commitment = com()
			}
		}
		// The proof is true of the tree.
		var keys [][]byte
		for _, e := range append(slices.Clone(u.Added), u.Removed...) {
			keys = append(keys, e.VrfOutput)
		}
		if bad == "extra" {
			if r.Intn(2) == 0 {
				keys = append(keys, key())
			} else if len(keys) > 0 {
				keys = keys[:len(keys)-1]
			}
		}
		err := Try(func() error {
			if base.n == 0 {
				var es []prefix.Entry
				for _, k := range keys {
					es = append(es, prefix.Entry{VrfOutput: k, Commitment: com()})
				}
				slices.SortFunc(es, compareEntries)
				es = slices.CompactFunc(es, func(a, b prefix.Entry) bool { return bytes.Equal(a.VrfOutput, b.VrfOutput) })
				_, p, _, err := prefix.NewTree(cs, NewMapStore().PrefixStore()).Mutate(0, es, nil)
				if err == nil {
					u.Proof = *p
				}
				return err
			}
			rs, err := prefix.NewTree(cs, base.m.PrefixStore()).Search([]prefix.PrefixSearch{{Version: base.n, VrfOutputs: keys}})
			if err == nil {
				u.Proof = rs[0].Proof
			}
			return err
		})
		if err != nil {
			if !w.bad("prefix tree", err) {
				w.Never("prefix tree: " + err.Error())
			}
			return
		}
		m.Learn(u)
		for n := r.Intn(3); n > 0 && r.Intn(3) == 0; n-- { // altered on the way
			if x, _ := m.Mutate(u); x != nil {
				w.Audit(a, x.(*structs.AuditorUpdate))
				if w.Broken {
					return
				}
				if a.stateN() != cur.n { // accepted: equivalent, or a log nobody knows
					return
				}
			}
		}
		// Each place of the message is altered in turn.
		if committed == int(cur.n) && committed > 0 && r.Intn(4) == 0 {
			n := cur.n
			for _, x := range some(Alterations(m, u, []uint64{0, 1, n - 1, n}), 16, r.Intn(1<<16)) {
				w.Notes["auditor update "+x.How]++
				w.Audit(a, x.Msg.(*structs.AuditorUpdate))
				if w.Broken {
					return
				}
				if a.stateN() != cur.n { // accepted: go back
					w.ReopenAuditor(a)
				}
			}
			if raw, err := structs.Marshal(u); err == nil {
				w.decodeAll("auditor update", raw, func(raw []byte) (any, error) {
					buf := bytes.NewBuffer(raw)
					out, err := structs.NewAuditorUpdate(cs, buf)
					if err == nil && buf.Len() > 0 {
						err = errors.New("trailing data")
					}
					return out, err
				}, r.Intn(1<<16))
			}
		}
		if w.Broken {
			return
		}
		if err := w.Audit(a, u); err != nil {
			if bad == "" {
				return // known finding, or reported
			}
			continue
		}
		// Follow.
		next := follow{m: cur.m.Fork(), n: cur.n + 1, ts: u.Timestamp, keys: map[string]followKey{}}
		for k, v := range cur.keys {
			next.keys[k] = v
		}
		var rems [][]byte
		for _, e := range u.Removed {
			rems = append(rems, e.VrfOutput)
			delete(next.keys, string(e.VrfOutput))
		}
		for _, e := range u.Added {
			next.keys[string(e.VrfOutput)] = followKey{e.Commitment, cur.n}
		}
		err = Try(func() error {
			_, _, _, err := prefix.NewTree(cs, next.m.PrefixStore()).Mutate(cur.n, u.Added, rems)
			return err
		})
		next.m.Commit()
		if err != nil { // accepted although it can not be
			return
		}
		cur = next
		hist = append(hist, cur)
	}
}

func compareEntries(a, b prefix.Entry) int { return bytes.Compare(a.VrfOutput, b.VrfOutput) }
func sortEntries(es []prefix.Entry)        { slices.SortFunc(es, compareEntries) }

// stateN is the size of the log that the auditor has processed, according to
// the last event recorded.
func (a *Auditor) stateN() uint64 { return a.size }

// followDLE is the rightmost distinguished log entry, if the next one has the
// given timestamp.
func followDLE(hist []follow, ts, rmw uint64) (uint64, bool) {
	n := uint64(len(hist)) // with the next one
	at := func(x uint64) uint64 {
		if x == n-1 {
			return ts
		}
		return hist[x+1].ts
	}
	var found uint64
	some := false
	// Bounds left and right of each node of the search tree.
	var walk func(lo, hi uint64, left, right uint64)
	walk = func(lo, hi, left, right uint64) {
		if lo >= hi || right < left || right-left < rmw {
			return
		}
		w := uint64(1)
		for 2*w <= hi-lo {
			w *= 2
		}
		x := lo + w - 1
		if x != n-1 && (!some || x > found) {
			found, some = x, true
		}
		walk(lo, x, left, at(x))
		walk(x+1, hi, at(x), right)
	}
	if n > 1 {
		walk(0, n, 0, ts)
	}
	return found, some
}
