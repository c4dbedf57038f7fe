package kt

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// Alteration is a message that was altered in one place.
type Alteration struct {
	Msg any
	How string
}

// Alterations lists the alterations of every single place of a message. nums
// are numbers to put in the place of others.
func Alterations(m *Mutator, msg any, nums []uint64) []Alteration {
	var out []Alteration
	var all []site
	sites(reflect.ValueOf(msg).Elem(), "", "", &all)
	for _, s := range all {
		add := func(how string, f func(v reflect.Value)) {
			c := deepCopy(reflect.ValueOf(msg))
			v, _ := find(c.Elem(), s.path)
			f(v)
			out = append(out, Alteration{c.Interface(), s.path + " " + how})
		}
		v := s.v
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				add("nil", func(v reflect.Value) { v.SetZero() })
			} else {
				add("new", func(v reflect.Value) { v.Set(reflect.New(v.Type().Elem())) })
				if k := v.Type().Elem().Kind(); k == reflect.Uint32 || k == reflect.Uint64 {
					for _, x := range nums {
						add("new", func(v reflect.Value) {
							v.Set(reflect.New(v.Type().Elem()))
							v.Elem().SetUint(x)
						})
					}
				}
			}
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			add("+1", func(v reflect.Value) { v.SetUint(v.Uint() + 1) })
			add("-1", func(v reflect.Value) { v.SetUint(v.Uint() - 1) })
			if s.name != "Timestamps" && s.name != "Timestamp" {
				for _, x := range nums {
					if x != v.Uint() {
						add("number", func(v reflect.Value) { v.SetUint(x) })
					}
				}
			}
		case reflect.Interface:
			if v.Type() == reflect.TypeFor[prefix.PrefixSearchResult]() {
				for range 4 {
					add("result", func(v reflect.Value) { v.Set(reflect.ValueOf(m.result(v.Interface()))) })
				}
			}
		case reflect.Slice:
			n := v.Len()
			if v.Type().Elem().Kind() == reflect.Uint8 {
				set := func(how string, f func(b []byte) []byte) {
					add(how, func(v reflect.Value) {
						b := f(bytes.Clone(v.Bytes()))
						if len(b) == 0 && s.name == "Commitment" {
							b = nil
						}
						v.SetBytes(b)
					})
				}
				set("extended", func(b []byte) []byte { return append(b, 0) })
				if n > 0 {
					set("cut", func(b []byte) []byte { return b[:len(b)-1] })
					set("emptied", func(b []byte) []byte { return []byte{} })
					set("first bit", func(b []byte) []byte { b[0] ^= 0x80; return b })
					set("last bit", func(b []byte) []byte { b[len(b)-1] ^= 1; return b })
				}
				continue
			}
			for i := range n {
				add("removed", func(v reflect.Value) {
					v.Set(reflect.AppendSlice(v.Slice(0, i), v.Slice(i+1, n)))
				})
			}
			for i := 0; i+1 < n; i++ {
				add("swapped", func(v reflect.Value) {
					a, b := deepCopy(v.Index(i)), deepCopy(v.Index(i+1))
					v.Index(i).Set(b)
					v.Index(i + 1).Set(a)
				})
			}
			if n > 1 {
				add("cleared", func(v reflect.Value) { v.SetZero() })
				add("halved", func(v reflect.Value) { v.Set(v.Slice(0, n/2)) })
			}
			if n > 0 {
				add("duplicated", func(v reflect.Value) { v.Set(reflect.Append(v, deepCopy(v.Index(n-1)))) })
			}
			if v.Type().Elem() != reflect.TypeFor[prefix.PrefixSearchResult]() {
				add("zero added", func(v reflect.Value) {
					e := reflect.New(v.Type().Elem()).Elem()
					switch e.Interface().(type) {
					case []byte:
						e.SetBytes(make([]byte, 32))
					case uint64:
						if s.name == "Timestamps" {
							e.SetUint(Base)
						}
					}
					v.Set(reflect.Append(v, e))
				})
			} else {
				add("result added", func(v reflect.Value) { v.Set(reflect.Append(v, reflect.ValueOf(m.result(nil)))) })
			}
		}
	}
	return out
}

// some picks about n alterations, evenly.
func some(l []Alteration, n, from int) []Alteration {
	step := max(1, len(l)/n)
	var out []Alteration
	for i := from % step; i < len(l); i += step {
		out = append(out, l[i])
	}
	return out
}

// frugal runs f on an input of the given length and reports whether it used an
// unreasonable amount of memory.
func (w *World) frugal(what string, n int, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	if x := b.TotalAlloc - a.TotalAlloc; x > uint64(4<<20+4096*n) {
		w.Never(fmt.Sprintf("%s: used %d bytes of memory for an input of %d bytes", what, x, n))
	}
}

// decodeAll gives damaged encodings of a message to its decoder.
func (w *World) decodeAll(what string, raw []byte, decode func(raw []byte) (any, error), from int) {
	try := func(alt []byte, must bool) {
		if w.Broken {
			return
		}
		var out any
		var err error
		w.frugal("decoding "+what, len(alt), func() {
			err = Try(func() (err error) { out, err = decode(alt); return err })
		})
		if w.bad("decoding "+what, err) || err != nil {
			return
		}
		if must {
			w.Never(fmt.Sprintf("decoding %s: accepted %x", what, alt))
			return
		}
		var again []byte
		err = Try(func() (err error) { again, err = structs.Marshal(out.(structs.Marshaller)); return err })
		if w.bad("encoding", err) {
			return
		} else if err != nil || !bytes.Equal(again, alt) {
			w.Never(fmt.Sprintf("encoding is not canonical: %s %x", what, alt))
		}
	}
	try(append(bytes.Clone(raw), 0), true)
	step := max(1, len(raw)/60)
	for i := from % step; i < len(raw); i += step {
		try(raw[:i:i], true) // no encoding is the beginning of another
		for _, n := range []int{1, 2, 4, 8} {
			if i+n <= len(raw) {
				alt := bytes.Clone(raw)
				for j := range n {
					alt[i+j] = 0xff
				}
				try(alt, false)
				alt = bytes.Clone(raw)
				for j := range n {
					alt[i+j] = 0
				}
				try(alt, false)
			}
		}
	}
}

// askAll sends altered requests to the log.
func (w *World) askAll(e *E2E, m *Mutator, req any, from int) {
	n := uint64(e.H.Size())
	nums := []uint64{0, 1, 2, n - 1, n, n + 1, n / 2}
	for _, a := range some(Alterations(m, req, nums), 24, from) {
		if w.Broken {
			return
		}
		w.Notes["request "+a.How]++
		Saturated = false
		JReq(a.Msg)
		if Saturated {
			continue
		}
		if _, ok := a.Msg.(*structs.UpdateRequest); ok {
			w.tryUpdate(e, a.Msg.(*structs.UpdateRequest))
		} else {
			w.Ask(w.Open(e.S), a.Msg, false)
		}
	}
	// Extreme numbers, which do not fit into traces; only survival counts.
	for _, a := range some(Alterations(m, req, []uint64{math.MaxUint64, math.MaxInt64, math.MaxUint32, 1 << 31, 1 << 63}), 12, from) {
		if w.Broken {
			return
		}
		h := w.quiet(e.S)
		if u, ok := a.Msg.(*structs.UpdateRequest); ok {
			for _, x := range w.QuietUpdate(h, u) {
				_ = x
			}
		} else {
			wire := w.Wire
			w.Wire = false
			w.Ask(h, a.Msg, true)
			w.Wire = wire
		}
	}
}

// quiet opens a handle that traces know nothing of.
func (w *World) quiet(s *Store) *Handle {
	ev := w.Ev
	h := w.Open(s)
	w.Ev = ev
	return h
}

// tryUpdate has the log process an update request; nothing is sequenced.
func (w *World) tryUpdate(e *E2E, req *structs.UpdateRequest) {
	st := w.StartUpdate(w.Open(e.S), req)
	if st == nil {
		return
	}
	defer st.Close()
	for !w.Broken {
		if _, ok := w.Next(st, func(transparency.UpdateRequest) (uint64, bool) { return 0, false }); !ok {
			return
		}
	}
}

// corrupted has users whose stored state was damaged go on.
func (w *World) corrupted(e *E2E, u *User, from int) {
	if len(u.S.State) == 0 {
		return
	}
	ops := func(what string, edit func(s *ClientStore) bool, all bool) {
		s := u.S.Clone()
		if w.Broken || !edit(s) {
			return
		}
		c, err := transparency.NewClient(u.Cfg, s)
		if err != nil {
			return
		}
		label := []byte(e.label())
		if ls := sortedKeys(s.Labels); len(ls) > 0 {
			label = []byte(ls[0])
		}
		for i, f := range []func() error{
			func() error { _, _, err := c.Update(label, nil); return err },
			func() error { _, _, err := c.Monitor(); return err },
			func() error { _, _, err := c.GreatestVersionSearch(label); return err },
			func() error { _, _, err := c.OwnerInit(label); return err },
		} {
			err := Try(f)
			if w.bad("user with damaged state", err) {
				return
			} else if err == nil && (all || i == 0) {
				w.Never("user with damaged state goes on: " + what)
			}
		}
	}
	ops("extended", func(s *ClientStore) bool { s.State = append(bytes.Clone(s.State), 0); return true }, true)
	for i := from % 7; i < len(u.S.State); i += 7 {
		ops("cut", func(s *ClientStore) bool { s.State = s.State[:i:i]; return i > 0 }, true)
	}
	edit := func(f func(raw []byte) []byte) func(s *ClientStore) bool {
		return func(s *ClientStore) bool {
			ls := sortedKeys(s.Labels)
			if len(ls) == 0 {
				return false
			}
			x := s.Labels[ls[0]]
			s.Labels[ls[0]] = LabelRec{f(bytes.Clone(x.Raw)), x.Terminal}
			return true
		}
	}
	ops("label extended", edit(func(raw []byte) []byte { return append(raw, 0) }), false)
	for k := range 5 {
		ops("label cut", edit(func(raw []byte) []byte { return raw[:max(1, len(raw)*k/5)] }), false)
	}
}

// damagedValue has the log serve a value whose record was damaged.
func (w *World) damagedValue(e *E2E) {
	for _, l := range e.Labels {
		n := e.S.Vers[l]
		if n == 0 || w.Broken {
			continue
		}
		tx := e.S.Rec.Under
		raw, err := tx.GetVersion([]byte(l), uint32(n-1))
		if err != nil || len(raw) == 0 {
			continue
		}
		for _, alt := range [][]byte{append(bytes.Clone(raw), 0), raw[: len(raw)-1 : len(raw)-1], raw[:1:1]} {
			tx.PutVersion([]byte(l), uint32(n-1), alt)
			wire := w.Wire
			w.Wire = false
			if res, err := w.Ask(w.quiet(e.S), &structs.SearchRequest{Label: []byte(l)}, true); err == nil && !w.Broken {
				if f, ok := res.(*structs.SearchResponse); ok && f != nil {
					w.Never("value served from a damaged record")
				}
			}
			w.Wire = wire
		}
		tx.PutVersion([]byte(l), uint32(n-1), raw)
		return
	}
}

// ScenSweep: an honest log, but each place of each message is altered in turn.
func ScenSweep(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	w.Wire = w.Rng.Intn(2) == 0
	e := NewE2E(w, c, 2)
	e.auditLazily = w.Rng.Intn(2) == 0
	m := &Mutator{R: w.Rng}
	kinds := []string{"search", "monitor", "oinit", "monitor", "update", "fixed", "monitor"}
	for round := range 6 {
		for range 1 + e.R.Intn(3) {
			e.Grow(3)
		}
		e.Run(3)
		if w.Broken || e.H.Size() == 0 {
			continue
		}
		u := e.user()
		from := idx + 7*round
		if round%3 == 2 {
			w.corrupted(e, u, from)
			w.damagedValue(e)
		}
		kind, label := kinds[(idx+round)%len(kinds)], e.label()
		var ver *uint32
		switch kind {
		case "fixed":
			kind = "search"
			if e.S.Vers[label] == 0 {
				continue
			}
			v := uint32(e.R.Intn(e.S.Vers[label]))
			ver = &v
		case "update":
			for _, l := range sortedKeys(u.S.Labels) {
				label = l
			}
			e.sweep = func(req, res any) []any {
				var out []any
				n := uint64(e.H.Size())
				for _, a := range some(Alterations(m, res, []uint64{0, 1, n - 1, n}), 30, from) {
					w.Notes["update "+a.How]++
					out = append(out, a.Msg)
				}
				return out
			}
			req := &structs.UpdateRequest{Label: []byte(label)}
			if p := w.Request(u, "update", label, nil, nil); p != nil {
				req = p.Req.(*structs.UpdateRequest)
			}
			w.askAll(e, m, req, from)
			if c.Mode != 2 && !w.Broken {
				e.Update(u, label, []string{e.value()}[:e.R.Intn(2)])
			}
			e.sweep = nil
			continue
		}
		p := w.Request(u, kind, label, ver, nil)
		for _, v := range e.Users {
			if kind != "monitor" || p != nil || w.Broken {
				break
			}
			u = v
			w.Do(e.H, u, "search", e.label(), nil) // see the newest log entries
			p = w.Request(u, kind, label, ver, nil)
		}
		if p == nil || w.Broken {
			continue
		}
		w.askAll(e, m, p.Req, from)
		h := w.Open(e.S)
		if w.Broken || h == nil {
			return
		}
		res, err := w.Ask(h, p.Req, false)
		if err != nil {
			continue
		}
		m.Learn(res)
		var cl *User
		for _, a := range some(Alterations(m, res, []uint64{0, 1, uint64(e.H.Size()) - 1, uint64(e.H.Size())}), 50, from) {
			if w.Broken {
				return
			}
			w.Notes["response "+a.How]++
			if cl == nil {
				if cl = w.CloneUser(u); cl == nil {
					break
				}
			}
			if q := w.Request(cl, kind, label, ver, nil); q != nil && sameKindOf(q, p) {
				if w.Verify(q, a.Msg) == nil {
					cl = nil // went on
				}
			}
		}
		if !w.Broken && !unaudited(c, res) {
			if raw, err := structs.Marshal(res.(structs.Marshaller)); err == nil {
				w.decodeAll(p.Kind+" response", raw, func(raw []byte) (any, error) { return ParseRes(u.Cfg, p.Req, raw) }, from)
			}
		}
		if !w.Broken {
			if q := p.Again(); q != nil && sameKindOf(q, p) {
				w.VerifyFrom(h.Name, q, res)
			}
		}
	}
}
