package kt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// DeepCopy copies everything but prefix search results, which are immutable.
func DeepCopy[T any](x T) T { return deepCopy(reflect.ValueOf(x)).Interface().(T) }

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type().Elem())
		out.Elem().Set(deepCopy(v.Elem()))
		return out
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		out.Set(v)
		for i := range v.NumField() {
			if out.Field(i).CanSet() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := range v.Len() {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
		return out
	}
	return v
}

// Mutator alters messages. Pool holds hashes that occur in the system, Keys
// VRF outputs with their commitments.
type Mutator struct {
	R      *rand.Rand
	Pool   [][]byte
	Leaves []prefix.Entry
	Donors []any // messages to take parts from
}

// site is a place in a message that can be altered.
type site struct {
	path string
	v    reflect.Value
	name string // name of the field it is part of
}

func sites(v reflect.Value, path, name string, out *[]site) {
	switch v.Kind() {
	case reflect.Pointer:
		*out = append(*out, site{path, v, name})
		if !v.IsNil() {
			sites(v.Elem(), path+"*", name, out)
		}
	case reflect.Interface:
		*out = append(*out, site{path, v, name})
	case reflect.Struct:
		for i := range v.NumField() {
			f := v.Type().Field(i)
			if f.IsExported() {
				sites(v.Field(i), path+"."+f.Name, f.Name, out)
			}
		}
	case reflect.Slice:
		*out = append(*out, site{path, v, name})
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := range v.Len() {
			sites(v.Index(i), fmt.Sprintf("%s[%d]", path, i), name, out)
		}
	default:
		*out = append(*out, site{path, v, name})
	}
}

func find(v reflect.Value, path string) (reflect.Value, bool) {
	var s []site
	sites(v, "", "", &s)
	for _, x := range s {
		if x.path == path {
			return x.v, true
		}
	}
	return reflect.Value{}, false
}

// Mutate returns an altered copy of a message (a pointer to a struct) and what
// was done.
func (m *Mutator) Mutate(msg any) (any, string) {
	out := deepCopy(reflect.ValueOf(msg))
	var all []site
	sites(out.Elem(), "", "", &all)
	if len(all) == 0 {
		return out.Interface(), "nothing"
	}
	// Every field is as likely as any other, however long it is.
	byName := map[string][]site{}
	var names []string
	for _, s := range all {
		if byName[s.name] == nil {
			names = append(names, s.name)
		}
		byName[s.name] = append(byName[s.name], s)
	}
	l := byName[names[m.R.Intn(len(names))]]
	s := l[m.R.Intn(len(l))]
	how := m.alter(s)
	return out.Interface(), s.path + " " + how
}

func (m *Mutator) hash() []byte {
	if len(m.Pool) == 0 || m.R.Intn(6) == 0 {
		b := make([]byte, 32)
		if m.R.Intn(2) == 0 {
			m.R.Read(b)
		}
		return b
	}
	return bytes.Clone(m.Pool[m.R.Intn(len(m.Pool))])
}

func (m *Mutator) alter(s site) string {
	r, v := m.R, s.v
	if len(m.Donors) > 0 && r.Intn(5) == 0 { // the same place of another message
		d := m.Donors[r.Intn(len(m.Donors))]
		if dv := reflect.ValueOf(d); dv.Kind() == reflect.Pointer && !dv.IsNil() {
			if x, ok := find(dv.Elem(), s.path); ok && x.Type() == v.Type() {
				v.Set(deepCopy(x))
				return "donor"
			}
		}
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
			switch e := v.Elem(); e.Kind() {
			case reflect.Uint32, reflect.Uint64:
				e.SetUint(uint64(r.Intn(4)))
			}
			return "new"
		}
		if e := v.Elem(); (e.Kind() == reflect.Uint32 || e.Kind() == reflect.Uint64) && r.Intn(2) == 0 {
			return m.number(e, s.name)
		}
		v.Set(reflect.Zero(v.Type()))
		return "nil"
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return m.number(v, s.name)
	case reflect.Interface:
		if v.Type() == reflect.TypeFor[prefix.PrefixSearchResult]() {
			v.Set(reflect.ValueOf(m.result(v.Interface())))
			return "result"
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return m.bytes(v, s.name)
		}
		return m.slice(v)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
	return "?"
}

func (m *Mutator) number(v reflect.Value, name string) string {
	x := v.Uint()
	switch k := m.R.Intn(5); {
	case k == 0 && name != "Timestamps" && name != "Timestamp":
		x = 0
	case k == 1 && name != "Timestamps" && name != "Timestamp":
		x = uint64(m.R.Intn(40))
	case k == 2:
		x += uint64(m.R.Intn(2000))
	case k == 3:
		x--
	default:
		x++
	}
	v.SetUint(x)
	return "number"
}

func (m *Mutator) bytes(v reflect.Value, name string) string {
	b := bytes.Clone(v.Bytes())
	set := func(b []byte) {
		if len(b) == 0 && name == "Commitment" {
			b = nil // there is no difference between absent and empty
		}
		v.SetBytes(b)
	}
	switch k := m.R.Intn(6); {
	case k == 0 && len(b) > 0:
		set(b[:m.R.Intn(len(b))])
		return "truncated"
	case k == 1:
		set(append(b, byte(m.R.Intn(256))))
		return "extended"
	case k == 2:
		if m.R.Intn(2) == 0 {
			set(nil)
		} else {
			set([]byte{})
		}
		return "emptied"
	case k == 3 || len(b) == 0:
		set(m.hash())
		return "hash"
	default:
		b[m.R.Intn(len(b))] ^= 1 << m.R.Intn(8)
		set(b)
		return "flipped"
	}
}

func (m *Mutator) slice(v reflect.Value) string {
	n := v.Len()
	switch k := m.R.Intn(6); {
	case k == 0 && n > 0: // remove
		i := m.R.Intn(n)
		v.Set(reflect.AppendSlice(v.Slice(0, i), v.Slice(i+1, n)))
		return "removed"
	case k == 1 && n > 0: // duplicate
		i := m.R.Intn(n)
		v.Set(reflect.Append(v, deepCopy(v.Index(i))))
		return "duplicated"
	case k == 2 && n > 1: // swap
		i, j := m.R.Intn(n), m.R.Intn(n)
		a, b := deepCopy(v.Index(i)), deepCopy(v.Index(j))
		v.Index(i).Set(b)
		v.Index(j).Set(a)
		return "swapped"
	case k == 3 && n > 0:
		v.Set(v.Slice(0, m.R.Intn(n)))
		return "cut"
	case k == 4 && n > 0:
		v.Set(reflect.Zero(v.Type()))
		return "cleared"
	}
	// Insert something.
	e := reflect.New(v.Type().Elem()).Elem()
	switch e.Interface().(type) {
	case []byte:
		e.SetBytes(m.hash())
	case uint64:
		e.SetUint(Base + uint64(m.R.Intn(100)))
		if n > 0 {
			e.SetUint(v.Index(m.R.Intn(n)).Uint())
		}
	case uint32:
		e.SetUint(uint64(m.R.Intn(8)))
	default:
		if e.Type() == reflect.TypeFor[prefix.PrefixSearchResult]() {
			e.Set(reflect.ValueOf(m.result(nil)))
		} else if n > 0 && m.R.Intn(2) == 0 {
			e.Set(deepCopy(v.Index(m.R.Intn(n))))
		}
	}
	i := m.R.Intn(n + 1)
	tail := deepCopy(v.Slice(i, n))
	v.Set(reflect.AppendSlice(reflect.Append(v.Slice(0, i), e), tail))
	return "inserted"
}

// EncodeResult encodes a prefix search result.
func EncodeResult(k int, leaf prefix.Entry, depth byte) []byte {
	if k == 2 {
		return append(append(append([]byte{2}, leaf.VrfOutput...), leaf.Commitment...), depth)
	}
	return []byte{byte(k), depth}
}

// DecodeResult decodes a prefix search result, or returns nil.
func DecodeResult(raw []byte) prefix.PrefixSearchResult {
	buf := &bytes.Buffer{}
	buf.WriteByte(1)
	buf.Write(raw)
	binary.Write(buf, binary.BigEndian, uint16(0))
	p, err := prefix.NewPrefixProof(NewSuite(), buf)
	if err != nil || len(p.Results) != 1 {
		return nil
	}
	return p.Results[0]
}

func (m *Mutator) result(old any) prefix.PrefixSearchResult {
	depth := byte(m.R.Intn(6))
	if o, ok := old.(prefix.PrefixSearchResult); ok && o != nil {
		depth = byte(o.Depth())
	}
	if m.R.Intn(3) == 0 {
		depth += []byte{1, 255, 2}[m.R.Intn(3)]
	}
	leaf := prefix.Entry{VrfOutput: m.hash(), Commitment: m.hash()}
	if len(leaf.VrfOutput) != 32 || len(leaf.Commitment) != 32 || (len(m.Leaves) > 0 && m.R.Intn(5) > 0) {
		leaf = prefix.Entry{VrfOutput: make([]byte, 32), Commitment: make([]byte, 32)}
		if len(m.Leaves) > 0 {
			leaf = m.Leaves[m.R.Intn(len(m.Leaves))]
		}
	}
	if x := DecodeResult(EncodeResult(1+m.R.Intn(3), leaf, depth)); x != nil {
		return x
	}
	return old.(prefix.PrefixSearchResult)
}

// Learn remembers the hashes in a message, and the message.
func (m *Mutator) Learn(msg any) {
	var all []site
	sites(reflect.ValueOf(msg).Elem(), "", "", &all)
	for _, s := range all {
		if s.v.Kind() == reflect.Slice && s.v.Type().Elem().Kind() == reflect.Uint8 && s.v.Len() == 32 {
			m.Pool = append(m.Pool, bytes.Clone(s.v.Bytes()))
		}
		if s.v.Kind() == reflect.Interface && !s.v.IsNil() {
			if r, ok := s.v.Interface().(prefix.PrefixSearchResult); ok {
				if j := jResult(r); j["lv"] != nil {
					buf := &bytes.Buffer{}
					r.Marshal(buf)
					raw := buf.Bytes()
					m.Leaves = append(m.Leaves, prefix.Entry{VrfOutput: bytes.Clone(raw[1:33]), Commitment: bytes.Clone(raw[33:65])})
				}
			}
		}
	}
	if len(m.Pool) > 300 {
		m.Pool = m.Pool[len(m.Pool)-300:]
	}
	m.Donors = append(m.Donors, DeepCopy2(msg))
	if len(m.Donors) > 12 {
		m.Donors = m.Donors[1:]
	}
}

// DeepCopy2 copies a message of any type.
func DeepCopy2(msg any) any { return deepCopy(reflect.ValueOf(msg)).Interface() }

// LearnVersion remembers the leaf for a version of a label.
func (m *Mutator) LearnVersion(c Conf, label string, ver int, opening []byte, val structs.UpdateValue) {
	com := CommitTo(opening, []byte(label), uint32(ver), val)
	m.Leaves = append(m.Leaves, prefix.Entry{VrfOutput: c.VrfOutput(label, uint32(ver)), Commitment: com})
}

// CommitTo returns the commitment to a version of a label.
func CommitTo(opening, label []byte, ver uint32, val structs.UpdateValue) []byte {
	raw, err := structs.Marshal(&structs.CommitmentValue{Label: label, Version: ver, Update: val})
	if err != nil {
		return make([]byte, 32)
	}
	return commitments.Commit(NewSuite(), opening, raw)
}
