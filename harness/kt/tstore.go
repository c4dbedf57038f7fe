package kt

import (
	"bytes"
	"errors"
	"fmt"
	"maps"

	"github.com/Bren2010/katie/db"
)

// MapStore is a db.TransparencyStore over maps that can be copied, which is how
// a log that presents several contents to different users comes about. Writes
// are visible at once to this store, and to others only after Commit.
type MapStore struct {
	base  map[string][]byte
	batch map[string][]byte
}

func NewMapStore() *MapStore {
	return &MapStore{make(map[string][]byte), make(map[string][]byte)}
}

// Fork returns an independent copy of what has been committed.
func (m *MapStore) Fork() *MapStore { return &MapStore{maps.Clone(m.base), make(map[string][]byte)} }

// Clone implements db.TransparencyStore.
func (m *MapStore) Clone() db.TransparencyStore {
	return &MapStore{m.base, make(map[string][]byte)}
}

// Discard drops pending writes, as a restart does.
func (m *MapStore) Discard() { m.batch = make(map[string][]byte) }

func (m *MapStore) get(k string) []byte {
	if v, ok := m.batch[k]; ok {
		return bytes.Clone(v)
	}
	return bytes.Clone(m.base[k])
}
func (m *MapStore) put(k string, v []byte) error {
	if v == nil {
		return errors.New("nil value")
	}
	m.batch[k] = append([]byte{}, v...)
	return nil
}
func (m *MapStore) del(k string) error { m.batch[k] = nil; return nil }

func (m *MapStore) GetTreeHead() ([]byte, []byte, error) { return m.get("head"), m.get("ahead"), nil }
func (m *MapStore) PutTreeHead(raw []byte) error         { return m.put("head", raw) }
func (m *MapStore) PutAuditorTreeHead(raw []byte) error  { return m.put("ahead", raw) }
func (m *MapStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	out := make([][]byte, len(labels))
	for i, l := range labels {
		out[i] = m.get(fmt.Sprintf("i%x", l))
	}
	return out, nil
}
func (m *MapStore) PutIndex(l, d []byte) error { return m.put(fmt.Sprintf("i%x", l), d) }
func (m *MapStore) DeleteIndex(l []byte) error { return m.del(fmt.Sprintf("i%x", l)) }
func (m *MapStore) GetVersion(l []byte, v uint32) ([]byte, error) {
	return m.get(fmt.Sprintf("v%x:%d", l, v)), nil
}
func (m *MapStore) PutVersion(l []byte, v uint32, d []byte) error {
	return m.put(fmt.Sprintf("v%x:%d", l, v), d)
}
func (m *MapStore) DeleteVersion(l []byte, v uint32) error {
	return m.del(fmt.Sprintf("v%x:%d", l, v))
}
func (m *MapStore) BatchGet(keys []uint64) (map[uint64][]byte, error) { return m.bget("t", keys) }
func (m *MapStore) bget(p string, keys []uint64) (map[uint64][]byte, error) {
	out := make(map[uint64][]byte)
	for _, k := range keys {
		if v := m.get(fmt.Sprintf("%s%d", p, k)); v != nil {
			out[k] = v
		}
	}
	return out, nil
}
func (m *MapStore) Put(k uint64, d []byte) error { return m.put(fmt.Sprintf("t%d", k), d) }
func (m *MapStore) Delete(k uint64) error        { return m.del(fmt.Sprintf("t%d", k)) }
func (m *MapStore) LogStore() db.LogStore        { return mapLog{m} }
func (m *MapStore) PrefixStore() db.PrefixStore  { return mapPrefix{m} }
func (m *MapStore) Commit() error {
	for k, v := range m.batch {
		if v == nil {
			delete(m.base, k)
		} else {
			m.base[k] = v
		}
	}
	m.batch = make(map[string][]byte)
	return nil
}

type mapLog struct{ m *MapStore }

func (l mapLog) BatchGet(keys []uint64) (map[uint64][]byte, error) { return l.m.bget("l", keys) }
func (l mapLog) Put(k uint64, d []byte) error                      { return l.m.put(fmt.Sprintf("l%d", k), d) }
func (l mapLog) Delete(k uint64) error                             { return l.m.del(fmt.Sprintf("l%d", k)) }

type mapPrefix struct{ m *MapStore }

func (l mapPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	out := make(map[string][]byte)
	for _, k := range keys {
		if v := l.m.get("p" + k); v != nil {
			out[k] = v
		}
	}
	return out, nil
}
func (l mapPrefix) Put(k string, d []byte) error { return l.m.put("p"+k, d) }
func (l mapPrefix) Delete(k string) error        { return l.m.del("p" + k) }

// Put is a recorded write of a label version.
type VersionPut struct {
	Label []byte
	Ver   uint32
	Data  []byte
}

// RecStore records the label versions written to the store below it, and
// injects faults.
type RecStore struct {
	Under db.TransparencyStore
	Puts  []VersionPut
	Fail  func(op string) error
	Calls int
}

func NewRecStore(under db.TransparencyStore) *RecStore { return &RecStore{Under: under} }

func (r *RecStore) fail(op string) error {
	r.Calls++
	if r.Fail != nil {
		return r.Fail(op)
	}
	return nil
}

func (r *RecStore) Clone() db.TransparencyStore { return &RecStore{Under: r.Under.Clone()} }
func (r *RecStore) GetTreeHead() ([]byte, []byte, error) {
	if err := r.fail("GetTreeHead"); err != nil {
		return nil, nil, err
	}
	return r.Under.GetTreeHead()
}
func (r *RecStore) PutTreeHead(raw []byte) error {
	if err := r.fail("PutTreeHead"); err != nil {
		return err
	}
	return r.Under.PutTreeHead(raw)
}
func (r *RecStore) PutAuditorTreeHead(raw []byte) error {
	if err := r.fail("PutAuditorTreeHead"); err != nil {
		return err
	}
	return r.Under.PutAuditorTreeHead(raw)
}
func (r *RecStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	if err := r.fail("BatchGetIndex"); err != nil {
		return nil, err
	}
	return r.Under.BatchGetIndex(labels)
}
func (r *RecStore) PutIndex(l, d []byte) error {
	if err := r.fail("PutIndex"); err != nil {
		return err
	}
	return r.Under.PutIndex(l, d)
}
func (r *RecStore) DeleteIndex(l []byte) error {
	if err := r.fail("DeleteIndex"); err != nil {
		return err
	}
	return r.Under.DeleteIndex(l)
}
func (r *RecStore) GetVersion(l []byte, v uint32) ([]byte, error) {
	if err := r.fail("GetVersion"); err != nil {
		return nil, err
	}
	return r.Under.GetVersion(l, v)
}
func (r *RecStore) PutVersion(l []byte, v uint32, d []byte) error {
	if err := r.fail("PutVersion"); err != nil {
		return err
	}
	r.Puts = append(r.Puts, VersionPut{bytes.Clone(l), v, bytes.Clone(d)})
	return r.Under.PutVersion(l, v, d)
}
func (r *RecStore) DeleteVersion(l []byte, v uint32) error {
	if err := r.fail("DeleteVersion"); err != nil {
		return err
	}
	return r.Under.DeleteVersion(l, v)
}
func (r *RecStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := r.fail("BatchGet"); err != nil {
		return nil, err
	}
	return r.Under.BatchGet(keys)
}
func (r *RecStore) Put(k uint64, d []byte) error {
	if err := r.fail("Put"); err != nil {
		return err
	}
	return r.Under.Put(k, d)
}
func (r *RecStore) Delete(k uint64) error {
	if err := r.fail("Delete"); err != nil {
		return err
	}
	return r.Under.Delete(k)
}
func (r *RecStore) LogStore() db.LogStore       { return recLog{r, r.Under.LogStore()} }
func (r *RecStore) PrefixStore() db.PrefixStore { return recPrefix{r, r.Under.PrefixStore()} }
func (r *RecStore) Commit() error {
	if err := r.fail("Commit"); err != nil {
		return err
	}
	return r.Under.Commit()
}

type recLog struct {
	r *RecStore
	u db.LogStore
}

func (l recLog) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := l.r.fail("log.BatchGet"); err != nil {
		return nil, err
	}
	return l.u.BatchGet(keys)
}
func (l recLog) Put(k uint64, d []byte) error {
	if err := l.r.fail("log.Put"); err != nil {
		return err
	}
	return l.u.Put(k, d)
}
func (l recLog) Delete(k uint64) error { return l.u.Delete(k) }

type recPrefix struct {
	r *RecStore
	u db.PrefixStore
}

func (l recPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	if err := l.r.fail("prefix.BatchGet"); err != nil {
		return nil, err
	}
	return l.u.BatchGet(keys)
}
func (l recPrefix) Put(k string, d []byte) error {
	if err := l.r.fail("prefix.Put"); err != nil {
		return err
	}
	return l.u.Put(k, d)
}
func (l recPrefix) Delete(k string) error { return l.u.Delete(k) }
