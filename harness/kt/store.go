package kt

import (
	"bytes"
	"sort"
)

// ClientStore is an in-memory db.ClientStore with optional fault injection.
type ClientStore struct {
	State  []byte
	Labels map[string]LabelRec
	Puts   int
	Fail   func(op string) error
}

type LabelRec struct {
	Raw      []byte
	Terminal uint64
}

func NewClientStore() *ClientStore { return &ClientStore{Labels: make(map[string]LabelRec)} }

func (cs *ClientStore) Clone() *ClientStore {
	out := &ClientStore{State: bytes.Clone(cs.State), Labels: make(map[string]LabelRec)}
	for k, v := range cs.Labels {
		out.Labels[k] = LabelRec{bytes.Clone(v.Raw), v.Terminal}
	}
	return out
}

func (cs *ClientStore) fail(op string) error {
	if cs.Fail != nil {
		return cs.Fail(op)
	}
	return nil
}

func (cs *ClientStore) GetState() ([]byte, error) {
	if err := cs.fail("GetState"); err != nil {
		return nil, err
	}
	return bytes.Clone(cs.State), nil
}

func (cs *ClientStore) GetLabelState(label []byte) ([]byte, error) {
	if err := cs.fail("GetLabelState"); err != nil {
		return nil, err
	}
	return bytes.Clone(cs.Labels[string(label)].Raw), nil
}

// GetStaleLabel is deterministic: it returns the stale label with the smallest
// terminal, ties broken by label.
func (cs *ClientStore) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	if err := cs.fail("GetStaleLabel"); err != nil {
		return nil, nil, err
	}
	var keys []string
	for k, v := range cs.Labels {
		if v.Terminal <= cutoff {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return nil, nil, nil
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := cs.Labels[keys[i]], cs.Labels[keys[j]]
		if a.Terminal != b.Terminal {
			return a.Terminal < b.Terminal
		}
		return keys[i] < keys[j]
	})
	return []byte(keys[0]), bytes.Clone(cs.Labels[keys[0]].Raw), nil
}

func (cs *ClientStore) PutState(raw []byte) error {
	if err := cs.fail("PutState"); err != nil {
		return err
	}
	cs.Puts++
	cs.State = bytes.Clone(raw)
	return nil
}

func (cs *ClientStore) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	if err := cs.fail("PutLabelState"); err != nil {
		return err
	}
	cs.Puts++
	cs.State = bytes.Clone(raw)
	if rawLabel == nil {
		delete(cs.Labels, string(label))
	} else {
		cs.Labels[string(label)] = LabelRec{bytes.Clone(rawLabel), terminal}
	}
	return nil
}
