package kt

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

///////////////////////////////////////////////////////////////////////////////
// Databases on disk

// Disk is a scratch directory with databases, removed when it is closed.
type Disk struct {
	root string
	n    int
	open []db.TransparencyStore
}

func NewDisk() *Disk {
	tmp := os.Getenv("KT_TMP")
	if tmp != "" {
		os.MkdirAll(tmp, 0o755)
	}
	root, err := os.MkdirTemp(tmp, "disk")
	if err != nil {
		panic(err)
	}
	return &Disk{root: root}
}

// Dir returns a new directory name.
func (d *Disk) Dir() string {
	d.n++
	return filepath.Join(d.root, fmt.Sprint(d.n))
}

// Open opens the database in the directory.
func (d *Disk) Open(dir string) (st db.TransparencyStore, err error) {
	Outside(func() { st, err = db.NewLDBTransparencyStore(dir) })
	if err == nil {
		d.open = append(d.open, st)
	}
	return st, err
}

// Close closes what can be closed (there is no function for it) and removes
// everything.
func (d *Disk) Close() {
	for _, s := range d.open {
		if c := findDB(reflect.ValueOf(s), 4); c != nil {
			Outside(func() { c.Close() })
		}
	}
	os.RemoveAll(d.root)
}

func findDB(v reflect.Value, depth int) *leveldb.DB {
	if depth == 0 || !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if v.Type() == reflect.TypeFor[*leveldb.DB]() {
			return (*leveldb.DB)(v.UnsafePointer())
		}
		return findDB(v.Elem(), depth)
	case reflect.Interface:
		return findDB(v.Elem(), depth)
	case reflect.Struct:
		for i := range v.NumField() {
			if c := findDB(v.Field(i), depth-1); c != nil {
				return c
			}
		}
	}
	return nil
}

var _ = unsafe.Pointer(nil)

// Journal returns the name and size of the database's journal.
func Journal(dir string) (string, int64) {
	es, _ := os.ReadDir(dir)
	var names []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".log") {
			names = append(names, e.Name())
		}
	}
	if len(names) == 0 {
		return "", 0
	}
	sort.Strings(names)
	n := names[len(names)-1]
	st, err := os.Stat(filepath.Join(dir, n))
	if err != nil {
		return "", 0
	}
	return n, st.Size()
}

// Stopped returns the name of the database's journal, and how much of it may be
// left if the machine stops: anything from what was synced to disk up.
func Stopped(dir string, r *rand.Rand) (string, int64) {
	n, size := Journal(dir)
	if n == "" {
		return "", 0
	}
	synced := min(storage.VerifSynced(filepath.Join(dir, n)), size)
	return n, synced + r.Int63n(size-synced+1)
}

// CopyDir copies the directory as it is; of the file named cut, only the first
// size bytes, and then zero bytes up to pad.
func CopyDir(from, to string, cut string, size, pad int64) error {
	// The database may be tidying up in the background: the copy has to be of
	// one moment.
	for try := 0; ; try++ {
		before := listing(from)
		err := copyDir(from, to, cut, size, pad)
		if err == nil && listing(from) == before {
			return nil
		} else if try == 100 {
			return fmt.Errorf("directory keeps changing: %v", err)
		}
		os.RemoveAll(to)
		Outside(func() { time.Sleep(3 * time.Millisecond) })
	}
}

func listing(dir string) string {
	es, _ := os.ReadDir(dir)
	out := ""
	for _, e := range es {
		if st, err := e.Info(); err == nil && e.Name() != "LOG" {
			out += fmt.Sprint(e.Name(), st.Size(), " ")
		}
	}
	return out
}

func copyDir(from, to string, cut string, size, pad int64) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range es {
		if e.Name() == "LOCK" {
			continue
		}
		in, err := os.Open(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		raw, err := io.ReadAll(in)
		in.Close()
		if err != nil {
			return err
		}
		if e.Name() == cut {
			raw = raw[:min(int64(len(raw)), size)]
			if n := pad - int64(len(raw)); n > 0 {
				raw = append(raw, make([]byte, n)...)
			}
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), raw, 0o644); err != nil {
			return err
		}
	}
	return nil
}

///////////////////////////////////////////////////////////////////////////////
// Stores on their own

type storeKey struct {
	t   byte // H, A, i, v, t, l, p
	lab string
	ver uint32
	num uint64
}

func (k storeKey) String() string {
	switch k.t {
	case 'i':
		return fmt.Sprintf("i %x", k.lab)
	case 'v':
		return fmt.Sprintf("v %x %d", k.lab, k.ver)
	case 't', 'l':
		return fmt.Sprintf("%c %d", k.t, k.num)
	case 'p':
		return fmt.Sprintf("p %x", k.lab)
	}
	return string(k.t)
}

func storePut(s db.TransparencyStore, k storeKey, v []byte) error {
	l := []byte(k.lab)
	switch k.t {
	case 'H':
		return s.PutTreeHead(v)
	case 'A':
		return s.PutAuditorTreeHead(v)
	case 'i':
		return s.PutIndex(l, v)
	case 'v':
		return s.PutVersion(l, k.ver, v)
	case 't':
		return s.Put(k.num, v)
	case 'l':
		return s.LogStore().Put(k.num, v)
	}
	return s.PrefixStore().Put(k.lab, v)
}

func storeDelete(s db.TransparencyStore, k storeKey) error {
	l := []byte(k.lab)
	switch k.t {
	case 'i':
		return s.DeleteIndex(l)
	case 'v':
		return s.DeleteVersion(l, k.ver)
	case 't':
		return s.Delete(k.num)
	case 'l':
		return s.LogStore().Delete(k.num)
	}
	return s.PrefixStore().Delete(k.lab)
}

func jValueO(v []byte) []string {
	if v == nil {
		return []string{}
	}
	return []string{Hex(v)}
}

// storeRead reads the given keys, many at once where possible. What is returned
// is altered afterwards, which must not affect the store.
func storeRead(s db.TransparencyStore, keys []storeKey) ([]M, error) {
	out := make([]M, len(keys))
	var nums [2][]uint64
	var strs []string
	var labs [][]byte
	for i, k := range keys {
		out[i] = M{"k": k.String()}
		switch k.t {
		case 'i':
			labs = append(labs, []byte(k.lab))
		case 't':
			nums[0] = append(nums[0], k.num)
		case 'l':
			nums[1] = append(nums[1], k.num)
		case 'p':
			strs = append(strs, k.lab)
		}
	}
	h, a, err := s.GetTreeHead()
	if err != nil {
		return nil, err
	}
	idx, err := s.BatchGetIndex(labs)
	if err != nil {
		return nil, err
	} else if len(idx) != len(labs) {
		return nil, fmt.Errorf("%d results for %d labels", len(idx), len(labs))
	}
	ts, err := s.BatchGet(nums[0])
	if err != nil {
		return nil, err
	}
	ls, err := s.LogStore().BatchGet(nums[1])
	if err != nil {
		return nil, err
	}
	ps, err := s.PrefixStore().BatchGet(strs)
	if err != nil {
		return nil, err
	}
	n := 0
	present := func(v []byte, ok bool) []byte {
		if ok && v == nil {
			return []byte{}
		}
		return v
	}
	var all [][]byte
	for i, k := range keys {
		var v []byte
		switch k.t {
		case 'H':
			v = h
		case 'A':
			if v = a; h == nil {
				v = nil
			}
		case 'i':
			v = idx[n]
			n++
		case 'v':
			if v, err = s.GetVersion([]byte(k.lab), k.ver); err != nil {
				return nil, err
			}
		case 't':
			x, ok := ts[k.num]
			v = present(x, ok)
		case 'l':
			x, ok := ls[k.num]
			v = present(x, ok)
		case 'p':
			x, ok := ps[k.lab]
			v = present(x, ok)
		}
		out[i]["v"] = jValueO(v)
		all = append(all, v)
	}
	for _, v := range all {
		for j := range v {
			v[j] ^= 0xff
		}
	}
	return out, nil
}

type storeScen struct {
	w    *World
	r    *rand.Rand
	keys []storeKey
	n    int
}

func (s *storeScen) key() storeKey { return s.keys[s.r.Intn(len(s.keys))] }

func (s *storeScen) write(h string, st db.TransparencyStore) bool {
	k := s.key()
	if s.r.Intn(6) == 0 {
		k = s.keys[s.r.Intn(2)]
	}
	ev := M{"h": h, "k": k.String(), "v": []string{}}
	if k.t != 'H' && k.t != 'A' && s.r.Intn(20) == 0 {
		err := Try(func() error { return storePut(st, k, nil) })
		if s.w.bad("store write", err) {
			return false
		}
		s.w.Rec("snil", M{"h": h, "k": k.String(), "ok": err == nil})
		return true
	}
	err := Try(func() error {
		if k.t != 'H' && k.t != 'A' && s.r.Intn(4) == 0 {
			return storeDelete(st, k)
		}
		v := make([]byte, []int{0, 1, 5, 40, 300}[s.r.Intn(5)])
		if s.r.Intn(3) == 0 && (k.t == 'H' || k.t == 'A') { // takes a block of its own
			v = make([]byte, 5000)
		}
		s.r.Read(v)
		if (k.t == 'H' || k.t == 'A') && len(v) == 0 {
			v = []byte{1}
		}
		ev["v"] = jValueO(v)
		err := storePut(st, k, v)
		for i := range v { // the store must not hold on to it
			v[i] ^= 0x55
		}
		return err
	})
	if s.w.bad("store write", err) {
		return false
	}
	ev["ok"] = err == nil
	s.w.Rec("swrite", ev)
	return true
}

func (s *storeScen) readAll(st db.TransparencyStore) []M {
	var rd []M
	err := Try(func() (err error) { rd, err = storeRead(st, s.keys); return err })
	if err != nil {
		if !s.w.bad("store read", err) {
			s.w.Never("store read: " + err.Error())
		}
		return nil
	}
	return rd
}
func (s *storeScen) read(h string, st db.TransparencyStore) {
	var ks []storeKey
	for range 1 + s.r.Intn(6) {
		ks = append(ks, s.key())
	}
	var rd []M
	err := Try(func() (err error) { rd, err = storeRead(st, ks); return err })
	if err != nil {
		if !s.w.bad("store read", err) {
			s.w.Never("store read: " + err.Error())
		}
		return
	}
	s.w.Rec("sread", M{"h": h, "rd": rd})
}

func (s *storeScen) draw() {
	labs := []string{"", "a", "b", "ab", "a:1", ":", "\x00", "i", "\xff", "a:", "tree-head", "1", "11", "alice"}
	vers := []uint32{0, 1, 2, 9, 10, 11, 16, 17, 26, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	nums := []uint64{0, 1, 2, 10, 11, 16, 100, 110, 1 << 32, 1<<32 + 1, 1<<64 - 1}
	pick := func(n int) int { return s.r.Intn(n) }
	s.keys = []storeKey{{t: 'H'}, {t: 'A'}}
	seen := map[string]bool{}
	for range 24 {
		k := storeKey{t: "iivvvtlp"[pick(8)], lab: labs[pick(len(labs))], ver: vers[pick(len(vers))], num: nums[pick(len(nums))]}
		if k.t == 'p' && pick(2) == 0 {
			k.lab = fmt.Sprintf("%x:%d", pick(4), pick(20))
		}
		if !seen[k.String()] {
			seen[k.String()] = true
			s.keys = append(s.keys, k)
		}
	}
	add := func(k storeKey) {
		if !seen[k.String()] {
			seen[k.String()] = true
			s.keys = append(s.keys, k)
		}
	}
	// Keys that would be the same if their parts were not kept apart.
	for range 3 {
		digits := make([]byte, 4+pick(5))
		for i := range digits {
			digits[i] = "0123456789"[pick(10)]
			if pick(4) == 0 {
				digits[i] = "abcdef"[pick(6)]
			}
		}
		if pick(2) == 0 {
			for i := range digits {
				digits[i] = digits[0]
			}
		}
		raw := pick(2) == 0
		base := []int{10, 16, 16}[pick(3)]
		for cut := 0; cut < len(digits); cut++ {
			ver, err := strconv.ParseUint(string(digits[cut:]), base, 32)
			if err != nil || cut < len(digits)-1 && digits[cut] == '0' {
				continue
			}
			lab := string(digits[:cut])
			if !raw {
				b, err := hex.DecodeString(lab)
				if err != nil {
					continue
				}
				lab = string(b)
			}
			add(storeKey{t: 'v', lab: lab, ver: uint32(ver)})
			add(storeKey{t: 'i', lab: lab})
		}
	}
	// Long labels and numbers that differ in one place.
	for range 2 {
		l := bytes.Repeat([]byte{"a\x00\xff"[pick(3)]}, 1+pick(255))
		k := storeKey{t: "iv"[pick(2)], lab: string(l)}
		add(k)
		switch pick(3) {
		case 0:
			l[pick(len(l))] ^= 1 << pick(8)
		case 1:
			l = append(l, 0)
		case 2:
			l = l[:len(l)-1]
		}
		k.lab = string(l)
		add(k)
		k = storeKey{t: "tl"[pick(2)], num: s.r.Uint64() >> pick(64)}
		add(k)
		k.num ^= 1 << pick(64)
		add(k)
		k = storeKey{t: 'v', lab: "a", ver: s.r.Uint32() >> pick(32)}
		add(k)
		k.ver ^= 1 << pick(32)
		add(k)
	}
	// Neighbours.
	for _, k := range s.keys[2:] {
		switch k.t {
		case 'v':
			k.ver = vers[pick(len(vers))]
		case 't':
			k.t = 'l'
		case 'l':
			k.t = 't'
		case 'i':
			k.t, k.ver = 'v', 0
		}
		add(k)
	}
}

// bulk writes many keys.
func (s *storeScen) bulk(h string, st db.TransparencyStore) bool {
	var ws []M
	err := Try(func() error {
		n := len(s.keys)
		for _, i := range s.r.Perm(n)[:1+s.r.Intn(n)] {
			k := s.keys[i]
			v := make([]byte, 1+s.r.Intn(60))
			s.r.Read(v)
			ws = append(ws, M{"k": k.String(), "v": jValueO(v)})
			if err := storePut(st, k, v); err != nil {
				return err
			}
		}
		return nil
	})
	if s.w.bad("store write", err) {
		return false
	}
	s.w.Rec("swrites", M{"h": h, "ws": ws, "ok": err == nil})
	s.w.Notes["bulk"]++
	return true
}

// readOne reads a single key, and nothing else.
func readOne(st db.TransparencyStore, k storeKey) (v []byte, err error) {
	switch k.t {
	case 'i':
		var out [][]byte
		if out, err = st.BatchGetIndex([][]byte{[]byte(k.lab)}); err == nil {
			v = out[0]
		}
	case 'v':
		v, err = st.GetVersion([]byte(k.lab), k.ver)
	case 't', 'l':
		var out map[uint64][]byte
		if k.t == 't' {
			out, err = st.BatchGet([]uint64{k.num})
		} else {
			out, err = st.LogStore().BatchGet([]uint64{k.num})
		}
		if x, ok := out[k.num]; ok {
			v = append([]byte{}, x...)
		}
	case 'p':
		var out map[string][]byte
		out, err = st.PrefixStore().BatchGet([]string{k.lab})
		if x, ok := out[k.lab]; ok {
			v = append([]byte{}, x...)
		}
	default:
		var h, a []byte
		if h, a, err = st.GetTreeHead(); err == nil {
			if v = h; k.t == 'A' {
				v = a
			}
		}
	}
	return v, err
}

// decay damages a copy of the database, as of now, and reads what it can.
func (s *storeScen) decay(disk *Disk, dir, y string, commits int) {
	w := s.w
	to := disk.Dir()
	if err := CopyDir(dir, to, "", 0, 0); err != nil {
		panic(err)
	}
	// Opening it moves the journal to a table.
	st, err := disk.Open(to)
	if err != nil {
		w.Never("store can not be opened after a crash: " + err.Error())
		return
	}
	if c := findDB(reflect.ValueOf(st), 4); c != nil {
		Outside(func() { c.Close() })
	}
	disk.open = disk.open[:len(disk.open)-1]
	kind := []string{"*.ldb", "*.ldb", "*.ldb", "MANIFEST-*"}[s.r.Intn(4)]
	names, _ := filepath.Glob(filepath.Join(to, kind))
	for _, n := range names {
		raw, err := os.ReadFile(n)
		if err != nil || len(raw) == 0 {
			continue
		}
		for range 1 + s.r.Intn(3) {
			raw[s.r.Intn(len(raw))] ^= byte(1 + s.r.Intn(255))
		}
		if err := os.WriteFile(n, raw, 0o644); err != nil {
			panic(err)
		}
	}
	st, err = disk.Open(to)
	if err != nil {
		w.Notes["decay:not opened"]++
		return
	}
	rd := []M{}
	for i, k := range s.keys {
		if i > 60 {
			break
		}
		var v []byte
		err := Try(func() (err error) { v, err = readOne(st, k); return err })
		if w.bad("store read", err) {
			return
		} else if err == nil {
			rd = append(rd, M{"k": k.String(), "v": jValueO(v)})
			w.Notes["decay:"+kind+":read"]++
		} else {
			w.Notes["decay:"+kind+":error"]++
		}
	}
	w.Rec("sdecay", M{"y": y, "n": commits, "rd": rd})
}

// ScenStore exercises a store on its own, and what is left of it after a crash.
func ScenStore(w *World, idx int) {
	s := &storeScen{w: w, r: w.Rng}
	s.draw()
	wide := idx%6 == 5
	if wide {
		for i := range 100 << s.r.Intn(4) {
			s.keys = append(s.keys, storeKey{t: "tlv"[i%3], lab: "wide", num: uint64(1000 + i), ver: uint32(1000 + i)})
		}
	}
	disk := NewDisk()
	defer disk.Close()
	onDisk := idx%4 != 3

	var st db.TransparencyStore
	var dir string
	open := func() bool {
		if !onDisk {
			st = memory.NewTransparencyStore()
			return true
		}
		dir = disk.Dir()
		var err error
		if st, err = disk.Open(dir); err != nil {
			w.Never("store can not be opened: " + err.Error())
			return false
		}
		return true
	}
	if !open() {
		return
	}
	y, h := w.name("y"), w.name("h")
	w.Rec("sopen", M{"y": y, "h": h})
	type clone struct {
		h  string
		st db.TransparencyStore
	}
	var clones []clone
	commits := 0
	journal := ""
	if onDisk {
		journal, _ = Journal(dir)
	}
	// crash: the database as found if everything stopped, with the journal
	// having got as far as cut.
	crash := func(cut, pad int64, lo, hi int, adopt bool) bool {
		to := disk.Dir()
		if err := CopyDir(dir, to, journal, cut, pad); err != nil {
			panic(err)
		}
		st2, err := disk.Open(to)
		if err != nil {
			w.Never("store can not be opened after a crash: " + err.Error())
			return false
		}
		rd := s.readAll(st2)
		if rd == nil {
			return false
		}
		y2, h2 := w.name("y"), w.name("h")
		w.Rec("scrash", M{"y": y, "to": y2, "h": h2, "lo": lo, "hi": hi, "rd": rd})
		w.Notes["crash"]++
		if adopt {
			st, y, h, dir, clones = st2, y2, h2, to, nil
			journal, _ = Journal(dir)
			commits = lo
		}
		return true
	}
	steps := 60
	if wide {
		steps = 14
	}
	for step := 0; step < steps && !w.Broken; step++ {
		switch k := s.r.Intn(20); {
		case k == 0 && onDisk && commits > 0:
			for range 3 {
				s.decay(disk, dir, y, commits)
			}
		case k < 7 && wide:
			if !onDisk {
				clones = nil
			}
			if !s.bulk(h, st) {
				return
			}
		case k < 9:
			if !onDisk {
				clones = nil // in memory, there is a single set of contents
			}
			s.write(h, st)
		case k < 12:
			s.read(h, st)
		case k < 14 && (onDisk || step > 0):
			if onDisk {
				c := clone{w.name("h"), nil}
				if err := Try(func() error { c.st = st.Clone(); return nil }); w.bad("clone", err) {
					return
				}
				clones = append(clones, c)
				w.Rec("sclone", M{"h": h, "to": c.h})
			}
		case k < 16 && len(clones) > 0:
			c := clones[s.r.Intn(len(clones))]
			s.read(c.h, c.st)
		case k < 18:
			var before int64
			if onDisk {
				_, before = Journal(dir)
			}
			err := Try(func() error { return st.Commit() })
			if w.bad("commit", err) {
				return
			}
			w.Rec("scommit", M{"h": h, "ok": err == nil})
			commits++
			if onDisk {
				n, after := Journal(dir)
				if n != journal {
					return
				}
				// Stopped somewhere in the middle of it.
				for range 2 {
					if cut := before + s.r.Int63n(after-before+1); cut < after {
						if !crash(cut, 0, commits-1, commits, false) {
							return
						}
					}
				}
			} else if s.r.Intn(2) == 0 {
				c := clone{w.name("h"), nil}
				if err := Try(func() error { c.st = st.Clone(); return nil }); w.bad("clone", err) {
					return
				}
				w.Rec("sclone", M{"h": h, "to": c.h})
				s.read(c.h, c.st)
			}
		case k < 19 && onDisk:
			// Stopped now, with writes pending.
			_, sz := Journal(dir)
			if !crash(sz, 0, commits, commits, s.r.Intn(3) == 0) {
				return
			}
		case onDisk:
			// The machine stopped: what was not synced may be lost.
			n, cut := Stopped(dir, s.r)
			if n != journal {
				continue
			}
			if !crash(cut, 0, commits, commits, false) {
				return
			}
		}
	}
	if !w.Broken {
		if rd := s.readAll(st); rd != nil {
			w.Rec("sread", M{"h": h, "rd": rd})
		}
	}
}

///////////////////////////////////////////////////////////////////////////////
// Logs on each store, and after a crash

// NewStoreOn makes a log's store on a backend: map, memory or disk.
func (w *World) NewStoreOn(c Conf, backend string, d *Disk) (*Store, string) {
	switch backend {
	case "memory":
		return w.NewStore(c, memory.NewTransparencyStore()), ""
	case "disk":
		dir := d.Dir()
		st, err := d.Open(dir)
		if err != nil {
			w.Never("store can not be opened: " + err.Error())
			return nil, ""
		}
		s := w.NewStore(c, st)
		return s, dir
	}
	return w.NewStore(c, nil), ""
}

// ScenBackend runs the generic scenario on the stores that are provided.
func ScenBackend(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	w.Wire = w.Rng.Intn(2) == 0
	d := NewDisk()
	defer d.Close()
	s, _ := w.NewStoreOn(c, []string{"disk", "memory"}[idx/3%2], d)
	if s == nil {
		return
	}
	e := NewE2EOn(w, c, 1+w.Rng.Intn(3), s)
	e.auditLazily = w.Rng.Intn(2) == 0
	e.allowRemove = w.Rng.Intn(3) == 0
	e.Run(40)
}

// ScenCrash runs a log whose process or machine stops at some point; the log
// that is opened on what is left must be as of a commit, and go on from there.
func ScenCrash(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	c.Life = 0
	d := NewDisk()
	defer d.Close()
	s, dir := w.NewStoreOn(c, "disk", d)
	if s == nil {
		return
	}
	w.Ev[len(w.Ev)-1]["keep"] = true
	e := NewE2EOn(w, c, 1+w.Rng.Intn(2), s)
	e.allowRemove = w.Rng.Intn(3) == 0
	for round := 0; round < 3 && !w.Broken; round++ {
		// It stops at some operation on the store, before it is carried out, or
		// in the middle of the writing of a commit.
		target, count := 1+w.Rng.Intn(60), 0
		torn := w.Rng.Intn(2) == 0
		to := ""
		lo, hi := 0, 0
		journal, before := "", int64(0)
		copyTo := func(cut string, size int64) {
			to = d.Dir()
			if err := CopyDir(dir, to, cut, size, 0); err != nil {
				panic(err)
			}
		}
		committing := false
		s.Rec.Fail = func(op string) error {
			count++
			if op == "Commit" {
				journal, before = Journal(dir)
			}
			if !torn && count >= target && to == "" {
				copyTo(Stopped(dir, w.Rng))
				lo, hi = s.Commits, s.Commits
				if committing {
					hi++
				}
			}
			if op == "Commit" {
				committing = true
			}
			return nil
		}
		for i := 0; i < 8 && to == "" && !w.Broken; i++ {
			c0 := s.Commits
			committing = false
			switch w.Rng.Intn(6) {
			case 0:
				e.Search(e.user())
			case 1:
				w.Do(e.H, e.user(), "monitor", "", nil)
			case 2:
				w.Do(e.H, e.user(), "oinit", e.label(), nil)
			default:
				e.alone()
				name, after := Journal(dir)
				if torn && s.Commits == c0+1 && name == journal && after > before && i > 2 {
					cut := before + w.Rng.Int63n(after-before+1)
					copyTo(name, cut)
					if lo, hi = c0, c0+1; cut == after {
						lo = hi
					}
					w.Notes["torn"]++
				}
			}
		}
		s.Rec.Fail = nil
		if w.Broken {
			return
		}
		if to == "" {
			copyTo(Stopped(dir, w.Rng))
			lo, hi = s.Commits, s.Commits
		}
		// What is left.
		st, err := d.Open(to)
		if err != nil {
			w.Never("store can not be opened after a crash: " + err.Error())
			return
		}
		s2 := &Store{Name: w.name("s"), Conf: c, Cfg: c.Private(), Rec: NewRecStore(st), Vers: map[string]int{}, VersAt: s.VersAt}
		th, ath, ok := w.rawHeads(s2)
		if !ok {
			return
		}
		w.Rec("crash", M{"s": s.Name, "to": s2.Name, "lo": lo, "hi": hi, "th": th, "ath": ath})
		h2 := w.Open(s2)
		if h2 == nil {
			return
		}
		for l, n := range s.VersAt[h2.Size()] {
			s2.Vers[l] = n
		}
		s2.Commits = lo
		if hi < len(s.Heads) && headsOf(s2) == s.Heads[hi] {
			s2.Commits = hi
		}
		s2.Heads = s.Heads[:min(len(s.Heads), s2.Commits+1)]
		// Users go on with it, except those that saw the commit that got lost.
		var us []*User
		for _, u := range e.Users {
			if e.userSize(u) <= h2.Size() {
				us = append(us, u)
			}
		}
		if len(us) == 0 {
			us = append(us, w.NewUser(c))
		}
		e.S, e.H, e.Users, e.old, e.A, e.pendingAud = s2, h2, us, nil, nil, nil
		s, dir = s2, to
		for i := 0; i < 8 && !w.Broken; i++ {
			u := e.user()
			switch w.Rng.Intn(5) {
			case 0, 1:
				e.Search(u)
			case 2:
				w.Do(e.H, u, "monitor", "", nil)
			case 3:
				w.Do(e.H, u, "oinit", e.label(), nil)
			default:
				e.alone()
			}
		}
	}
}

// alone adds a log entry and nothing else; in the beginning, the auditor's head.
func (e *E2E) alone() {
	if e.A != nil && len(e.pendingAud) > 0 && e.W.Rng.Intn(3) == 0 {
		e.AuditAll()
		return
	}
	e.noAudit = true
	e.Grow(3)
	e.noAudit = false
}

func (e *E2E) userSize(u *User) int {
	st, _, err := JClientState(u.Cfg, u.S)
	if err != nil || len(st) == 0 {
		return 0
	}
	th := st[0].(M)["th"].(M)
	return int(th["n"].(int64))
}

// rawHeads reads the tree heads in the store.
func (w *World) rawHeads(s *Store) (th, ath []any, ok bool) {
	th, ath = []any{}, []any{}
	var a, b []byte
	err := Try(func() (err error) { a, b, err = s.Rec.GetTreeHead(); return err })
	if err != nil {
		if !w.bad("store", err) {
			w.Never("store can not be read: " + err.Error())
		}
		return nil, nil, false
	}
	if a != nil {
		x, err := structs.NewTreeHead(bytes.NewBuffer(a))
		if err != nil {
			w.Never("stored tree head can not be decoded")
			return nil, nil, false
		}
		th = jTreeHead(x)
	}
	if b != nil {
		x, err := structs.NewAuditorTreeHead(bytes.NewBuffer(b))
		if err != nil {
			w.Never("stored auditor tree head can not be decoded")
			return nil, nil, false
		}
		ath = jAuditorHead(x)
	}
	return th, ath, true
}

func headsOf(s *Store) string {
	a, b, _ := s.Rec.Under.GetTreeHead()
	return fmt.Sprintf("%x %x", a, b)
}

func (s *Store) committed() {
	if s.Commits == 0 {
		s.Heads = []string{""}
	}
	s.Commits++
	s.Heads = append(s.Heads, headsOf(s))
}
