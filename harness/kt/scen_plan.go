package kt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// PlanStep is a step of a behaviour of spec/KatieMC.tla, with its outcome.
type PlanStep struct {
	A, U, I string
	K, Dt   int
	Ver     []uint32
	Ok      []bool
	Mode    int
	Rmw     int
}

var loadPlans = sync.OnceValue(func() [][]PlanStep {
	f, err := os.Open(os.Getenv("KT_PLAN"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out [][]PlanStep
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var p []PlanStep
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			panic(err)
		}
		out = append(out, p)
	}
	return out
})

// ScenPlan carries out behaviours of the specification and compares outcomes.
// (The recorded trace is then checked in all detail.)
func ScenPlan(w *World, idx int) {
	plans := loadPlans()
	if idx >= len(plans) {
		return
	}
	steps := plans[idx]
	c := Conf{Mode: steps[0].Mode, Sk: "log", Vk: "vrf", Lag: Never, Ahead: Never, Behind: Never, Rmw: uint64(steps[0].Rmw)}
	if c.Mode == 2 {
		c.Lk = "leaf"
	}
	s := w.NewStore(c, nil)
	h := map[string]*Handle{"x": w.Open(s), "y": w.Open(s)}
	users := map[string]*User{}
	user := func(n string) *User {
		if users[n] == nil {
			users[n] = w.NewUser(c)
		}
		return users[n]
	}
	add := func(k int) []Add {
		l := "a"
		if k == 0 {
			l, k = "b", 1
		}
		var out []Add
		for i := range k {
			ver := s.Vers[l] + i
			v := string([]byte{byte((ver + 16) >> 8), byte(ver + 16)})
			a := Add{Label: l, Value: v}
			if c.Mode == 2 {
				a = SignedAdd(c, l, v, ver)
			}
			out = append(out, a)
		}
		return out
	}
	for i, st := range steps {
		if w.Broken {
			return
		}
		var got []bool
		switch st.A {
		case "conf":
			continue
		case "mut":
			Sleep(st.Dt)
			if _, err := w.Mutate(h["x"], add(st.K), nil); err != nil {
				got = []bool{false}
			}
		case "open":
			if h["y"] = w.Open(s); h["y"] == nil {
				return
			}
		case "search", "oinit", "monitor":
			var ver *uint32
			if len(st.Ver) > 0 {
				ver = &st.Ver[0]
			}
			p := w.Request(user(st.U), st.A, "a", ver, nil)
			if p == nil {
				break
			}
			res, err := w.Ask(h[st.I], p.Req, false)
			if err != nil {
				got = []bool{false}
				break
			}
			got = []bool{true, w.VerifyFrom(h[st.I].Name, p, res) == nil}
		case "update":
			got = []bool{w.planUpdate(s, h["x"], user(st.U), st, add)}
		default:
			panic("step " + st.A)
		}
		if !w.Broken && fmt.Sprint(got) != fmt.Sprint(st.Ok) {
			w.Never(fmt.Sprintf("step %d (%s): outcome %v, according to the specification %v", i+1, st.A, got, st.Ok))
		}
	}
}

func (w *World) planUpdate(s *Store, h *Handle, u *User, st PlanStep, add func(int) []Add) bool {
	var vals []string
	if st.K > 0 {
		for _, a := range add(st.K) {
			vals = append(vals, a.Value)
		}
	}
	p := w.Request(u, "update", "a", nil, vals)
	if p == nil {
		return false
	}
	g := w.Open(s)
	if g == nil {
		return false
	}
	str := w.StartUpdate(g, p.Req.(*structs.UpdateRequest))
	if str == nil {
		return false
	}
	defer str.Close()
	for {
		res, more := w.Next(str, func(r transparency.UpdateRequest) (uint64, bool) {
			Sleep(st.Dt)
			if _, err := w.Mutate(h, add(st.K), nil); err != nil {
				return 0, false
			}
			return uint64(h.Size() - 1), true
		})
		if !more {
			return !str.Failed()
		}
		if w.VerifyFrom(str.Name, p, res) != nil {
			return false
		}
	}
}
