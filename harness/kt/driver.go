package kt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// RunDriver runs the scenario KT_SCEN from seed KT_SEED with index KT_FROM to
// KT_TO, and writes the recorded traces to KT_OUT, one per line.
func RunDriver(t *testing.T, scenarios map[string]func(w *World, idx int)) {
	scen := os.Getenv("KT_SCEN")
	f, ok := scenarios[scen]
	if !ok {
		t.Skip("no scenario")
	}
	seed, _ := strconv.ParseInt(os.Getenv("KT_SEED"), 10, 64)
	from, _ := strconv.Atoi(os.Getenv("KT_FROM"))
	to, _ := strconv.Atoi(os.Getenv("KT_TO"))
	out, err := os.Create(os.Getenv("KT_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(out)
	notes := map[string]int{}
	hang, _ := strconv.Atoi(os.Getenv("KT_HANG"))
	var started atomic.Int64
	if hang > 0 {
		go func() { // outside of any bubble: real time
			for {
				time.Sleep(time.Second)
				if s := started.Load(); s != 0 && time.Now().Unix()-s > int64(hang) {
					buf := make([]byte, 1<<16)
					fmt.Fprintf(os.Stderr, "hangs: %s\n", buf[:runtime.Stack(buf, true)])
					os.Exit(3)
				}
			}
		}()
	}
	for i := from; i < to; i++ {
		id := fmt.Sprintf("%s-%d-%d", scen, seed, i)
		os.WriteFile(os.Getenv("KT_OUT")+".current", []byte(id), 0o644)
		started.Store(time.Now().Unix())
		synctest.Test(t, func(t *testing.T) {
			world := NewWorld(rand.New(rand.NewSource(seed*1000003 + int64(i))))
			if err := Try(func() error { f(world, i); return nil }); err != nil {
				world.Never("harness: " + err.Error())
				if pe, ok := err.(*PanicError); ok {
					fmt.Fprintln(os.Stderr, pe.Stack)
				}
			}
			for k, v := range world.Notes {
				notes[k] += v
			}
			raw, err := json.Marshal(M{"id": id, "ev": world.Ev})
			if err != nil {
				t.Fatal(err)
			}
			w.Write(raw)
			w.WriteByte('\n')
			w.Flush() // in case a later one crashes
		})
	}
	started.Store(0)
	if err := w.Flush(); err != nil {
		t.Fatal(err)
	}
	if os.Getenv("KT_NOTES") != "" {
		keys := []string{}
		for k := range notes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Println(notes[k], k)
		}
	}
}
