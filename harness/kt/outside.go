package kt

// Databases have goroutines of their own, which must not belong to the bubble
// that a scenario runs in: they are opened and closed by a goroutine outside.

var (
	outReq  = make(chan func())
	outDone = make(chan any)
)

func init() {
	go func() {
		for f := range outReq {
			func() {
				defer func() { outDone <- recover() }()
				f()
			}()
		}
	}()
}

// Outside runs f outside of any bubble.
func Outside(f func()) {
	outReq <- f
	if p := <-outDone; p != nil {
		panic(p)
	}
}
