package kt

// ScenReal runs honest and altered exchanges on the suites that are provided,
// rather than on the ideal one.
func ScenReal(w *World, idx int) {
	c := RandConf(w.Rng, 1+idx%3)
	labels := []string{"a", "bob", ""}[:2+w.Rng.Intn(2)]
	c = c.Real(w.Rng, []string{"ed", "p256"}[w.Rng.Intn(2)], labels, 9)
	var in []string
	for _, l := range labels {
		for k := range 2 {
			in = append(in, Hex(vrfInput(l, uint32(8*k*w.Rng.Intn(2)+w.Rng.Intn(1+7*(1-k))))))
		}
	}
	w.Rec("conf", M{"C": c.J(), "in": in})
	w.Wire = w.Rng.Intn(2) == 0
	e := NewE2E(w, c, 1+w.Rng.Intn(2))
	e.Labels = labels
	e.auditLazily = w.Rng.Intn(2) == 0
	m := &Mutator{R: w.Rng}
	e.Run(12)
	for i := 0; i < 4 && !w.Broken; i++ {
		u := e.user()
		switch w.Rng.Intn(4) {
		case 0:
			e.DoTampered(m, e.H, u, "monitor", "", nil, 2)
		case 1:
			e.DoTampered(m, e.H, u, "oinit", e.label(), nil, 2)
		default:
			l, v := e.searchTarget()
			e.DoTampered(m, e.H, u, "search", l, v, 3)
		}
	}
	e.Run(6)
}
