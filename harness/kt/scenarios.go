package kt

// Scenarios by name; each records one execution.
var Scenarios = map[string]func(w *World, idx int){
	"e2e":     ScenE2E,
	"tamper":  ScenTamper,
	"evil":    ScenEvil,
	"store":   ScenStore,
	"backend": ScenBackend,
	"crash":   ScenCrash,
	"real":    ScenReal,
	"faults":  ScenFaults,
	"managed": ScenManaged,
	"audit":   ScenAudit,
	"clock":   ScenClock,
	"plan":    ScenPlan,
	"sweep":   ScenSweep,
}
