package harness

import (
	"testing"

	"katieverif/kt"
)

func TestDriver(t *testing.T) { kt.RunDriver(t, kt.Scenarios) }
