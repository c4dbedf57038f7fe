package liar

import (
	"testing"

	"katieverif/kt"
)

func TestDriver(t *testing.T) { kt.RunDriver(t, Scenarios) }
