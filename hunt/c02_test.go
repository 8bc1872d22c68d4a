package lpg

import "testing"

func TestVerifC02(t *testing.T) {
	vgraphHunt(t, "C02", "structure", 6000, 60, false, (*mWorld).checkC02)
}
