package lpg

import "testing"

func TestVerifC04(t *testing.T) {
	vgraphHunt(t, "C04", "labels", 4000, 60, true, (*mWorld).checkC04)
}
