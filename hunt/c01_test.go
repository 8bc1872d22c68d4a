package lpg

import "testing"

func TestVerifC01(t *testing.T) {
	vgraphHunt(t, "C01", "structure", 6000, 60, false, (*mWorld).checkC01)
}
