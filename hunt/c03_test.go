package lpg

import "testing"

func TestVerifC03(t *testing.T) {
	vgraphHunt(t, "C03", "structure", 1500, 60, false, (*mWorld).checkC03)
}
