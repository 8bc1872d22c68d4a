package lpg

import "testing"

func TestVerifC18(t *testing.T) {
	vgraphHunt(t, "C18", "structure", 1500, 50, false, (*mWorld).checkC18)
}
