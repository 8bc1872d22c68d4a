package lpg

import "testing"

func TestVerifC06(t *testing.T) {
	vgraphHunt(t, "C06", "props", 400, 50, false, (*mWorld).checkC06)
}
