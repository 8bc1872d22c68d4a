package lpg

import "testing"

func TestVerifC05(t *testing.T) {
	vgraphHunt(t, "C05", "props", 4000, 60, false, (*mWorld).checkC05)
}
