package spec

import "testing"

func TestLoads(t *testing.T) {
	n := 0
	for _, k := range Kinds {
		if k.XMLReq != nil {
			n++
		}
	}
	t.Log(len(Kinds), n)
}
