package props

import (
	"testing"

	"vharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }
