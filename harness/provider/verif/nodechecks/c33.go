//go:build go1.21

package nodechecks

import (
	"fmt"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

func init() { checks["c33"] = c33 }

// c33: the running node asks the register as often as its settings say.
func c33(t *vh.T, main func()) {
	often := t.Shard == 0
	every := "2h"
	if often {
		every = "300ms"
	}
	n := Start(t, main, "REGISTER_REFRESH_DURATION="+every)
	what := "the register to be read every " + every
	t.Case(func() string { return what })
	t.Eval()
	t.Distinct(what)
	start := time.Now()
	if often {
		for n.Reg.Pulls() < 5 && time.Since(start) < 15*time.Second {
			time.Sleep(20 * time.Millisecond)
			t.Beat()
		}
		if k := n.Reg.Pulls(); k < 5 {
			t.Violate("refresh:seldom", fmt.Sprintf("%s: it was read %d times in 15 s", what, k), what)
		}
		return
	}
	for time.Since(start) < 3*time.Second {
		time.Sleep(20 * time.Millisecond)
		t.Beat()
	}
	if k := n.Reg.Pulls(); k > 1 {
		t.Violate("refresh:often", fmt.Sprintf("%s: it was read %d times in 3 s", what, k), what)
	}
}
