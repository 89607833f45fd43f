package repo

import "testing"

// Random sequences of calls on the real repositories (direct and batched, with their caches) over a real
// database file, compared with the rules after every call; the calls that break M03 are reported.
func TestVerifM03Sequences(t *testing.T) { vDriveMeta(t, "M03", vN(120)) }
