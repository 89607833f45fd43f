package repo

import "testing"

// Random sequences of calls on the real repositories (direct and batched, with their caches) over a real
// database file, compared with the rules after every call; the calls that break M02 are reported.
func TestVerifM02Sequences(t *testing.T) { vDriveMeta(t, "M02", vN(120)) }
