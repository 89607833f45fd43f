package service

import "testing"

// The service's operations on object records and version updates, applied directly, through the log, and with failures.
func TestVerifM02Calls(t *testing.T) {
	vWrites(t, vN(1500), map[string]bool{"add-object": true, "update-object": true, "remove-object": true, "update-version": true})
}

func TestVerifM02Reads(t *testing.T) { vReads(t, vN(1500)) }
