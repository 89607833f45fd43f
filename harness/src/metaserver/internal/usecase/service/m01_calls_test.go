package service

import "testing"

// The service's operations on versions, applied directly, through the log, and with failures: what reaches the
// store is what was asked, and what is read is what is stored.
func TestVerifM01Calls(t *testing.T) {
	vWrites(t, vN(1500), map[string]bool{"add-version": true, "migrate-version": true, "remove-version": true, "remove-versions": true})
}

func TestVerifM01Reads(t *testing.T) { vReads(t, vN(1500)) }
