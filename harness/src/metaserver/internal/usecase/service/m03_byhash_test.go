package service

import "testing"

// Looking versions up by the digest of their content, over an index that may name versions that are gone.
func TestVerifM03ByHash(t *testing.T) { vByHash(t, vN(300)) }
