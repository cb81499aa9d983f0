package ed25519

import "github.com/consensys/gnark/frontend"

// VerifCurve gives the harness the curve that Verify computes with.
func VerifCurve(api frontend.API) (Curve, error) { return newEdCurve(api) }
