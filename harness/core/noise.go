package core

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/params"
)

// sigma is the bootstrapping output noise (standard deviation of the phase, in
// torus units), calibrated on the unchanged tree as the largest RMS over several
// keys, random and constant tables. It is dominated by the truncation of the
// gadget decomposition. Only upper bounds are derived from it.
var sigma = map[Level]float64{
	80: 0.0115, 110: 0.0115, 128: 0.0112, 1: 0.0120, 2: 0.0062, 3: 0.0018, 4: 0.0016, 5: 0.0019, 6: 0.0020, 7: 0.0020, 8: 0.0020,
}

// Sigma is the calibrated bootstrapping noise of a level.
func Sigma(l Level) float64 { return sigma[l] }

// Tol bounds the phase error of one bootstrapping output (7.5 sigma).
func Tol(l Level) float64 { return 7.5 * sigma[l] }

// ModSwitch is 6.5 standard deviations of the rounding of an LWE sample to 2N slots
// at the current level, plus one slot.
func ModSwitch() float64 {
	n := float64(params.GetTLWELv0().N)
	N := float64(params.GetTRGSWLv1().N)
	return 6.5*math.Sqrt((n/2+1)/12)/(2*N) + 1/(2*N)
}
