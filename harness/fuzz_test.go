package harness

import (
	"math/rand"
	"os"
	"strconv"
	"testing"

	"pgregory.net/rapid"
)

// fuzzData is the input of a coverage-guided run, it takes the place of the random source
var fuzzData []byte
var fuzzing bool

// FuzzAny runs the check VERIF_FUZZ on coverage-guided inputs: the generators
// and the oracles are those of the random runs.
func FuzzAny(f *testing.F) {
	test, ok := tests[os.Getenv("VERIF_FUZZ")]
	if !ok {
		f.Skip("set VERIF_FUZZ to the name of a check")
	}
	fuzzing = true
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 60; i++ { // short inputs are rejected, most cases need some hundred bytes
		data := make([]byte, 256<<(i%7))
		r.Read(data)
		f.Add(data)
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		fuzzData = data
		test(t)
	})
}

// fuzzOnce runs prop on fuzzData
func fuzzOnce(t *testing.T, prop func(*rapid.T)) {
	rapid.MakeFuzz(prop)(t, fuzzData)
}
