package render

import (
	"io"

	"gonum.org/v1/gonum/spatial/r3"
)

// VerifSetConcurrent selects the number of workers of an octree renderer, the
// way the package's own tests do.
func VerifSetConcurrent(r Renderer, workers int) {
	r.(*octree).concurrent = workers
}

// VerifReadSTL is the package's STL reader.
func VerifReadSTL(r io.Reader) ([]r3.Triangle, error) { return readBinarySTL(r) }

// VerifNormalMismatch is the advisory error of the STL reader.
var VerifNormalMismatch = errCalculatedNormalMismatch
