package gen

import (
	"io"

	"verif/eng"
)

// Chunks is an io.Reader which delivers data in the given pieces.
type Chunks struct {
	Data     []byte
	Cuts     []int  // sizes of the successive reads (0: an empty read)
	Rest     int    // size of the reads after Cuts (0: as much as possible)
	EOFWith  bool   // the last data comes together with the error
	Err      error  // final error (io.EOF when nil)
	Then     []byte // comes after Err has been reported once (Err is not final)
	i        int
	Consumed int
	Reads    int
	After    int // reads after the final error has been reported
	done     bool
}

// Read implements io.Reader.
func (c *Chunks) Read(p []byte) (int, error) {
	c.Reads++
	end := c.Err
	if end == nil {
		end = io.EOF
	}
	if c.done {
		c.After++
	}
	if len(c.Data) == 0 {
		c.recover()
		return 0, end
	}
	n := c.Rest
	if c.i < len(c.Cuts) {
		n = c.Cuts[c.i]
		c.i++
		if n == 0 {
			return 0, nil
		}
	}
	if n == 0 || n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.Data)
	c.Data = c.Data[n:]
	c.Consumed += n
	if len(c.Data) == 0 && c.EOFWith {
		c.recover()
		return n, end
	}
	return n, nil
}

func (c *Chunks) recover() {
	c.done = true
	if len(c.Then) > 0 {
		c.Data, c.Then, c.Err = c.Then, nil, nil
	}
}

// Chunked draws a chunking of data.
func Chunked(t *eng.T, data []byte) *Chunks {
	c := &Chunks{Data: data}
	switch t.W(3, 5, 2, 3, 2) {
	case 0:
		c.Rest = 1
	case 1: // random small pieces
		left := len(data)
		for left > 0 && len(c.Cuts) < 400 {
			n := t.Range(0, 7)
			if t.P(1, 6) {
				n = t.Range(1, 64)
			}
			c.Cuts = append(c.Cuts, n)
			left -= n
		}
		c.Rest = t.Range(1, 40)
	case 2:
		c.Rest = 0
	case 3: // one cut
		k := t.Range(0, len(data))
		c.Cuts = append(c.Cuts, k)
		if k == 0 {
			c.Cuts = nil
		}
	default: // fixed size
		c.Rest = 1 + t.Size(600)
	}
	c.EOFWith = t.Bool()
	return c
}
