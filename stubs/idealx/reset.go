package idealx

import "io"

// Reset starts over with another destination.
func (c *Comp) Restart(dst io.Writer) { *c = Comp{spec: c.spec, dst: dst} }

// Restart starts over with another source.
func (d *Decomp) Restart(src io.Reader) error {
	*d = Decomp{spec: d.spec, src: src, Limit: d.Limit, LimitErr: d.LimitErr}
	if d.spec.EagerOpen {
		return d.header()
	}
	return nil
}

// Stop makes every further read fail.
func (d *Decomp) Stop(err error) { d.buf, d.errv = nil, err }
