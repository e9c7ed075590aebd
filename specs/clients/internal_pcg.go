package pcg

// verifZero: the zero generator against New(0, 0).
func verifZero() (a, b uint32, p, q PCG) {
	q = New(0, 0)
	a = p.Uint32()
	b = q.Uint32()
	return a, b, p, q
}
