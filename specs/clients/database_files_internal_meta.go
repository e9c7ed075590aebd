package meta

// verifRoundTrip: what Unmarshal reads from what Marshal wrote.
func verifRoundTrip(m, out *Metadata) (err error) {
	buf, err := m.Marshal()
	if err != nil {
		return err
	}
	out.Reset()
	return out.Unmarshal(buf)
}
