package data

// verifRec: the fields of a record, its bytes as strings.
type verifRec struct {
	StartTime, EndTime, Observations int64
	Distribution, Kind               string
	Min, Max                         float64
	MinId, MaxId                     string
	Merged                           int64
}
