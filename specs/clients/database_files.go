package files

import (
	"context"

	"github.com/vivint/rothko/database/files/internal/meta"
)

// verifRoundTrip: what parse reads from what Marshal wrote.
func verifRoundTrip(r record, buf []byte) (out record, err error) {
	return parse(r.Marshal(buf))
}

// verifMetadata: what Metadata reads from what SetMetadata stored.
func verifMetadata(f file, ctx context.Context, m meta.Metadata) (out meta.Metadata, err error) {
	if err := f.SetMetadata(ctx, m); err != nil {
		return out, err
	}
	return f.Metadata(ctx)
}
