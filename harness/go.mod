module verif.local/harness

go 1.27.3

require (
	github.com/oov/downscale v0.0.0
	github.com/oov/psd v0.0.0
	golang.org/x/image v0.47.0
	golang.org/x/text v0.43.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/oov/psd => /repo

replace github.com/oov/downscale => ../stubs/downscale
