module verif

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/lxdlam/vertex v0.0.0
)

require (
	github.com/golang/protobuf v1.4.0 // indirect
	github.com/pelletier/go-toml v1.8.0 // indirect
	github.com/satori/go.uuid v1.2.0 // indirect
	go.uber.org/atomic v1.6.0 // indirect
	go.uber.org/multierr v1.5.0 // indirect
	go.uber.org/zap v1.15.0 // indirect
	google.golang.org/protobuf v1.23.0 // indirect
)

replace github.com/lxdlam/vertex => /repo
