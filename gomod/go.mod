module github.com/gocraft/health

go 1.26.0

require (
	github.com/braintree/manners v0.0.0-20150503212558-0b5e6b2c2843
	github.com/buger/goterm v1.0.4
	github.com/gocraft/web v0.0.0
	github.com/spf13/cobra v1.10.2
	github.com/stretchr/testify v1.12.1
	golang.org/x/sys v0.49.0
)

require (
	github.com/spf13/pflag v1.0.9 // indirect
	go.yaml.in/yaml/v3 v3.0.5 // indirect
)

replace github.com/gocraft/web => /verif/stubs/web
