module verif

go 1.24

require (
	github.com/axgrid/axutils v0.0.0
	github.com/go-errors/errors v1.5.1
	github.com/rs/zerolog v1.33.0
)

require (
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.19 // indirect
	golang.org/x/sys v0.12.0 // indirect
)

replace github.com/axgrid/axutils => /repo
