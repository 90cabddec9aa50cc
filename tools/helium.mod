module github.com/lestrrat-go/helium

go 1.12

require (
	github.com/davecgh/go-spew v1.1.0
	github.com/jessevdk/go-flags v0.0.0-20161024052657-a44368c298f0
	github.com/lestrrat-go/pdebug v0.0.0-20160817063333-2e6eaaa5717f
	github.com/lestrrat-go/strcursor v0.0.0-20160229112842-cbe932022364
	github.com/pkg/errors v0.8.1
	github.com/stretchr/testify v1.3.0
	golang.org/x/text v0.0.0-20161027091323-a8b38433e35b
)
