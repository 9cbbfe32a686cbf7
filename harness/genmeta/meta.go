// Package genmeta holds the validator that the schema generator command
// writes for the bundled meta-schema (run.sh adds it for C25).
package genmeta

import "github.com/lestrrat-go/jsval"

// Meta is that validator; nil when it has not been generated.
var Meta *jsval.JSVal
