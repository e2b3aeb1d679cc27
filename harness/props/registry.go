// Package props holds one harness per property.
package props

// Registry maps the property id to its harness.
var Registry = map[string]func(){}
