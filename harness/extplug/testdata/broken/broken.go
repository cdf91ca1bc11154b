// Package broken does not compile.
package broken

var x = nowhere
