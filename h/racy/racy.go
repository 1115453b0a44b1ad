// Package racy holds memory accesses that the race detection sees, for
// environment packages that are not safe for concurrent use.
package racy

// Touch reads and writes *p without synchronisation.
func Touch(p *int) { *p++ }
