//go:build go1.21

package cli

// Main is the entry point of the command
func Main() { main() }
