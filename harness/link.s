//go:build link

// lets link_on.go declare a function without a body
