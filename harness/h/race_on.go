//go:build race

package h

const raceBuild = true
