//go:build !verifshim

package main

const haveShim = false
