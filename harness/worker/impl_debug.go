//go:build debug

package main

const debugBuild = true
