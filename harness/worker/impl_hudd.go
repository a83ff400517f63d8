//go:build !buddy

package main

const implName = "hudd"
