//go:build overlay
// +build overlay

package main

import "github.com/NVIDIA/vdisc/pkg/blockdev"

func init() { newHandler = blockdev.NewHandlerForVerification }
