package net

import "context"

// VerifDialHook and VerifListenHook are added to the standard library's net
// package by the verification harness's build overlay (never by the code under
// test). When set, they may take over stream dialling and listening so that the
// unmodified program runs on an in-memory network.
var (
	VerifDialHook   func(ctx context.Context, network, address string) (Conn, error, bool)
	VerifListenHook func(ctx context.Context, network, address string) (Listener, error, bool)
)
