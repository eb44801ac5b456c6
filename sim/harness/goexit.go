package main

import "runtime"

func goexit() { runtime.Goexit() }
