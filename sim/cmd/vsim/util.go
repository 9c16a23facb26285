package main

import "fmt"

func sprint(a any) string { return fmt.Sprint(a) }
