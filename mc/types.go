package main

import "github.com/CAU-CPSS/logument/internal/tson"

type logSnapshot = tson.Tson

func getValue(t tson.Tson, path string) (tson.Value, error) { return tson.GetValue(t, path) }
