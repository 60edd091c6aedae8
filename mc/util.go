package main

// families flattens a list of families.
func families(in ...any) []Family {
	var out []Family
	for _, f := range in {
		switch f := f.(type) {
		case Family:
			out = append(out, f)
		case []Family:
			out = append(out, f...)
		}
	}
	return out
}
