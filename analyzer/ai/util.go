package ai

import "strconv"

func strconvG(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }
