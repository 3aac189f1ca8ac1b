package props

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"
)

// Evidence describes what one run analysed.
func Evidence(pid, tier string, c *Ctx, viols []Violation, d time.Duration) map[string]interface{} {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var rules []string
	for r, n := range c.Rules {
		rules = append(rules, fmt.Sprintf("%s (%d)", r, n))
	}
	sort.Strings(rules)
	var vs []map[string]string
	for _, v := range viols {
		vs = append(vs, map[string]string{"where": v.Where, "function": v.Func, "problem": v.Msg})
	}
	files := 0
	if c.P != nil {
		files = c.P.Files
	}
	cov := map[string]interface{}{
		"explanation": fmt.Sprintf("Static analysis of /repo's current source (%d files loaded): abstract interpretation of the listed functions with all inputs unknown, partitioned by path, loops summarised by a fixpoint. Nothing is executed. Each rule is an obligation on every abstract path.", files),
		"obligations": c.Obl,
		"discharged":  c.Obl - min(c.Obl, len(viols)),
		"rules":       rules,
		"scenarios":   c.Scens,
		"functions":   c.FuncList(),
		"paths":       c.Paths,
		"loops":       c.Loops,
		"case_splits": c.Splits,
		"effects":     c.Effects,
	}
	if len(vs) > 0 {
		cov["violations"] = vs
	}
	return map[string]interface{}{
		"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": Assumptions, "wall_s": d.Seconds(), "violations": len(viols),
	}
}

// Assumptions shared by all checks.
var Assumptions = []string{
	"The summaries of standard-library functions in analyzer/ai/models.go describe their documented behaviour.",
	"Values handed in by the application (sinks, writers, functions) do not reach back into the library's private memory while a call is in progress.",
	"Integer arithmetic does not overflow; floating-point terms are compared structurally.",
}
