package main

import "verif/drive"

func init() {
	const rule = "every execution is one complete schedule of a scenario on the real code: all choices of operations, threads at blocking points, select cases and timer orders, up to the stated bound on preemptions (or on deviations from round robin); executions that reach a state already explored are cut short"
	for _, id := range []string{"C22", "C23", "C24", "C25", "C26", "C38"} {
		drive.Props[id] = drive.Prop{Level: "model_checking", Rule: rule}
	}
}
