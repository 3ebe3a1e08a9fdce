package main

import (
	"fmt"

	"verif/drive"
)

func init() {
	const rule = "every execution is one complete schedule of a scenario on the real code: all choices of operations, threads at blocking points, select cases, map orders and timer orders, up to the stated bound on preemptions; executions that reach a state already explored are cut short; histories are checked against the sequential specification"
	for _, i := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 39} {
		drive.Props[fmt.Sprintf("C%02d", i)] = drive.Prop{Level: "model_checking", Rule: rule}
	}
}
