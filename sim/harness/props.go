//go:build go1.21

package main

var workloads = map[string]*Workload{}

// propWork lists the workloads that decide a property.
var propWork = map[string][]string{}

func init() {
	workloads["runbook"] = &Workload{
		name: "runbook", gen: genRunbook,
		blank:  func() any { return &RBScenario{} },
		valid:  func(sc any) bool { return sc.(*RBScenario).valid() },
		stalls: func(sc any) bool { return sc.(*RBScenario).Stalls },
		body:   runRunbook, nontriv: rbNonTriv,
	}
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17", "C31"} {
		propWork[p] = []string{"runbook"}
	}
}

// rbNonTriv tells whether a run exercised what a property is about.
func rbNonTriv(s *Sim, prop string) bool {
	p := s.Probes
	switch prop {
	case "C01", "C02", "C05":
		return p["several tasks"] > 0
	case "C03", "C09":
		return p["concurrent"] > 0
	case "C06":
		return p["failure"] > 0 && p["several tasks"] > 0
	case "C07":
		return p["session"] > 0
	case "C08":
		return p["start failure"] > 0 || p["invalid graph"] > 0
	case "C10":
		return p["announced"] > 0
	case "C11":
		return p["command started"] > 0
	case "C12":
		return p["output delivered"] > 0 || p["failure"] > 0
	case "C13":
		return p["demo lines"] > 0
	case "C31":
		return p["output of a running command"] > 0
	case "C30":
		return p["password"] > 0 && p["several tasks"] > 0
	case "C17":
		return p["sql sent"] > 0
	}
	return true
}
