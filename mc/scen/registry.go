package scen

import "verifmc/explore"

// Registry maps property ids to their scenarios.
var Registry = map[string]func(Tier) []*explore.Scenario{
	"C01": scenC01, "C02": scenC02, "C03": scenC03, "C04": scenC04, "C05": scenC05, "C06": scenC06, "C07": scenC07, "C08": scenC08, "C09": scenC09, "C10": scenC10, "C11": scenC11,
	"C20": scenC20, "C16": scenC16, "C17": scenC17, "C24": scenC24, "C21": scenC21, "C22": scenC22, "C12": scenC12, "C13": scenC13, "C18": scenC18, "C19": scenC19, "C23": scenC23, "C14": scenC14, "C15": scenC15, "C25": scenC25, "C26": scenC26, "C27": scenC27, "C28": scenC28, "C29": scenC29,
}
