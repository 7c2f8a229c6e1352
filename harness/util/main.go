// Harness of src/util.
package main

import "../mon"

func main() {
	mon.Main(map[string]func(*mon.Ctx){
		"U01": u01, "U02": u02, "U03": u03, "U04": u04, "U05": u05, "U06": u06, "U07": u07, "U08": u08, "U09": u09, "U10": u10, "U11": u11, "U12": u12, "U13": u13, "U17": u17, "U18": u18, "U19": u19, "U20": u20, "U21": u21, "U22": u22, "U23": u23, "U24": u24, "U26": u26, "U27": u27,
	})
}
