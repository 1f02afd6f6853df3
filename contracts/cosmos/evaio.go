//vp:packages evaioTransaction
//vp:prop P23
package PKG

func vspec_sigtail(t TxStruct) string { return "" }

func vspec_whole(tx, mode string) string { return `{"mode":` + mode + `,"tx":` + tx + "}" }
