//vp:packages cosmosTransaction
//vp:prop P23
package PKG

func vspec_sigtail(t TxStruct) string {
	return `,"account_number":` + vspec_q(t.AccountNumber) + `,"sequence":` + vspec_q(t.Sequence)
}

func vspec_whole(tx, mode string) string { return `{"tx":` + tx + `,"mode":` + mode + "}" }
