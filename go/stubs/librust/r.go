package rust

func DumpRustCoverageData(string) {}
