package cpp

func DumpCppCoverageData() {}
