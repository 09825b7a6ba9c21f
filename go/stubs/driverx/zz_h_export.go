package driver

// Commands gives the simulation access to the commands of the driver.
var (
	DoRun         = doRun
	DoProbe       = doProbe
	DoStats       = doStats
	DoTest        = doTest
	DoRegressions = doRegressionTests
)
