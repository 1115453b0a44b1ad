//go:build !race

package nd

func raceAcquire(p any) {}
func raceRelease(p any) {}
