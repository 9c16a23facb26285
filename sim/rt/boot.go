package rt

import (
	"os"
	"strconv"
	"time"
)

// Values fixed before any package of the library initialises.
var (
	bootMapMode = envInt("SIM_MAPMODE", 0)
	bootMapSeed = uint64(envInt("SIM_MAPSEED", 1))
	bootClock   = envClock()
)

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

func envClock() time.Time {
	if t, err := time.Parse(time.RFC3339Nano, os.Getenv("SIM_CLOCK")); err == nil {
		return t
	}
	return time.Date(2020, 6, 15, 12, 30, 45, 0, time.UTC)
}
