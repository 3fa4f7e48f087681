package model

import (
	"testing"
	"time"
)

func TestUnix(t *testing.T) {
	for y := 0; y < 10000; y++ {
		for m := 1; m <= 12; m++ {
			for _, d := range []int{1, 15, DaysIn(m, y)} {
				dt := DateTime{Day: d, Month: m, Year: y, Hour: 1, Min: 2, Sec: 3, Offset: 3600}
				w := time.Date(y, time.Month(m), d, 1, 2, 3, 0, time.FixedZone("", 3600)).Unix()
				if dt.Unix() != w {
					t.Fatal(dt, w)
				}
			}
		}
	}
}
