package main

import (
	"time"

	pdf "github.com/go-pdf/fpdf"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simos"
)

// hookSeams puts the outside world of fpdf behind the simulator.
func hookSeams() {
	pdf.VsimCreate = func(name string) (pdf.VsimFile, error) {
		f, err := simos.Create(name)
		if err != nil {
			return nil, err
		}
		return f, nil
	}
	pdf.VsimNow = func() time.Time { return vsim.Now() }
}
