module verif

require (
	github.com/ajstarks/svgo v0.0.0-20190826172357-de52242f3d65 // indirect
	github.com/chewxy/math32 v1.0.4
	github.com/fogleman/gg v1.3.0 // indirect
	github.com/jung-kurt/gofpdf v1.10.1 // indirect
	github.com/mgechev/revive v1.0.2 // indirect
	github.com/pa-m/optimize v0.0.0-20190612075243-15ee852a6d9a
	github.com/pa-m/randomkit v0.0.0-20191001073902-db4fd80633df
	github.com/pkg/errors v0.9.1
	golang.org/x/exp v0.0.0-20191129062945-2f5052295587
	golang.org/x/tools v0.0.0-20200225230052-807dcd883420 // indirect
	gonum.org/v1/gonum v0.6.1
	gonum.org/v1/plot v0.0.0-20190615073203-9aa86143727f
)

go 1.13

require github.com/pa-m/sklearn v0.0.0

replace github.com/pa-m/sklearn => /repo
