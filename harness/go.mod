module dxh

go 1.23

require (
	github.com/suiyunonghen/DxCommonLib v0.2.5
	github.com/suiyunonghen/dxsvalue v0.0.0
)

require golang.org/x/text v0.3.4 // indirect

replace github.com/suiyunonghen/dxsvalue => /repo
