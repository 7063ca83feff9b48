package hook

// Kit is what the kit template reports about one call.
type Kit struct {
	Method                  string
	Params, ParamPtrs       any
	ParamsMap               map[string]any
	HasParams, HasResults   bool
	Variadic                []bool
	ParamNames, ResultNames []string
	Results                 any
	ResultsMap              map[string]any
}
