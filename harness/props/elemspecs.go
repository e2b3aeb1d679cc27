package props

import "github.com/flukeish/pmml/models"

// Generated once by tools/elemspecs.py and reviewed; not regenerated by the checks.

func init() {
	elemSpecs = []elemSpec{
		{"ARDSquaredExponentialKernel", false, []attrSpec{{"description", 's', true, ""}, {"gamma", 'f', true, ""}, {"noiseVariance", 'f', true, ""}}, []kidSpec{{true, []string{"Extension"}}, {false, []string{"Lambda"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.ARDSquaredExponentialKernel{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.Description == nil {
						return nil
					}
					return string(*m.Description)
				}(), func() interface{} {
					if m.Gamma == nil {
						return nil
					}
					return float64(*m.Gamma)
				}(), func() interface{} {
					if m.NoiseVariance == nil {
						return nil
					}
					return float64(*m.NoiseVariance)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						if m.Lambda != nil {
							r = append(r, mark(m.Lambda.Extensions))
						}
						return
					}()}
			}
		}},
		{"AbsoluteExponentialKernel", false, []attrSpec{{"description", 's', true, ""}, {"gamma", 'f', true, ""}, {"noiseVariance", 'f', true, ""}}, []kidSpec{{true, []string{"Extension"}}, {false, []string{"Lambda"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.AbsoluteExponentialKernel{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.Description == nil {
						return nil
					}
					return string(*m.Description)
				}(), func() interface{} {
					if m.Gamma == nil {
						return nil
					}
					return float64(*m.Gamma)
				}(), func() interface{} {
					if m.NoiseVariance == nil {
						return nil
					}
					return float64(*m.NoiseVariance)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						if m.Lambda != nil {
							r = append(r, mark(m.Lambda.Extensions))
						}
						return
					}()}
			}
		}},
		{"Aggregate", false, []attrSpec{{"field", 's', false, ""}, {"function", 's', false, ""}, {"groupField", 's', false, ""}, {"sqlWhere", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Aggregate{}
			return m, func() []interface{} {
				return []interface{}{string(m.Field), string(m.Function), string(m.GroupField), string(m.SQLWhere)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Alternate", false, []attrSpec{}, []kidSpec{{false, []string{"AnyDistribution", "GaussianDistribution", "PoissonDistribution", "UniformDistribution"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Alternate{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					if m.Distribution != nil {
						r = append(r, distMark(m.Distribution))
					}
					return
				}()}
			}
		}},
		{"Anova", false, []attrSpec{{"target", 's', false, ""}}, []kidSpec{{true, []string{"AnovaRow"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Anova{}
			return m, func() []interface{} { return []interface{}{string(m.Target)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Rows {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"AnovaRow", false, []attrSpec{{"degreesOfFreedom", 'f', false, ""}, {"fValue", 'f', true, ""}, {"meanOfSquares", 'f', true, ""}, {"pValue", 'f', true, ""}, {"sumOfSquares", 'f', false, ""}, {"type", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.AnovaRow{}
			return m, func() []interface{} {
				return []interface{}{float64(m.DegreesOfFreedom), func() interface{} {
					if m.FValue == nil {
						return nil
					}
					return float64(*m.FValue)
				}(), func() interface{} {
					if m.MeanOfSquares == nil {
						return nil
					}
					return float64(*m.MeanOfSquares)
				}(), func() interface{} {
					if m.PValue == nil {
						return nil
					}
					return float64(*m.PValue)
				}(), float64(m.SumOfSquares), string(m.Type)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"AnyDistribution", false, []attrSpec{{"mean", 'f', false, ""}, {"variance", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.AnyDistribution{}
			return m, func() []interface{} { return []interface{}{float64(m.Mean), float64(m.Variance)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Application", false, []attrSpec{{"name", 's', false, ""}, {"version", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Application{}
			return m, func() []interface{} { return []interface{}{string(m.Name), string(m.Version)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Apply", false, []attrSpec{{"defaultValue", 's', true, ""}, {"function", 's', false, ""}, {"invalidValueTreatment", 's', false, "returnInvalid"}, {"mapMissingTo", 's', true, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"Aggregate", "Apply", "Constant", "Discretize", "FieldRef", "Lag", "MapValues", "NormContinuous", "NormDiscrete", "TextIndex"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Apply{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.DefaultValue == nil {
						return nil
					}
					return string(*m.DefaultValue)
				}(), string(m.Function), string(m.InvalidValueTreatment), func() interface{} {
					if m.MapMissingTo == nil {
						return nil
					}
					return string(*m.MapMissingTo)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Expressions {
							r = append(r, exprMark(k))
						}
						return
					}()}
			}
		}},
		{"AssociationModel", false, []attrSpec{{"algorithmName", 's', false, ""}, {"avgNumberOfItemsPerTA", 'f', false, ""}, {"functionName", 's', false, ""}, {"isScorable", 'b', false, ""}, {"lengthLimit", 'i', false, ""}, {"maxNumberOfItemsPerTA", 'i', false, ""}, {"minimumConfidence", 'f', false, ""}, {"minimumSupport", 'f', false, ""}, {"modelName", 's', false, ""}, {"numberOfItems", 'i', false, ""}, {"numberOfItemsets", 'i', false, ""}, {"numberOfRules", 'i', false, ""}, {"numberOfTransactions", 'i', false, ""}}, []kidSpec{{true, []string{"AssociationRule"}}, {true, []string{"Item"}}, {true, []string{"Itemset"}}, {false, []string{"LocalTransformations"}}, {false, []string{"MiningSchema"}}, {false, []string{"ModelStats"}}, {false, []string{"ModelVerification"}}, {false, []string{"Output"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.AssociationModel{}
			return m, func() []interface{} {
				return []interface{}{string(m.AlgorithmName), float64(m.AvgNumberOfItemsPerTA), string(m.FunctionName), bool(m.IsScorable), int64(m.LengthLimit), int64(m.MaxNumberOfItemsPerTA), float64(m.MinimumConfidence), float64(m.MinimumSupport), string(m.ModelName), int64(m.NumberOfItems), int64(m.NumberOfItemsets), int64(m.NumberOfRules), int64(m.NumberOfTransactions)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.AssociationRules {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Items {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Itemsets {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.LocalTransformations.Extensions) > 0 {
							r = append(r, mark(m.LocalTransformations.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.MiningSchema.Extensions) > 0 {
							r = append(r, mark(m.MiningSchema.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.ModelStats.Extensions) > 0 {
							r = append(r, mark(m.ModelStats.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.ModelVerification.Extensions) > 0 {
							r = append(r, mark(m.ModelVerification.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.Output.Extensions) > 0 {
							r = append(r, mark(m.Output.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"AssociationRule", false, []attrSpec{{"affinity", 'f', false, ""}, {"antecedent", 's', false, ""}, {"confidence", 'f', false, ""}, {"consequent", 's', false, ""}, {"id", 's', false, ""}, {"leverage", 'f', false, ""}, {"lift", 'f', false, ""}, {"support", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.AssociationRule{}
			return m, func() []interface{} {
				return []interface{}{float64(m.Affinity), string(m.Antecedent), float64(m.Confidence), string(m.Consequent), string(m.ID), float64(m.Leverage), float64(m.Lift), float64(m.Support)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Attribute", false, []attrSpec{{"partialScore", 'f', false, ""}, {"reasonCode", 's', false, ""}}, []kidSpec{{false, []string{"ComplexPartialScore"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Attribute{}
			return m, func() []interface{} { return []interface{}{float64(m.PartialScore), string(m.ReasonCode)} }, func() [][]string {
				return [][]string{func() (r []string) {
					if len(m.ComplexPartialScore.Extensions) > 0 {
						r = append(r, mark(m.ComplexPartialScore.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"BaseCumHazardTables", false, []attrSpec{{"maxTime", 'f', false, ""}}, []kidSpec{{true, []string{"BaselineCell"}}, {true, []string{"BaselineStratum"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.BaseCumHazardTables{}
			return m, func() []interface{} { return []interface{}{float64(m.MaxTime)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.BaselineCells {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.BaselineStratums {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"BaselineCell", false, []attrSpec{{"cumHazard", 'f', false, ""}, {"time", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.BaselineCell{}
			return m, func() []interface{} { return []interface{}{float64(m.CumHazard), float64(m.Time)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"BaselineModel", false, []attrSpec{{"algorithmName", 's', false, ""}, {"functionName", 's', false, ""}, {"isScorable", 'b', false, ""}, {"modelName", 's', false, ""}}, []kidSpec{{false, []string{"LocalTransformations"}}, {false, []string{"MiningSchema"}}, {false, []string{"ModelExplanation"}}, {false, []string{"ModelVerification"}}, {false, []string{"Targets"}}, {false, []string{"Output"}}, {false, []string{"ModelStats"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.BaselineModel{}
			return m, func() []interface{} {
				return []interface{}{string(m.AlgorithmName), string(m.FunctionName), bool(m.IsScorable), string(m.ModelName)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					if m.LocalTransformations != nil {
						r = append(r, mark(m.LocalTransformations.Extensions))
					}
					return
				}(),
					func() (r []string) {
						if len(m.MiningSchema.Extensions) > 0 {
							r = append(r, mark(m.MiningSchema.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelExplanation != nil {
							r = append(r, mark(m.ModelExplanation.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelVerification != nil {
							r = append(r, mark(m.ModelVerification.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Targets != nil {
							r = append(r, mark(m.Targets.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Output != nil {
							r = append(r, mark(m.Output.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelStats != nil {
							r = append(r, mark(m.ModelStats.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"BaselineStratum", false, []attrSpec{{"label", 's', false, ""}, {"maxTime", 'f', false, ""}, {"value", 's', false, ""}}, []kidSpec{{true, []string{"BaselineCell"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.BaselineStratum{}
			return m, func() []interface{} { return []interface{}{string(m.Label), float64(m.MaxTime), string(m.Value)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.BaselineCell {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"BayesianNetworkModel", false, []attrSpec{{"algorithmName", 's', false, ""}, {"functionName", 's', false, ""}, {"isScorable", 'b', false, ""}, {"modelName", 's', false, ""}}, []kidSpec{{false, []string{"BayesianNetworkNodes"}}, {false, []string{"LocalTransformations"}}, {false, []string{"MiningSchema"}}, {false, []string{"ModelExplanation"}}, {false, []string{"ModelStats"}}, {false, []string{"ModelVerification"}}, {false, []string{"Output"}}, {false, []string{"Targets"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.BayesianNetworkModel{}
			return m, func() []interface{} {
				return []interface{}{string(m.AlgorithmName), string(m.FunctionName), bool(m.IsScorable), string(m.ModelName)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					if len(m.BayesianNetworkNodes.Extensions) > 0 {
						r = append(r, mark(m.BayesianNetworkNodes.Extensions))
					}
					return
				}(),
					func() (r []string) {
						if m.LocalTransformations != nil {
							r = append(r, mark(m.LocalTransformations.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.MiningSchema.Extensions) > 0 {
							r = append(r, mark(m.MiningSchema.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelExplanation != nil {
							r = append(r, mark(m.ModelExplanation.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelStats != nil {
							r = append(r, mark(m.ModelStats.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelVerification != nil {
							r = append(r, mark(m.ModelVerification.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Output != nil {
							r = append(r, mark(m.Output.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Targets != nil {
							r = append(r, mark(m.Targets.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"BlockIndicator", false, []attrSpec{{"field", 's', false, ""}}, []kidSpec{}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.BlockIndicator{}
			return m, func() []interface{} { return []interface{}{string(m.Field)} }, func() [][]string {
				return [][]string{}
			}
		}},
		{"CategoricalPredictor", false, []attrSpec{{"coefficient", 'f', false, ""}, {"name", 's', false, ""}, {"value", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.CategoricalPredictor{}
			return m, func() []interface{} { return []interface{}{float64(m.Coefficient), string(m.Name), string(m.Value)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"ChildParent", false, []attrSpec{{"childField", 's', false, ""}, {"isRecursive", 'y', false, ""}, {"parentField", 's', false, ""}, {"parentLevelField", 's', false, ""}}, []kidSpec{{false, []string{"InlineTable", "TableLocator"}}, {true, []string{"Extension"}}, {true, []string{"FieldColumnPair"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.ChildParent{}
			return m, func() []interface{} {
				return []interface{}{string(m.ChildField), bool(m.IsRecursive), string(m.ParentField), string(m.ParentLevelField)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					if m.Table != nil {
						r = append(r, tabMark(m.Table))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.FieldColumnPairs {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"CompoundPredicate", true, []attrSpec{{"booleanOperator", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"CompoundPredicate", "False", "SimplePredicate", "SimpleSetPredicate", "True"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.CompoundPredicate{}
			return m, func() []interface{} { return []interface{}{string(m.BooleanOperator)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Predicates {
							r = append(r, predMark(k))
						}
						return
					}()}
			}
		}},
		{"Constant", false, []attrSpec{{"dataType", 's', false, ""}}, []kidSpec{}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Constant{}
			return m, func() []interface{} { return []interface{}{string(m.DataType)} }, func() [][]string {
				return [][]string{}
			}
		}},
		{"ContStats", false, []attrSpec{{"totalSquaresSum", 'f', false, ""}, {"totalValuesSum", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"Interval"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.ContStats{}
			return m, func() []interface{} { return []interface{}{float64(m.TotalSquaresSum), float64(m.TotalValuesSum)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Intervals {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"Counts", false, []attrSpec{{"cardinality", 'u', false, ""}, {"invalidFreq", 'f', false, ""}, {"missingFreq", 'f', false, ""}, {"totalFreq", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Counts{}
			return m, func() []interface{} {
				return []interface{}{int64(m.Cardinality), float64(m.InvalidFreq), float64(m.MissingFreq), float64(m.TotalFreq)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"DataDictionary", false, []attrSpec{{"numberOfFields", 'u', false, ""}}, []kidSpec{{true, []string{"DataField"}}, {true, []string{"Extension"}}, {true, []string{"Taxonomy"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.DataDictionary{}
			return m, func() []interface{} { return []interface{}{int64(m.NumberOfFields)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.DataFields {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Taxonomies {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"DataField", false, []attrSpec{{"dataType", 's', false, ""}, {"displayName", 's', false, ""}, {"isCyclic", 'b', false, ""}, {"name", 's', false, ""}, {"optype", 's', false, ""}, {"taxonomy", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"Interval"}}, {true, []string{"Value"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.DataField{}
			return m, func() []interface{} {
				return []interface{}{string(m.DataType), string(m.DisplayName), bool(m.IsCyclic), string(m.Name), string(m.OpType), string(m.Taxonomy)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Intervals {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Values {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"DefineFunction", false, []attrSpec{{"dataType", 's', false, ""}, {"name", 's', false, ""}, {"optype", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {false, []string{"Aggregate", "Apply", "Constant", "Discretize", "FieldRef", "Lag", "MapValues", "NormContinuous", "NormDiscrete", "TextIndex"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.DefineFunction{}
			return m, func() []interface{} { return []interface{}{string(m.DataType), string(m.Name), string(m.OpType)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						if m.Expression != nil {
							r = append(r, exprMark(m.Expression))
						}
						return
					}()}
			}
		}},
		{"DerivedField", false, []attrSpec{{"dataType", 's', false, ""}, {"displayName", 's', false, ""}, {"name", 's', false, ""}, {"optype", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"Value"}}, {false, []string{"Aggregate", "Apply", "Constant", "Discretize", "FieldRef", "Lag", "MapValues", "NormContinuous", "NormDiscrete", "TextIndex"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.DerivedField{}
			return m, func() []interface{} {
				return []interface{}{string(m.DataType), string(m.DisplayName), string(m.Name), string(m.OpType)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Values {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Expression != nil {
							r = append(r, exprMark(m.Expression))
						}
						return
					}()}
			}
		}},
		{"DiscrStats", false, []attrSpec{{"modalValue", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.DiscrStats{}
			return m, func() []interface{} { return []interface{}{string(m.ModalValue)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Extension", false, []attrSpec{{"extender", 's', true, ""}, {"name", 's', true, ""}, {"value", 's', true, ""}}, []kidSpec{}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Extension{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.Extender == nil {
						return nil
					}
					return string(*m.Extender)
				}(), func() interface{} {
					if m.Name == nil {
						return nil
					}
					return string(*m.Name)
				}(), func() interface{} {
					if m.Value == nil {
						return nil
					}
					return string(*m.Value)
				}()}
			}, func() [][]string {
				return [][]string{}
			}
		}},
		{"False", true, []attrSpec{}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.False{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"FieldColumnPair", false, []attrSpec{{"column", 's', false, ""}, {"field", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.FieldColumnPair{}
			return m, func() []interface{} { return []interface{}{string(m.Column), string(m.Field)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"FieldRef", false, []attrSpec{{"field", 's', false, ""}, {"mapMissingTo", 's', true, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.FieldRef{}
			return m, func() []interface{} {
				return []interface{}{string(m.Field), func() interface{} {
					if m.MapMissingTo == nil {
						return nil
					}
					return string(*m.MapMissingTo)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"FieldValueCount", false, []attrSpec{{"count", 'f', false, ""}, {"field", 's', false, ""}, {"value", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.FieldValueCount{}
			return m, func() []interface{} { return []interface{}{float64(m.Count), string(m.Field), string(m.Value)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"GaussianDistribution", false, []attrSpec{{"mean", 'f', false, ""}, {"variance", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.GaussianDistribution{}
			return m, func() []interface{} { return []interface{}{float64(m.Mean), float64(m.Variance)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Header", false, []attrSpec{{"copyright", 's', false, ""}, {"description", 's', false, ""}, {"modelVersion", 's', false, ""}}, []kidSpec{{true, []string{"Annotation"}}, {false, []string{"Application"}}, {true, []string{"Extension"}}, {false, []string{"Timestamp"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Header{}
			return m, func() []interface{} {
				return []interface{}{string(m.Copyright), string(m.Description), string(m.ModelVersion)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Annotations {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						if m.Application != nil {
							r = append(r, mark(m.Application.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}(),
					func() (r []string) {
						if m.Timestamp != nil {
							r = append(r, mark(m.Timestamp.Extensions))
						}
						return
					}()}
			}
		}},
		{"Interval", false, []attrSpec{{"closure", 's', false, ""}, {"leftMargin", 'f', false, ""}, {"rightMargin", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Interval{}
			return m, func() []interface{} {
				return []interface{}{string(m.Closure), float64(m.LeftMargin), float64(m.RightMargin)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"LocalTransformations", false, []attrSpec{}, []kidSpec{{true, []string{"DerivedField"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.LocalTransformations{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.DerivedFields {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"MapValues", false, []attrSpec{{"defaultValue", 's', true, ""}, {"mapMissingTo", 's', true, ""}, {"outputColumn", 's', false, ""}, {"dataType", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"FieldColumnPair"}}, {true, []string{"InlineTable"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.MapValues{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.DefaultValue == nil {
						return nil
					}
					return string(*m.DefaultValue)
				}(), func() interface{} {
					if m.MapMissingTo == nil {
						return nil
					}
					return string(*m.MapMissingTo)
				}(), string(m.OutputColumn), string(m.DataType)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.FieldColumnPairs {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.InlineTables {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"MiningField", false, []attrSpec{{"highValue", 'f', false, ""}, {"importance", 'f', false, ""}, {"invalidValueTreatment", 's', false, ""}, {"lowValue", 'f', false, ""}, {"missingValueReplacement", 's', true, ""}, {"missingValueTreatment", 's', false, ""}, {"name", 's', false, ""}, {"optype", 's', false, ""}, {"outliers", 's', false, ""}, {"usageType", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.MiningField{}
			return m, func() []interface{} {
				return []interface{}{float64(m.HighValue), float64(m.Importance), string(m.InvalidValueTreatment), float64(m.LowValue), func() interface{} {
					if m.MissingValueReplacement == nil {
						return nil
					}
					return string(*m.MissingValueReplacement)
				}(), string(m.MissingValueTreatment), string(m.Name), string(m.OpType), string(m.Outliers), string(m.UsageType)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"MiningModel", false, []attrSpec{{"algorithmName", 's', true, ""}, {"functionName", 's', false, ""}, {"isScorable", 'b', false, ""}, {"modelName", 's', true, ""}}, []kidSpec{{false, []string{"ModelVerification"}}, {false, []string{"MiningSchema"}}, {false, []string{"LocalTransformations"}}, {false, []string{"Output"}}, {false, []string{"Segmentation"}}, {false, []string{"Targets"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.MiningModel{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.AlgorithmName == nil {
						return nil
					}
					return string(*m.AlgorithmName)
				}(), string(m.FunctionName), bool(m.IsScorable), func() interface{} {
					if m.ModelName == nil {
						return nil
					}
					return string(*m.ModelName)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					if m.ModelVerification != nil {
						r = append(r, mark(m.ModelVerification.Extensions))
					}
					return
				}(),
					func() (r []string) {
						if len(m.MiningSchema.Extensions) > 0 {
							r = append(r, mark(m.MiningSchema.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.LocalTransformations.Extensions) > 0 {
							r = append(r, mark(m.LocalTransformations.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.Output.Extensions) > 0 {
							r = append(r, mark(m.Output.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.Segmentation.Extensions) > 0 {
							r = append(r, mark(m.Segmentation.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.Targets.Extensions) > 0 {
							r = append(r, mark(m.Targets.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"MiningSchema", false, []attrSpec{}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"MiningField"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.MiningSchema{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.MiningFields {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"ModelExplanation", false, []attrSpec{}, []kidSpec{{false, []string{"Correlations"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.ModelExplanation{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					if m.Correlations != nil {
						r = append(r, mark(m.Correlations.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"ModelStats", false, []attrSpec{}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"MultivariateStats"}}, {true, []string{"UnivariateStats"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.ModelStats{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.MultivariateStats {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.UnivariateStats {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"ModelVerification", false, []attrSpec{{"fieldCount", 'i', false, ""}, {"recordCount", 'i', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {false, []string{"InlineTable"}}, {false, []string{"VerificationFields"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.ModelVerification{}
			return m, func() []interface{} { return []interface{}{int64(m.FieldCount), int64(m.RecordCount)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						if len(m.InlineTable.Extensions) > 0 {
							r = append(r, mark(m.InlineTable.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.VerificationFields.Extensions) > 0 {
							r = append(r, mark(m.VerificationFields.Extensions))
						}
						return
					}()}
			}
		}},
		{"MultivariateStats", false, []attrSpec{{"targetCategory", 's', false, ""}}, []kidSpec{{true, []string{"MultivariateStat"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.MultivariateStats{}
			return m, func() []interface{} { return []interface{}{string(m.TargetCategory)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.MultivariateStats {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"Node", true, []attrSpec{{"defaultChild", 's', false, ""}, {"id", 's', false, ""}, {"recordCount", 'f', false, ""}, {"score", 's', false, ""}}, []kidSpec{{false, []string{"DecisionTree", "Regression"}}, {true, []string{"Node"}}, {false, []string{"Partition"}}, {true, []string{"ScoreDistribution"}}, {true, []string{"Extension"}}, {false, []string{"CompoundPredicate", "False", "SimplePredicate", "SimpleSetPredicate", "True"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Node{}
			return m, func() []interface{} {
				return []interface{}{string(m.DefaultChild), string(m.ID), float64(m.RecordCount), string(m.Score)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					if m.EmbeddedModel != nil {
						r = append(r, embMark(m.EmbeddedModel))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Nodes {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Partition != nil {
							r = append(r, mark(m.Partition.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.ScoreDistributions {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}(),
					func() (r []string) {
						if m.Predicate != nil {
							r = append(r, predMark(m.Predicate))
						}
						return
					}()}
			}
		}},
		{"NumericInfo", false, []attrSpec{{"interQuartileRange", 'f', false, ""}, {"maximum", 'f', false, ""}, {"mean", 'f', false, ""}, {"median", 'f', false, ""}, {"minimum", 'f', false, ""}, {"standardDeviation", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"Quantile"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.NumericInfo{}
			return m, func() []interface{} {
				return []interface{}{float64(m.InterQuartileRange), float64(m.Maximum), float64(m.Mean), float64(m.Median), float64(m.Minimum), float64(m.StandardDeviation)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Quantiles {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"NumericPredictor", false, []attrSpec{{"name", 's', false, ""}, {"coefficient", 'f', false, ""}, {"exponent", 'i', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.NumericPredictor{}
			return m, func() []interface{} { return []interface{}{string(m.Name), float64(m.Coefficient), int64(m.Exponent)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Output", false, []attrSpec{}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"OutputField"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Output{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Fields {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"OutputField", false, []attrSpec{{"algorithm", 's', false, ""}, {"dataType", 's', false, ""}, {"displayName", 's', false, ""}, {"feature", 's', false, ""}, {"isMultiValued", 'i', false, ""}, {"name", 's', false, ""}, {"optype", 's', false, ""}, {"rank", 'i', false, ""}, {"rankBasis", 's', false, ""}, {"rankOrder", 's', false, ""}, {"ruleFeature", 's', false, ""}, {"segmentId", 's', false, ""}, {"targetField", 's', false, ""}, {"value", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.OutputField{}
			return m, func() []interface{} {
				return []interface{}{string(m.Algorithm), string(m.DataType), string(m.DisplayName), string(m.Feature), int64(m.IsMultiValued), string(m.Name), string(m.OpType), int64(m.Rank), string(m.RankBasis), string(m.RankOrder), string(m.RuleFeature), string(m.SegmentID), string(m.TargetField), string(m.Value)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"PMML", false, []attrSpec{{"version", 's', false, ""}}, []kidSpec{{false, []string{"DataDictionary"}}, {false, []string{"TransformationDictionary"}}, {true, []string{"Extension"}}, {false, []string{"Header"}}, {false, []string{"MiningBuildTask"}}, {true, []string{"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel", "GeneralRegressionModel", "MiningModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork", "RegressionModel", "RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel", "TimeSeriesModel", "TreeModel"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.PMML{}
			return m, func() []interface{} { return []interface{}{string(m.Version)} }, func() [][]string {
				return [][]string{func() (r []string) {
					if len(m.DataDictionary.Extensions) > 0 {
						r = append(r, mark(m.DataDictionary.Extensions))
					}
					return
				}(),
					func() (r []string) {
						if len(m.TransformationDictionary.Extensions) > 0 {
							r = append(r, mark(m.TransformationDictionary.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}(),
					func() (r []string) {
						if len(m.Header.Extensions) > 0 {
							r = append(r, mark(m.Header.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.MiningBuildTask != nil {
							r = append(r, mark(m.MiningBuildTask.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Models {
							r = append(r, modelMark(k))
						}
						return
					}()}
			}
		}},
		{"Quantile", false, []attrSpec{{"quantileLimit", 'f', false, ""}, {"quantileValue", 'f', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Quantile{}
			return m, func() []interface{} { return []interface{}{float64(m.QuantileLimit), float64(m.QuantileValue)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"RegressionModel", false, []attrSpec{{"algorithmName", 's', false, ""}, {"functionName", 's', false, ""}, {"isScorable", 'b', false, ""}, {"modelName", 's', false, ""}, {"normalizationMethod", 's', false, ""}}, []kidSpec{{false, []string{"LocalTransformations"}}, {false, []string{"MiningSchema"}}, {true, []string{"RegressionTable"}}, {false, []string{"ModelExplanation"}}, {false, []string{"ModelStats"}}, {false, []string{"ModelVerification"}}, {false, []string{"Output"}}, {false, []string{"Targets"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.RegressionModel{}
			return m, func() []interface{} {
				return []interface{}{string(m.AlgorithmName), string(m.FunctionName), bool(m.IsScorable), string(m.ModelName), string(m.RegressionNormalizationMethod)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					if len(m.LocalTransformations.Extensions) > 0 {
						r = append(r, mark(m.LocalTransformations.Extensions))
					}
					return
				}(),
					func() (r []string) {
						if len(m.MiningSchema.Extensions) > 0 {
							r = append(r, mark(m.MiningSchema.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.RegressionTables {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelExplanation != nil {
							r = append(r, mark(m.ModelExplanation.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelStats != nil {
							r = append(r, mark(m.ModelStats.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelVerification != nil {
							r = append(r, mark(m.ModelVerification.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.Output.Extensions) > 0 {
							r = append(r, mark(m.Output.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Targets != nil {
							r = append(r, mark(m.Targets.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"RegressionTable", false, []attrSpec{{"intercept", 'f', false, ""}, {"targetCategory", 's', false, ""}}, []kidSpec{{true, []string{"NumericPredictor"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.RegressionTable{}
			return m, func() []interface{} { return []interface{}{float64(m.Intercept), string(m.TargetCategory)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.NumericPredictor {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"ScoreDistribution", true, []attrSpec{{"confidence", 'f', true, ""}, {"probability", 'f', true, ""}, {"recordCount", 'f', false, ""}, {"value", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.ScoreDistribution{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.Confidence == nil {
						return nil
					}
					return float64(*m.Confidence)
				}(), func() interface{} {
					if m.Probability == nil {
						return nil
					}
					return float64(*m.Probability)
				}(), float64(m.RecordCount), string(m.Value)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Segment", false, []attrSpec{{"id", 's', false, ""}}, []kidSpec{{true, []string{"CompoundPredicate", "False", "SimplePredicate", "SimpleSetPredicate", "True"}}, {true, []string{"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel", "GeneralRegressionModel", "MiningModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork", "RegressionModel", "RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel", "TimeSeriesModel", "TreeModel"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Segment{}
			return m, func() []interface{} { return []interface{}{string(m.Id)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Predicates {
						r = append(r, predMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Models {
							r = append(r, modelMark(k))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"Segmentation", false, []attrSpec{{"multipleModelMethod", 's', false, ""}}, []kidSpec{{true, []string{"Segment"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Segmentation{}
			return m, func() []interface{} { return []interface{}{string(m.MultipleModelMethod)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Segments {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"SimplePredicate", true, []attrSpec{{"field", 's', false, ""}, {"operator", 's', false, ""}, {"value", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.SimplePredicate{}
			return m, func() []interface{} { return []interface{}{string(m.Field), string(m.Operator), string(m.Value)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"SimpleSetPredicate", true, []attrSpec{{"booleanOperator", 's', false, ""}, {"field", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.SimpleSetPredicate{}
			return m, func() []interface{} { return []interface{}{string(m.BooleanOperator), string(m.Field)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"Target", false, []attrSpec{{"castInteger", 's', false, ""}, {"field", 's', false, ""}, {"max", 'f', false, ""}, {"min", 'f', false, ""}, {"optype", 's', false, ""}, {"rescaleConstant", 'f', true, ""}, {"rescaleFactor", 'f', true, ""}}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"TargetValue"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Target{}
			return m, func() []interface{} {
				return []interface{}{string(m.CastInteger), string(m.Field), float64(m.Max), float64(m.Min), string(m.OpType), func() interface{} {
					if m.RescaleConstant == nil {
						return nil
					}
					return float64(*m.RescaleConstant)
				}(), func() interface{} {
					if m.RescaleFactor == nil {
						return nil
					}
					return float64(*m.RescaleFactor)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.TargetValues {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"Targets", false, []attrSpec{}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"Target"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Targets{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Targets {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"Taxonomy", false, []attrSpec{{"name", 's', false, ""}}, []kidSpec{{true, []string{"ChildParent"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Taxonomy{}
			return m, func() []interface{} { return []interface{}{string(m.Name)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.ChildParents {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"TransformationDictionary", false, []attrSpec{}, []kidSpec{{true, []string{"DefineFunction"}}, {true, []string{"DerivedField"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.TransformationDictionary{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.DefineFunctions {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.DerivedFields {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
		{"TreeModel", true, []attrSpec{{"algorithmName", 's', false, ""}, {"functionName", 's', false, ""}, {"isScorable", 'b', false, ""}, {"missingValuePenalty", 'f', false, ""}, {"missingValueStrategy", 's', false, ""}, {"modelName", 's', false, ""}, {"noTrueChildStrategy", 's', false, ""}, {"splitCharacteristic", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}, {false, []string{"LocalTransformations"}}, {false, []string{"MiningSchema"}}, {false, []string{"ModelExplanation"}}, {false, []string{"ModelStats"}}, {false, []string{"ModelVerification"}}, {false, []string{"Node"}}, {false, []string{"Output"}}, {false, []string{"Targets"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.TreeModel{}
			return m, func() []interface{} {
				return []interface{}{string(m.AlgorithmName), string(m.FunctionName), bool(m.IsScorable), float64(m.MissingValuePenalty), string(m.MissingValueStrategy), string(m.ModelName), string(m.NoTrueChildStrategy), string(m.SplitCharacteristic)}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						if len(m.LocalTransformations.Extensions) > 0 {
							r = append(r, mark(m.LocalTransformations.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.MiningSchema.Extensions) > 0 {
							r = append(r, mark(m.MiningSchema.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelExplanation != nil {
							r = append(r, mark(m.ModelExplanation.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelStats != nil {
							r = append(r, mark(m.ModelStats.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.ModelVerification != nil {
							r = append(r, mark(m.ModelVerification.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if len(m.Node.Extensions) > 0 {
							r = append(r, mark(m.Node.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Output != nil {
							r = append(r, mark(m.Output.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Targets != nil {
							r = append(r, mark(m.Targets.Extensions))
						}
						return
					}()}
			}
		}},
		{"True", true, []attrSpec{}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.True{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"UnivariateStats", false, []attrSpec{{"field", 's', false, ""}, {"weighted", 'b', false, ""}}, []kidSpec{{false, []string{"Anova"}}, {false, []string{"ContStats"}}, {false, []string{"Counts"}}, {false, []string{"DiscrStats"}}, {true, []string{"Extension"}}, {false, []string{"NumericInfo"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.UnivariateStats{}
			return m, func() []interface{} { return []interface{}{string(m.Field), bool(m.Weighted)} }, func() [][]string {
				return [][]string{func() (r []string) {
					if m.Anova != nil {
						r = append(r, mark(m.Anova.Extensions))
					}
					return
				}(),
					func() (r []string) {
						if m.ContStats != nil {
							r = append(r, mark(m.ContStats.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.Counts != nil {
							r = append(r, mark(m.Counts.Extensions))
						}
						return
					}(),
					func() (r []string) {
						if m.DiscrStats != nil {
							r = append(r, mark(m.DiscrStats.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}(),
					func() (r []string) {
						if m.NumericInfo != nil {
							r = append(r, mark(m.NumericInfo.Extensions))
						}
						return
					}()}
			}
		}},
		{"Value", false, []attrSpec{{"displayValue", 's', false, ""}, {"property", 's', false, ""}, {"value", 's', false, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.Value{}
			return m, func() []interface{} { return []interface{}{string(m.DisplayValue), string(m.Valid), string(m.Value)} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"VerificationField", false, []attrSpec{{"field", 's', false, ""}, {"column", 's', false, ""}, {"precision", 'f', true, ""}, {"zeroThreshold", 'f', true, ""}}, []kidSpec{{true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.VerificationField{}
			return m, func() []interface{} {
				return []interface{}{string(m.Field), string(m.Column), func() interface{} {
					if m.Precision == nil {
						return nil
					}
					return float64(*m.Precision)
				}(), func() interface{} {
					if m.ZeroThreshold == nil {
						return nil
					}
					return float64(*m.ZeroThreshold)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}()}
			}
		}},
		{"VerificationFields", false, []attrSpec{}, []kidSpec{{true, []string{"Extension"}}, {true, []string{"VerificationField"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.VerificationFields{}
			return m, func() []interface{} { return []interface{}{} }, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.Extensions {
						r = append(r, extMark(k))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.Fields {
							r = append(r, mark(k.Extensions))
						}
						return
					}()}
			}
		}},
		{"CountTable", false, []attrSpec{{"sample", 'f', true, ""}}, []kidSpec{{true, []string{"FieldValue"}}, {true, []string{"FieldValueCount"}}, {true, []string{"Extension"}}}, func() (interface{}, func() []interface{}, func() [][]string) {
			m := &models.CountTableType{}
			return m, func() []interface{} {
				return []interface{}{func() interface{} {
					if m.Sample == nil {
						return nil
					}
					return float64(*m.Sample)
				}()}
			}, func() [][]string {
				return [][]string{func() (r []string) {
					for _, k := range m.FieldValues {
						r = append(r, mark(k.Extensions))
					}
					return
				}(),
					func() (r []string) {
						for _, k := range m.FieldValueCounts {
							r = append(r, mark(k.Extensions))
						}
						return
					}(),
					func() (r []string) {
						for _, k := range m.Extensions {
							r = append(r, extMark(k))
						}
						return
					}()}
			}
		}},
	}
}

func predMark(k models.Predicate) string {
	switch k := k.(type) {
	case *models.CompoundPredicate:
		return "CompoundPredicate:" + mark(k.Extensions)
	case *models.False:
		return "False:" + mark(k.Extensions)
	case *models.SimplePredicate:
		return "SimplePredicate:" + mark(k.Extensions)
	case *models.SimpleSetPredicate:
		return "SimpleSetPredicate:" + mark(k.Extensions)
	case *models.True:
		return "True:" + mark(k.Extensions)
	}
	return "?"
}

func exprMark(k models.Expression) string {
	switch k := k.(type) {
	case *models.Aggregate:
		return "Aggregate:" + mark(k.Extensions)
	case *models.Apply:
		return "Apply:" + mark(k.Extensions)
	case *models.Constant:
		return "Constant:" + k.Value
	case *models.Discretize:
		return "Discretize:" + mark(k.Extensions)
	case *models.FieldRef:
		return "FieldRef:" + mark(k.Extensions)
	case *models.Lag:
		return "Lag:" + mark(k.Extensions)
	case *models.MapValues:
		return "MapValues:" + mark(k.Extensions)
	case *models.NormContinuous:
		return "NormContinuous:" + mark(k.Extensions)
	case *models.NormDiscrete:
		return "NormDiscrete:" + mark(k.Extensions)
	case *models.TextIndex:
		return "TextIndex:" + mark(k.Extensions)
	}
	return "?"
}

func modelMark(k models.ModelElement) string {
	switch k := k.(type) {
	case *models.AssociationModel:
		return "AssociationModel:" + mark(k.Extensions)
	case *models.BaselineModel:
		return "BaselineModel:" + mark(k.Extensions)
	case *models.BayesianNetworkModel:
		return "BayesianNetworkModel:" + mark(k.Extensions)
	case *models.ClusteringModel:
		return "ClusteringModel:" + mark(k.Extensions)
	case *models.GaussianProcessModel:
		return "GaussianProcessModel:" + mark(k.Extensions)
	case *models.GeneralRegressionModel:
		return "GeneralRegressionModel:" + mark(k.Extensions)
	case *models.MiningModel:
		return "MiningModel:" + mark(k.Extensions)
	case *models.NaiveBayesModel:
		return "NaiveBayesModel:" + mark(k.Extensions)
	case *models.NearestNeighborModel:
		return "NearestNeighborModel:" + mark(k.Extensions)
	case *models.NeuralNetwork:
		return "NeuralNetwork:" + mark(k.Extensions)
	case *models.RegressionModel:
		return "RegressionModel:" + mark(k.Extensions)
	case *models.RuleSetModel:
		return "RuleSetModel:" + mark(k.Extensions)
	case *models.Scorecard:
		return "Scorecard:" + mark(k.Extensions)
	case *models.SequenceModel:
		return "SequenceModel:" + mark(k.Extensions)
	case *models.SupportVectorMachineModel:
		return "SupportVectorMachineModel:" + mark(k.Extensions)
	case *models.TextModel:
		return "TextModel:" + mark(k.Extensions)
	case *models.TimeSeriesModel:
		return "TimeSeriesModel:" + mark(k.Extensions)
	case *models.TreeModel:
		return "TreeModel:" + mark(k.Extensions)
	}
	return "?"
}

func distMark(k models.ContinuousDistributionType) string {
	switch k := k.(type) {
	case *models.AnyDistribution:
		return "AnyDistribution:" + mark(k.Extensions)
	case *models.GaussianDistribution:
		return "GaussianDistribution:" + mark(k.Extensions)
	case *models.PoissonDistribution:
		return "PoissonDistribution:" + mark(k.Extensions)
	case *models.UniformDistribution:
		return "UniformDistribution:" + mark(k.Extensions)
	}
	return "?"
}

func embMark(k models.EmbeddedModel) string {
	switch k := k.(type) {
	case *models.DecisionTree:
		return "DecisionTree:" + mark(k.Extensions)
	case *models.Regression:
		return "Regression:" + mark(k.Extensions)
	}
	return "?"
}

func tabMark(k models.Table) string {
	switch k := k.(type) {
	case *models.InlineTable:
		return "InlineTable:" + mark(k.Extensions)
	case *models.TableLocator:
		return "TableLocator:" + mark(k.Extensions)
	}
	return "?"
}
