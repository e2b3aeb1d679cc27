#!/usr/bin/env python3
"""Prints harness/props/elemspecs.go: for every PMML element type of /repo/models, the attributes and child elements a
document may carry and where the decoded value is read. Run once by hand and reviewed against the schema comments
(see --check); the output is committed, so later changes of the code under test do not change the specification."""
import re, sys
src = open('/repo/models/elements.go').read() + open('/repo/models/complexTypes.go').read() + open('/repo/models/simpleTypes.go').read()
base = dict(re.findall(r'^type (\w+) (string|float64|int|int64|uint|bool|float32)$', src, re.M))
for b in 'string float64 int int64 uint bool'.split(): base[b] = b
structs = {}
for m in re.finditer(r'^type (\w+) struct \{(.*?)^\}', src, re.S | re.M):
    fs = []
    for f in re.finditer(r'^\s*([A-Z]\w*)\s+(\S+)(?:\s+`([^`]*)`)?', m.group(2), re.M):
        fs.append(f.groups())
    structs[m.group(1)] = fs
hand = {t for t in re.findall(r'func \(x \*?(\w+)\) UnmarshalXML', src.split('func (x *MapValues)')[0] + src.split('func (x *MapValues)')[1])}
PRED = 'CompoundPredicate False SimplePredicate SimpleSetPredicate True'.split()
EXPR = 'Aggregate Apply Constant Discretize FieldRef Lag MapValues NormContinuous NormDiscrete TextIndex'.split()
MODEL = 'AssociationModel BaselineModel BayesianNetworkModel ClusteringModel GaussianProcessModel GeneralRegressionModel MiningModel NaiveBayesModel NearestNeighborModel NeuralNetwork RegressionModel RuleSetModel Scorecard SequenceModel SupportVectorMachineModel TextModel TimeSeriesModel TreeModel'.split()
DIST = 'AnyDistribution GaussianDistribution PoissonDistribution UniformDistribution'.split()
EMB = 'DecisionTree Regression'.split()
TAB = 'InlineTable TableLocator'.split()
group = {('Node', 'Predicate'): ('pred', PRED, 0), ('Node', 'EmbeddedModel'): ('emb', EMB, 0), ('CompoundPredicate', 'Predicates'): ('pred', PRED, 1),
 ('Segment', 'Predicates'): ('pred', PRED, 1), ('Segment', 'Models'): ('model', MODEL, 1), ('PMML', 'Models'): ('model', MODEL, 1),
 ('Apply', 'Expressions'): ('expr', EXPR, 1), ('DerivedField', 'Expression'): ('expr', EXPR, 0), ('DefineFunction', 'Expression'): ('expr', EXPR, 0),
 ('ChildParent', 'Table'): ('tab', TAB, 0), ('Alternate', 'Distribution'): ('dist', DIST, 0)}
def hasext(t): return any(f[0] == 'Extensions' for f in structs.get(t, []))
def elemname(t):  # XML name of a struct
    if t == "CountTableType": return "CountTable"
    m = [x for x in re.findall(r'<xs:element name="([\w-]+)"', src[:src.find('\ntype %s struct' % t)])]
    return m[-1] if m else t
out = []
def go(x): out.append(x)
go('package props\n\nimport "github.com/flukeish/pmml/models"\n')
go('// Generated once by tools/elemspecs.py and reviewed; not regenerated by the checks.\n')
go('func init() {\n\telemSpecs = []elemSpec{')
tree = 'Node SimplePredicate SimpleSetPredicate CompoundPredicate True False ScoreDistribution TreeModel Partition DecisionTree'.split()
n = 0
for t, fs in structs.items():
    if t == 'ArrayType': continue
    attrs, vals, kids, kv = [], [], [], []
    for name, typ, tag in fs:
        tag = tag or ''
        x = re.search(r'xml:"([^"]*)"', tag)
        x = x.group(1) if x else ''
        if (t, name) in group:
            g, names, multi = group[(t, name)]
            kids.append('{%s, []string{%s}}' % ('true' if multi else 'false', ', '.join('"%s"' % q for q in names)))
            if multi:
                kv.append('func() (r []string) { for _, k := range m.%s { r = append(r, %sMark(k)) }; return }()' % (name, g))
            else:
                kv.append('func() (r []string) { if m.%s != nil { r = append(r, %sMark(m.%s)) }; return }()' % (name, g, name))
            continue
        if ',attr' in x:
            an = x.split(',')[0]
            ptr = typ.startswith('*'); b = base.get(typ.lstrip('*'))
            if not b: continue
            k = {'string': 's', 'float64': 'f', 'int': 'i', 'int64': 'i', 'uint': 'u', 'bool': 'b'}[b]
            conv = {'s': 'string', 'f': 'float64', 'i': 'int64', 'u': 'int64', 'b': 'bool'}[k]
            if t == 'ChildParent' and an == 'isRecursive': k = 'y'
            d = ''
            if t == 'Apply' and an == 'invalidValueTreatment': d = 'returnInvalid'
            attrs.append('{"%s", \'%s\', %s, "%s"}' % (an, k, 'true' if ptr else 'false', d))
            if ptr: vals.append('func() interface{} { if m.%s == nil { return nil }; return %s(*m.%s) }()' % (name, conv, name))
            else: vals.append('%s(m.%s)' % (conv, name))
            continue
        if not x or ',' in x or x == '-': continue
        multi = typ.startswith('[]'); ptr = typ.startswith('*'); et = typ.lstrip('[]*')
        if et == 'Extension':
            kids.append('{true, []string{"Extension"}}')
            kv.append('func() (r []string) { for _, k := range m.%s { r = append(r, extMark(k)) }; return }()' % name)
            continue
        if not hasext(et): continue
        kids.append('{%s, []string{"%s"}}' % ('true' if multi else 'false', x))
        if multi: kv.append('func() (r []string) { for _, k := range m.%s { r = append(r, mark(k.Extensions)) }; return }()' % name)
        elif ptr: kv.append('func() (r []string) { if m.%s != nil { r = append(r, mark(m.%s.Extensions)) }; return }()' % (name, name))
        else: kv.append('func() (r []string) { if len(m.%s.Extensions) > 0 { r = append(r, mark(m.%s.Extensions)) }; return }()' % (name, name))
    if not attrs and not kids: continue
    if not attrs and kids == ['{true, []string{"Extension"}}'] and t not in ('True', 'False'): continue
    n += 1
    go('\t\t{"%s", %s, []attrSpec{%s}, []kidSpec{%s}, func() (interface{}, func() []interface{}, func() [][]string) {\n\t\t\tm := &models.%s{}\n\t\t\treturn m, func() []interface{} { return []interface{}{%s} }, func() [][]string {\n\t\t\t\treturn [][]string{%s}\n\t\t\t}\n\t\t}},' %
       (elemname(t), 'true' if t in tree else 'false', ', '.join(attrs), ', '.join(kids), t, ', '.join(vals), ',\n\t\t\t\t\t'.join(kv)))
go('\t}\n}\n')
for g, names, iface in [('pred', PRED, 'Predicate'), ('expr', EXPR, 'Expression'), ('model', MODEL, 'ModelElement'), ('dist', DIST, 'ContinuousDistributionType'), ('emb', EMB, 'EmbeddedModel'), ('tab', TAB, 'Table')]:
    go('func %sMark(k models.%s) string {\n\tswitch k := k.(type) {' % (g, iface))
    for q in names:
        go('\tcase *models.%s:\n\t\treturn "%s:" + %s' % (q, q, 'k.Value' if q == 'Constant' else 'mark(k.Extensions)'))
    go('\t}\n\treturn "?"\n}\n')
print('\n'.join(out))
print(n, 'elements', file=sys.stderr)
